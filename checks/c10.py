"""C10: minimisation enumerators against linear-programming minimisation along every reactant pair."""
from collections import defaultdict

import numpy as np
from scipy.optimize import linprog

from rnv import fakeray, gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

ID = "C10"
CASES = {"quick": 600, "thorough": 12000}
CHUNK = 2
RULE = ("a case is non-trivial if at least one interior breakpoint or decomposition exists in the reference minimisation; distinct by "
        "(entries, open element, mu, options)")
TECHNIQUE = ("runtime monitoring: every reaction returned by the real enumerators is checked against a linear-programming minimum at its own "
             "overall composition, and breakpoints found by an independent subgradient search along reactant pairs must be represented")
NEED = ["oracle_decisions", "closed_reactions", "open_reactions", "breakpoints", "grand_breakpoints", "decompositions", "option_cases",
        "filtered_by_options", "oxygen_released", "oxygen_consumed", "interpolated_precursors"]
ASSUMPTIONS = ["reactions that do not exchange the open element are not required of the grand-potential enumerator (the existing tests pin their absence)",
               "a precursor or target formula means its ground-state entry (interpolated if the set lacks it)",
               "breakpoints closer than 1e-3 (mixing fraction) to a reactant or to each other, or with a slope change below 1e-4 eV, are not required"]
TOL = 2e-6


def key(e):
    f = e.composition.reduced_formula
    return f"interp|{f}" if type(e).__name__ == "InterpolatedEntry" else f"{type(e).__name__}|{e.entry_id}|{f}|{e.energy_per_atom:.6f}"


class Hull:
    """Lower envelope of (grand) potential per closed atom over the entries, by LP."""

    def __init__(self, ents, open_el=None, mu=0.0):
        self.open_el = open_el
        self.rows = []
        for e in ents:
            c = {str(k): float(v) for k, v in e.composition.items()}
            o = c.pop(open_el, 0.0) if open_el else 0.0
            n = sum(c.values())
            if n == 0:
                continue
            E = float(e.energy) - mu * o
            self.rows.append(({k: v / n for k, v in c.items()}, E / n))

    def closed(self, comp):
        c = {str(k): float(v) for k, v in comp.items() if str(k) != self.open_el}
        n = sum(c.values())
        return ({k: v / n for k, v in c.items()} if n else None), n

    def solve(self, x):
        """-> (minimum, {element: dual}) at closed fractions x."""
        els = sorted(k for k, v in x.items() if v > 1e-12)
        use = [(c, e) for c, e in self.rows if set(c) <= set(els)]
        A = np.array([[c.get(el, 0.0) for c, _ in use] for el in els])
        r = linprog([e for _, e in use], A_eq=A, b_eq=[x[el] for el in els], bounds=[(0, None)] * len(use), method="highs")
        if r.status != 0:
            return None
        return r.fun, dict(zip(els, r.eqlin.marginals))

    def breakpoints(self, xa, xb):
        """Interior kinks of the envelope along (1-t) xa + t xb: [(t, slope change)]."""
        els = sorted(set(xa) | set(xb))
        a = np.array([xa.get(e, 0.0) for e in els])
        b = np.array([xb.get(e, 0.0) for e in els])

        def at(t):
            r = self.solve(dict(zip(els, (1 - t) * a + t * b)))
            if r is None:
                return None
            g, d = r
            lam = np.array([d.get(e, 0.0) for e in els])
            return t, g, float(lam @ (b - a))

        lo, hi = at(5e-4), at(1 - 5e-4)
        if lo is None or hi is None:
            return []
        out = []

        def rec(l, h, depth):
            if depth > 40 or abs(l[2] - h[2]) < 1e-7:
                return
            t = ((h[1] - h[2] * h[0]) - (l[1] - l[2] * l[0])) / (l[2] - h[2])
            if not (l[0] - 1e-9 <= t <= h[0] + 1e-9):
                return
            m = at(min(max(t, 5e-4), 1 - 5e-4))
            if m is None:
                return
            if m[1] < l[1] + l[2] * (t - l[0]) + 1e-8:
                out.append((t, abs(h[2] - l[2])))
            elif t - l[0] > 1e-9 and h[0] - t > 1e-9:
                rec(l, m, depth + 1)
                rec(m, h, depth + 1)

        rec(lo, hi, 0)
        return sorted(out)


def case(ctx):
    rng = ctx.rng
    n_el = rng.choice([2, 3, 3, 3, 4])
    n_comp = rng.randint(2, {2: 5, 3: 7, 4: 7}[n_el])
    els = gen.elements(rng, n_el)
    grand = rng.random() < 0.5
    if grand and "O" not in els and rng.random() < 0.7:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_el, n_comp, els=els, frac=rng.choice([0, 0, 0.15]), poly=0.2, el_poly=0.05, nist=0.1, mx=4, ternary=rng.choice([2, 3, 3, 4]))
    open_el = None
    if grand:
        open_el = "O" if "O" in els and rng.random() < 0.8 else rng.choice(els)
    mu = round(rng.choice([0.0, rng.uniform(-0.5, 0), rng.uniform(-2.5, 0), rng.uniform(-4, 0.3)]), 4) if grand else 0.0
    es = GibbsEntrySet(ents)
    have = {}
    for e in ents:
        f = e.composition.reduced_formula
        if f not in have or e.energy_per_atom < have[f].energy_per_atom:
            have[f] = e
    openf = gen.el_formula(open_el) if grand else None
    forms = sorted(f for f in have if f != openf)
    opts, interp = {}, []

    def pick():
        fs = rng.sample(forms, min(len(forms), rng.randint(1, 4)))
        if not interp and rng.random() < 0.25:
            d = gen.comp_dict(rng, els, 2, 3, 3)
            f = gen.reduced(d)
            if f not in have and f != openf:
                fs[0] = f
                interp.append(f)
                ctx.count("interpolated_precursors")
        return fs

    r = rng.random()
    if r < 0.3:
        opts["exclusive_precursors"] = rng.random() < 0.6
        opts["precursors"] = pick()
    if rng.random() < 0.25:
        opts["exclusive_targets"] = rng.random() < 0.3
        opts["targets"] = pick()
    if rng.random() < 0.12:
        opts["filter_by_chemsys"] = "-".join(rng.sample([e for e in els if e != open_el], 1))
    kw = dict(quiet=True, chunk_size=rng.choice([1, 3, 10, 1000]), max_num_jobs=rng.choice([2, 1000]), filter_duplicates=rng.random() < 0.2, **opts)
    if opts:
        ctx.count("option_cases")
    enum = MinimizeGrandPotentialEnumerator(open_elem=gen.El(open_el), mu=mu, **kw) if grand else MinimizeGibbsEnumerator(**kw)
    ctx.note([gen.desc(e) for e in ents], kw, open_el, mu)
    before = sorted(key(e) for e in ents)
    fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 3, 8]))
    got = list(enum.enumerate(es).get_rxns())
    ctx.check(sorted(key(e) for e in es) == before, "entries-modified", "the caller's entries changed")
    for f in interp:
        ie = es.get_interpolated_entry(f)
        ents = ents + [ie]
        have[Composition(f).reduced_formula] = ie
    by_id = {key(e): e for e in ents}
    hull = Hull(ents, open_el, mu)
    chull = Hull(ents)
    openk = {k for k, e in by_id.items() if e.composition.reduced_formula == openf}
    fset = lambda k: {key(have[Composition(f).reduced_formula]) for f in opts[k]} if k in opts else None
    P, Tg = fset("precursors"), fset("targets")
    filt = set(opts["filter_by_chemsys"].split("-")) if "filter_by_chemsys" in opts else None
    ctx.count("open_reactions" if grand else "closed_reactions", len(got))

    found = defaultdict(list)
    for rx in got:
        s = oracle.element_sums(rx.compositions, rx.coefficients)
        ctx.check(rx.balanced and all(abs(v) < 1e-6 * max(1, max(map(abs, rx.coefficients)) * 10) for v in s.values()), "unbalanced", str(rx))
        ctx.check(isinstance(rx, OpenComputedReaction) == grand and isinstance(rx, ComputedReaction), "class", type(rx).__name__)
        R = {key(e): -c for e, c in zip(rx.entries, rx.coefficients) if c < 0}
        Pr = {key(e): c for e, c in zip(rx.entries, rx.coefficients) if c > 0}
        ctx.check(all(c != 0 for c in rx.coefficients) and not set(R) & set(Pr), "sides", str(rx))
        ctx.check(all(k in by_id for k in [*R, *Pr]), "unknown-entry", str(rx))
        if not all(k in by_id for k in [*R, *Pr]):
            continue
        ctx.check(all(have[by_id[k].composition.reduced_formula] is by_id[k] or abs(have[by_id[k].composition.reduced_formula].energy_per_atom - by_id[k].energy_per_atom) < 1e-9
                      for k in Pr), "not-ground-state", str(rx))
        if grand:
            ctx.check({str(k): float(v) for k, v in rx.chempots.items()} == {open_el: mu}, "chempots", str(rx.chempots))
            ctx.check(bool(openk & {*R, *Pr}), "exchange", lambda: f"{rx}: does not exchange {open_el}")
            ctx.count("oxygen_released" if set(Pr) & openk else "oxygen_consumed" if set(R) & openk else "no_open_phase")
        Rc, Pc = {k: v for k, v in R.items() if k not in openk}, {k: v for k, v in Pr.items() if k not in openk}
        ctx.check(1 <= len(Rc) <= 2 and len(Pc) >= 1, "reactants", f"{rx}: more than two closed reactants")
        # options
        if P is not None:
            ctx.check(set(Rc) <= P if opts["exclusive_precursors"] else bool(set(Rc) & P), "precursor-option", f"{rx} {opts}")
        if Tg is not None:
            ctx.check(set(Pc) <= Tg if opts["exclusive_targets"] else bool(set(Pc) & Tg), "target-option", f"{rx} {opts}")
        if filt is not None:
            elset = {str(x) for k in [*R, *Pr] for x in by_id[k].composition.elements}
            ctx.check(filt <= elset | ({open_el} if grand else set()), "chemsys-option", f"{rx} {opts}")
        # thermodynamic minimum at the overall closed composition
        tot, phi, n = defaultdict(float), 0.0, 0.0
        for k, c in Pc.items():
            e = by_id[k]
            nf = e.composition.num_atoms / e.composition.reduced_composition.num_atoms
            for el, a in e.composition.reduced_composition.items():
                if str(el) != open_el:
                    tot[str(el)] += c * a
                    n += c * a
            phi += c * (e.energy / nf - (mu * e.composition.reduced_composition[gen.El(open_el)] if grand else 0.0))
        ref = hull.solve({k: v / n for k, v in tot.items()})
        ctx.check(ref is not None and abs(phi / n - ref[0]) < TOL + 1e-6 * abs(ref[0]), "not-minimum",
                  lambda: f"{rx}: products at {phi / n:.7f} eV/atom, minimum {ref and ref[0]:.7f} (open {open_el} mu {mu})")
        frs = tuple(sorted(by_id[k].composition.reduced_formula for k in Rc))
        found[frs].append({by_id[k].composition.reduced_formula: v * by_id[k].composition.reduced_composition.num_atoms for k, v in Rc.items()} | {"": rx})

    def allowed(fa, prods):
        """Do the options allow a reaction of these closed reactant formulas to these products (None: unknown)?"""
        k = {key(have[f]) for f in fa}
        if P is not None and not (k <= P if opts["exclusive_precursors"] else k & P):
            return False
        if filt is not None and not filt <= {str(x) for f in fa for x in Composition(f).elements} | ({open_el} if grand else set()):
            return False
        if Tg is not None:
            pk = {key(have[f]) for f in prods}
            if not (pk <= Tg if opts["exclusive_targets"] else pk & Tg):
                return False
        return True

    forms = sorted(f for f in have if f != openf)
    pairs = [(a, b) for i, a in enumerate(forms) for b in forms[i + 1:]]
    rng.shuffle(pairs)
    nontrivial = 0

    def products(x):
        """Formulas of the minimising mixture (weights > 1e-7), None if not unique by a margin."""
        els_ = sorted(k for k, v in x.items() if v > 1e-12)
        use = [(f, hull_row(f)) for f in forms]
        use = [(f, c, e) for f, (c, e) in use if c is not None and set(c) <= set(els_)]
        A = np.array([[c.get(el, 0.0) for _, c, _ in use] for el in els_])
        r = linprog([e for *_, e in use], A_eq=A, b_eq=[x[el] for el in els_], bounds=[(0, None)] * len(use), method="highs")
        lam = r.eqlin.marginals
        w = {f: v for (f, *_), v in zip(use, r.x)}
        sup = {f for f, v in w.items() if v > 1e-7}
        # every other phase must be clearly above the supporting plane, or of clearly zero weight in a non-degenerate solution
        return sup

    def hull_row(f):
        e = have[f]
        c, n = hull.closed(e.composition)
        if not n:
            return None, None
        return c, (e.energy - (mu * e.composition[gen.El(open_el)] if grand else 0.0)) / n

    def neutral(x, sup, *reactants):
        """Does a mixture of these reactants turn into the products without exchanging the open element?"""
        els_ = sorted(x)
        A = np.array([[hull_row(f)[0].get(el, 0.0) for f in sorted(sup)] for el in els_])
        w = np.linalg.lstsq(A, np.array([x[el] for el in els_]), rcond=None)[0]

        def per_closed(f):
            c = Composition(f)
            return c[gen.El(open_el)] / hull.closed(c)[1]

        return abs(sum(v * per_closed(f) for f, v in zip(sorted(sup), w)) - sum(v * per_closed(f) for f, v in reactants)) < 1e-5

    for a, b in pairs[:12]:
        xa, na = hull.closed(Composition(a))
        xb, nb = hull.closed(Composition(b))
        if xa is None or xb is None or all(abs(xa.get(k, 0) - xb.get(k, 0)) < 1e-9 for k in {*xa, *xb}):
            continue
        if len({*xa, *xb}) > 9:
            continue
        bps = hull.breakpoints(xa, xb)
        ts = [t for t, _ in bps]
        for i, (t, ds) in enumerate(bps):
            if t < 1e-3 or t > 1 - 1e-3 or ds < 1e-4 or any(abs(t - u) < 1e-3 for j, u in enumerate(ts) if j != i):
                continue
            nontrivial += 1
            x = {k: (1 - t) * xa.get(k, 0.0) + t * xb.get(k, 0.0) for k in {*xa, *xb}}
            sup = products(x)
            ctx.count("grand_breakpoints" if grand else "breakpoints")
            if grand and neutral(x, sup, (a, 1 - t), (b, t)):
                ctx.count("neutral_breakpoints")
                continue
            if sup & {a, b}:
                ctx.count("breakpoint_with_unreacted_phase")
                continue
            if not allowed((a, b), sup):
                ctx.count("filtered_by_options")
                continue
            ok = False
            for f in found.get(tuple(sorted((a, b))), []):
                # closed atoms contributed by each reactant
                ca = f[a] * na / Composition(a).num_atoms
                cb = f[b] * nb / Composition(b).num_atoms
                if abs(cb / (ca + cb) - t) < 2e-4:
                    ok = True
            ctx.check(ok, "missing-breakpoint",
                      lambda: f"{a} + {b} at t={t:.5f} -> {sup} (slope change {ds:.4f}, open {open_el} mu {mu}) not among "
                              f"{[str(f['']) for f in found.get(tuple(sorted((a, b))), [])]} opts={opts}")
    # decomposition of single phases
    for a in forms:
        xa, na = hull.closed(Composition(a))
        e = have[a]
        if len(e.composition.elements) < 2 or (grand and len(xa) < 1):
            continue
        c, phi = hull_row(a)
        ref = hull.solve(xa)
        if ref is None or phi - ref[0] < 1e-4:
            continue
        nontrivial += 1
        sup = products(xa)
        ctx.count("decompositions")
        if a in sup or not allowed((a,), sup):
            continue
        if grand and neutral(xa, sup, (a, 1.0)):
            ctx.count("neutral_decompositions")
            continue
        ctx.check(bool(found.get((a,))), "missing-decomposition", lambda: f"{a} ({phi - ref[0]:.4f} above) -> {sup}: no reaction (open {open_el}, mu {mu}) opts={opts}")
    if nontrivial:
        ctx.sig(before, open_el, mu, sorted(opts.items(), key=str))
    ctx.sample(dict(entries=[gen.desc(e) for e in ents][:6], open=open_el, mu=mu, opts=str(opts), reactions=len(got), example=str(got[0]) if got else None))
