"""C09: combinatorial enumeration against brute force with exact rational linear algebra."""
from itertools import combinations

import numpy as np

from rnv import fakeray, gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator

ID = "C09"
CASES = {"quick": 1000, "thorough": 12000}
CHUNK = 2
RULE = ("a case is non-trivial if the brute-force search finds at least one allowed reaction or the options exclude one; "
        "distinct by (phases of the system, options, reactions found)")
TECHNIQUE = ("runtime monitoring: enumerate() runs on the real code under a simulated Ray scheduler, and its output is compared as "
             "a multiset with an independent brute-force enumeration over groups of phases using exact rational null spaces")
NEED = ["oracle_decisions", "reactions_expected", "reactions_excluded_by_options", "open_cases", "polymorph_cases",
        "interpolated_phases", "exclusive_targets", "nonexclusive_precursors", "chemsys_filters", "n3_cases", "wide_systems", "wide_reactions", "several_open_phases"]
ASSUMPTIONS = ["a precursor or target formula means its ground-state entry (interpolated if the set lacks it)",
               "a chemical system filter keeps the reactions whose chemical system contains all its elements",
               "reactions that contain open phases hold them on one side, as the enumerator's documentation of combinations implies",
               "Ray is replaced by an in-process model (arguments pickled, arbitrary task order); C11 uses the real Ray as well"]


def key(e):
    f = e.composition.reduced_formula
    if type(e).__name__ == "InterpolatedEntry":
        return f"interp|{f}"
    return f"{type(e).__name__}|{e.entry_id}|{f}|{e.energy_per_atom:.6f}"


def cls(pairs):
    """Canonical (phases, coefficients scaled by the first)."""
    p = sorted((k, float(c)) for k, c in pairs)
    s = abs(p[0][1])
    return tuple((k, oracle.snap(c / s)) for k, c in p)


def rxn_key(r):
    return cls((key(e), c) for e, c in zip(r.entries, r.coefficients))


def groups(ents, n):
    return [c for k in range(1, n + 1) for c in combinations(ents, k)]


def brute(ents, n, open_ents):
    """All reactions between disjoint groups: list of (reactant entries, product entries, coefficients by entry)."""
    info = {id(e): (frozenset(map(str, e.composition.elements)), e.composition.reduced_composition) for e in ents + open_ents}
    plain = groups(ents, n)
    out = []
    if not open_ents:
        todo = combinations(plain, 2)
    else:
        og = groups(open_ents, len(open_ents))
        todo = ((a, b + o) for a in plain for b in plain for o in og)
    els = {c: frozenset().union(*(info[id(e)][0] for e in c)) for c in plain}
    ids = {c: frozenset(id(e) for e in c) for c in plain}
    for a, b in todo:
        ea = els[a]
        eb = els.get(b)
        if eb is None:
            eb = frozenset().union(*(info[id(e)][0] for e in b))
        if ea != eb or ids[a] & (ids.get(b) or {id(e) for e in b}):
            continue
        ca, cb = [info[id(e)][1] for e in a], [info[id(e)][1] for e in b]
        if {c.reduced_formula for c in ca} == {c.reduced_formula for c in cb}:
            continue  # identity
        nul, w = oracle.balance_exact(ca, cb)
        if nul != 1 or w is None:
            continue
        out.append((a, b, w))
        out.append((b, a, [-x for x in w[len(a):]] + [-x for x in w[: len(a)]]))
    return out


def wide_system(rng, n):
    """Salts of two to three cation and anion groups: reactions over up to nine elements."""
    T = gen.temperature(rng)
    k = 2 if n == 1 or rng.random() < 0.7 else 3
    while True:
        cat = rng.sample(gen.METALS, sum(cs := [rng.choice([1, 1, 2]) for _ in range(k)]))
        an = rng.sample(gen.ANIONS, sum(as_ := [rng.choice([1, 2, 2]) for _ in range(k)]))
        if 5 <= len(cat) + len(an) <= 9:
            break

    def split(els, sizes):
        out, i = [], 0
        for s in sizes:
            out.append({e: rng.randint(1, 3) for e in els[i : i + s]})
            i += s
        return out

    cats, ans = split(cat, cs), split(an, as_)
    ents, seen = [], set()
    for c in cats:
        for a in ans:
            x, y = rng.randint(1, 2), rng.randint(1, 2)
            d = {e: v * x for e, v in c.items()} | {e: v * y for e, v in a.items()}
            f = gen.reduced(d)
            if f not in seen:
                seen.add(f)
                ents.append(gen.gibbs(rng, d, T, f"mp-{len(ents)}-{f}"))
    for e in rng.sample(cat + an, rng.randint(0, 2)):
        ents.append(gen.element_entry(rng, e, T))
    rng.shuffle(ents)
    return ents, cat + an, T


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 2, 2, 3])
    n_el = rng.choice([2, 2, 3, 3, 3, 4, 5]) if n < 3 else rng.choice([2, 3])
    n_comp = rng.randint(1, {1: 8, 2: 6, 3: 3}[n])
    open_case = rng.random() < 0.35
    many_open = open_case and rng.random() < 0.3
    if many_open:  # several reservoirs at once need many elements to matter
        n, n_el, n_comp = rng.choice([1, 1, 1, 2]), rng.choice([3, 4, 4, 5]), rng.randint(2, 5)
    els = gen.elements(rng, n_el)
    if open_case and "O" not in els and rng.random() < 0.7:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_el, n_comp, els=els, frac=rng.choice([0, 0, 0.15]), poly=0.25, el_poly=0.1, nist=0.15, mx=4, data=True, ternary=rng.choice([2, 3, 3, 4]))
    wide = not open_case and rng.random() < 0.12
    if wide:
        ctx.count("wide_systems")
        n = rng.choice([2, 2, 2, 3])
        ents, els, T = wide_system(rng, n)
    if rng.random() < 0.25 and not wide:  # a subset without some elements: nothing requires them
        ents = rng.sample(ents, max(3, len(ents) - rng.randint(1, n_el)))
    cap = {1: 14, 2: 10, 3: 7}[n]
    ents = ents[:cap]
    have = {}
    for e in ents:
        f = e.composition.reduced_formula
        if f not in have or e.energy_per_atom < have[f].energy_per_atom:
            have[f] = e
    elements_present = {str(x) for e in ents for x in e.composition.elements}
    full = all(gen.el_formula(x) in have for x in elements_present)
    if len({e.composition.reduced_formula for e in ents}) < len(ents):
        ctx.count("polymorph_cases")
    if n == 3:
        ctx.count("n3_cases")
    formulas = sorted(have)
    open_phases = []
    if open_case:
        gas = [f for f in formulas if f in ("O2", "N2", "H2", "CO2", "Cl2", "F2", "H2O")] or formulas
        open_phases = rng.sample(gas, 1 if rng.random() < 0.75 else min(2, len(gas)))
        if many_open:
            pref = [f for f in formulas if len(Composition(f)) == 1] if rng.random() < 0.7 else formulas
            open_phases = rng.sample(pref, min(len(pref), rng.choice([2, 3, 3, 4])))
            ctx.count("several_open_phases", len(open_phases) > 2)
        ctx.count("open_cases")
    rest = [f for f in formulas if f not in open_phases]
    if not rest:
        return
    opts, interp = {}, []

    def pick(allow_open):
        fs = rng.sample(rest, min(len(rest), rng.randint(1, 3)))
        if allow_open and open_phases and rng.random() < 0.3:
            fs.append(rng.choice(open_phases))
        if full and n < 3 and not interp and rng.random() < 0.12 and len(els) > 1:
            d = gen.comp_dict(rng, sorted(elements_present), 2, 2, 3) if len(elements_present) > 1 else None
            f = gen.reduced(d) if d else None
            if f and f not in have and f not in open_phases:
                fs[0] = f
                interp.append(f)
        return fs

    if rng.random() < 0.6:
        opts["exclusive_precursors"] = rng.random() < 0.5
        opts["precursors"] = pick(opts["exclusive_precursors"])
        if not opts["exclusive_precursors"]:
            ctx.count("nonexclusive_precursors")
    if rng.random() < 0.5:
        opts["exclusive_targets"] = rng.random() < 0.4
        opts["targets"] = pick(opts["exclusive_targets"])
        if opts["exclusive_targets"]:
            ctx.count("exclusive_targets")
    if rng.random() < 0.25 and len(open_phases) < 2:  # with several open phases, reservoirs not taking part count as present or not
        closed_els = sorted({str(x) for f in rest for x in Composition(f).elements})
        opts["filter_by_chemsys"] = "-".join(rng.sample(closed_els, min(len(closed_els), rng.randint(1, 3))))
        ctx.count("chemsys_filters")
    # unreduced spelling of a requested formula
    for k in ("precursors", "targets"):
        if k in opts and rng.random() < 0.15:
            f = opts[k][-1]
            if Composition(f).reduced_formula == f and f not in open_phases and all(a % 1 == 0 for a in Composition(f).values()):
                opts[k] = opts[k][:-1] + [(Composition(f) * 2).formula.replace(" ", "")]
    fd = rng.random() < 0.15
    kw = dict(n=n, quiet=True, chunk_size=rng.choice([1, 2, 5, 17, 100, 2500]), max_num_jobs=rng.choice([1, 3, 50, 5000]), filter_duplicates=fd, **opts)
    enum = BasicOpenEnumerator(open_phases, **kw) if open_case else BasicEnumerator(**kw)
    es = GibbsEntrySet(ents)
    before = sorted(key(e) for e in es)
    ctx.note([gen.desc(e) for e in ents], kw, open_phases)
    fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 2, 4, 9]))
    if interp:
        # a phase diagram must exist for interpolation
        ctx.count("interpolated_phases", len(interp))
    got = enum.enumerate(es)
    got_rxns = list(got.get_rxns())
    ctx.check(sorted(key(e) for e in es) == before, "entries-modified", "the caller's entry set changed")
    ctx.check(len(got) == len(got_rxns), "len", f"len {len(got)} but {len(got_rxns)} reactions")

    # ---- oracle
    pool = list(ents)
    for f in interp:
        ie = es.get_interpolated_entry(f)
        pool.append(ie)
        have[f] = ie
    open_ents = [e for e in pool if e.composition.reduced_formula in open_phases]
    plain = [e for e in pool if e.composition.reduced_formula not in open_phases]
    openk = {key(e) for e in open_ents}
    fset = lambda k: {key(have[Composition(f).reduced_formula]) for f in opts[k]} if k in opts else None
    P, Tg = fset("precursors"), fset("targets")
    filt = set(opts["filter_by_chemsys"].split("-")) if "filter_by_chemsys" in opts else None
    exp, excluded = [], 0
    for a, b, w in brute(plain, n, open_ents):
        ka, kb = {key(e) for e in a} - openk, {key(e) for e in b} - openk
        ok = True
        if P is not None:
            ok &= ka <= P if opts["exclusive_precursors"] else bool(ka & P)
        if Tg is not None:
            ok &= kb <= Tg if opts["exclusive_targets"] else bool(kb & Tg)
        if filt is not None:
            ok &= filt <= {str(x) for e in a + b for x in e.composition.elements}
        if not ok:
            excluded += 1
            continue
        exp.append(cls((key(e), c) for e, c in zip(a + b, w)))
    ctx.count("reactions_expected", len(exp))
    ctx.count("wide_reactions", len(exp) if wide else 0)
    ctx.count("reactions_excluded_by_options", excluded)
    gk = [rxn_key(r) for r in got_rxns]
    from collections import Counter

    ce, cg = Counter(exp), Counter(gk)
    missing, extra = ce - cg, cg - ce
    ctx.check(not missing, "missing", lambda: f"missing {len(missing)} of {len(exp)}: {list(missing)[:3]}\nopts={kw} open={open_phases}\nextra {list(extra)[:3]}")
    ctx.check(not extra, "extra", lambda: f"{sum(extra.values())} unexpected: {list(extra)[:3]} (expected {len(exp)})\nopts={kw} open={open_phases}\nmissing {list(missing)[:3]}")
    for r in got_rxns[:20]:
        s = oracle.element_sums(r.compositions, r.coefficients)
        ctx.check(r.balanced and all(abs(v) < 1e-6 for v in s.values()), "unbalanced", str(r))
    if exp or excluded:
        ctx.sig(before, sorted(opts.items(), key=str), open_phases, n, len(exp))
    ctx.sample(dict(entries=[gen.desc(e) for e in ents][:6], options={k: str(v) for k, v in kw.items()}, open=open_phases, reactions=len(exp),
                    excluded=excluded, example=str(got_rxns[0]) if got_rxns else None))
