"""C22: chemical potential domains, distances and offsets against linear programming and brute force."""
import itertools

import numpy as np
from scipy.optimize import linprog

from rnv import gen, oracle, rs
from rxn_network.costs.calculators import ChempotDistanceCalculator
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram

ID = "C22"
RAY = "none"
CASES = {"quick": 500, "thorough": 14000}
CHUNK = 4
RULE = ("random systems of 2-5 elements with polymorphs, marginal and unstable phases, as closed or grand potential entries, random limits; one diagram "
        "queried in random order against fresh diagrams and LP oracles; distinct by (entries, limits, queries)")
TECHNIQUE = ("runtime monitoring: every point of every domain and every distance, offset and score returned by the real diagram is checked against linear programs "
             "over the raw entries (membership, support function, stability margin) and brute-force distances, under random query histories")
NEED = ["oracle_decisions", "domains", "domain_points", "support", "metastable_domain", "distance_stable", "distance_metastable", "touching", "apart", "offset_positive",
        "offset_zero", "grand", "grand_collision", "limits", "history_queries", "scores", "scores_open", "order", "unstable_no_domain", "polymorph_offset", "marginal"]
ASSUMPTIONS = ["the distance between two domains is the one between their nearest corner points (the existing tests pin this for a pair whose faces come closer)",
               "phases within 1e-5 eV/atom of the stability boundary are checked for consistency only, metastable domains to 5e-3 eV/atom (the code lowers the energy by "
               "a small tolerance beyond the hull, amplified by the geometry)",
               "with explicit limits only the domains are checked (a metastable domain is computed with default limits)",
               "energies of the elements are at most zero at the bounds given (the diagram is clipped at zero), every element has an entry"]
EPS = 1e-5


class Ora:
    def __init__(self, entries, limits=None, dmin=-100.0):
        self.E = list(entries)
        self.els = sorted({x for e in self.E for x in e.composition.elements})
        self.X = np.array([[e.composition.get_atomic_fraction(x) for x in self.els] for e in self.E])
        self.e = np.array([e.energy_per_atom for e in self.E])
        self.b = [tuple((limits or {}).get(x, (dmin, 0.0))) for x in self.els]
        self.f = [e.composition.reduced_formula for e in self.E]
        self.emin = {}
        for i, f in enumerate(self.f):
            if f not in self.emin or self.e[i] < self.e[self.emin[f]]:
                self.emin[f] = i

    def x(self, f):
        return self.X[self.emin[f]]

    def hull(self, f, without=False):
        """lowest energy per atom at the composition of f from all entries / from those of other formulas"""
        use = [i for i in range(len(self.E)) if not (without and self.f[i] == f)]
        r = linprog(self.e[use], A_eq=self.X[use].T, b_eq=self.x(f), bounds=[(0, None)] * len(use), method="highs")
        return r.fun if r.status == 0 else np.inf

    def poly(self, f, energy, slack=0.0):
        use = [i for i in range(len(self.E)) if self.f[i] != f]
        return dict(A_ub=self.X[use] if use else None, b_ub=self.e[use] + slack if use else None, A_eq=[self.x(f)], b_eq=[energy], bounds=self.b, method="highs")

    def support(self, f, energy, d):
        r = linprog(-np.asarray(d), **self.poly(f, energy))
        return -r.fun if r.status == 0 else None

    def margin(self, f, energy):
        """largest t such that the phase can coexist with a driving force t against every other phase, within limits"""
        use = [i for i in range(len(self.E)) if self.f[i] != f]
        n = len(self.els)
        A = [np.r_[self.X[i], 1.0] for i in use]
        b = [self.e[i] for i in use]
        for k, (lo, hi) in enumerate(self.b):
            u = np.zeros(n + 1)
            u[k], u[-1] = 1, 1
            A.append(u)
            b.append(hi)
            v = np.zeros(n + 1)
            v[k], v[-1] = -1, 1
            A.append(v)
            b.append(-lo)
        r = linprog(np.r_[np.zeros(n), -1.0], A_ub=A, b_ub=b, A_eq=[np.r_[self.x(f), 0.0]], b_eq=[energy], bounds=[(None, None)] * n + [(None, 10)], method="highs")
        return -r.fun if r.status == 0 else -np.inf

    def touch(self, f, g):
        p = self.poly(f, self.e[self.emin[f]])
        p["A_eq"] = [self.x(f), self.x(g)]
        p["b_eq"] = [self.e[self.emin[f]], self.e[self.emin[g]]]
        return linprog(np.zeros(len(self.els)), **p).status == 0


def brute(P, Q):
    return float(np.min(np.linalg.norm(np.asarray(P)[:, None, :] - np.asarray(Q)[None, :, :], axis=2)))


def case(ctx):
    rng = ctx.rng
    grand = rng.random() < 0.35
    n_el = rng.choice([2, 3, 3, 4]) + (1 if grand else 0)
    els = gen.elements(rng, n_el)
    if grand and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_comp=rng.randint(1, 8 if n_el < 4 else 7), els=els, frac=rng.choice([0, 0, 0.15]), poly=rng.choice([0, 0.4]), el_poly=0.15, nist=0.15, mx=4)
    if rng.random() < 0.3:
        d = gen.comp_dict(rng, els, 2, 3)
        if len(d) > 1 and gen.reduced(d) not in {e.composition.reduced_formula for e in ents}:
            ents.append(gen.gibbs(rng, d, T, "high", fe=rng.uniform(0.05, 1.0)))
    if rng.random() < 0.15:  # a phase on the hull formed by others, up to rounding
        d = gen.comp_dict(rng, els, 2, 3)
        if len(d) > 1 and gen.reduced(d) not in {e.composition.reduced_formula for e in ents}:
            h = oracle.hull_energy(d, ents)
            probe = gen.gibbs(rng, d, T, "marginal", fe=0.0, vol=12.0)
            ents.append(gen.gibbs(rng, d, T, "marginal", fe=h - probe.energy_per_atom + rng.choice([0.0, 1e-9, 1e-7, -1e-7, 1e-5, 1e-4]), vol=12.0))
            ctx.count("marginal")
    raw = list(ents)
    mu = None
    if grand:
        mu = round(rng.choice([0.0, -0.5, rng.uniform(-3, 0)]), 3)
        ents = [e.to_grand_entry({gen.El("O"): mu}) for e in ents if e.composition.reduced_formula != "O2"]
        ctx.count("grand")
        byf = {}
        for e in ents:
            byf.setdefault(e.composition.reduced_formula, set()).add(e.original_entry.composition.reduced_formula)
        ctx.count("grand_collision", sum(len(v) > 1 for v in byf.values()))
    ctx.note("grand", mu, [gen.desc(e) if not grand else (e.original_entry.entry_id, e.composition.formula, round(e.energy_per_atom, 5)) for e in ents])
    lims, dmin = None, rng.choice([-100.0, -100.0, -100.0, -60.0, -250.0])
    kw = {} if dmin == -100.0 else {"default_min_limit": dmin}
    o = Ora(ents, dmin=dmin)
    if len(o.els) < 2:
        return
    if any(o.e[o.emin[gen.el_formula(str(x))]] > 0 for x in o.els):
        return
    if rng.random() < 0.25:
        x = rng.choice(o.els)
        lims = {x: (rng.choice([-50.0, -20.0, -8.0]), 0.0)}
        kw = {**kw, "limits": lims}
        o = Ora(ents, lims, dmin)
        corner = np.array([b[0] for b in o.b]) + 0.1
        if np.any(o.X @ corner > o.e - 1e-6):  # (the code's starting point must be inside)
            return
        ctx.count("limits")
    c = ChemicalPotentialDiagram(list(ents), **kw)
    dom = ChemicalPotentialDiagram(list(ents), **kw).domains
    forms = sorted(o.emin)
    eh, stable, unsure = {}, set(), set()
    for f in forms:
        e = o.e[o.emin[f]]
        eh[f] = e - o.hull(f)
        m = o.margin(f, e)
        if m > EPS:
            stable.add(f)
        elif m > -EPS:
            unsure.add(f)
    # --- domains: right phases, right points, nothing missing
    for f in forms:
        if f in unsure:
            continue
        ctx.check((f in dom) == (f in stable), "domain-exists", lambda: f"{f}: domain {f in dom}, margin {o.margin(f, o.e[o.emin[f]])}, above hull {eh[f]}")
        ctx.count("unstable_no_domain", f not in stable)
    ctx.check(set(dom) <= set(forms), "domain-foreign", lambda: f"{sorted(dom)}")
    n = len(o.els)
    ctx.check([str(x) for x in c.elements] == [str(x) for x in o.els], "elements", "")
    for f in dom:
        P = np.asarray(dom[f])
        ctx.count("domains")
        ctx.count("domain_points", len(P))
        e = o.e[o.emin[f]]
        scale = 1 + abs(P).max()
        ctx.check(np.all(np.abs(P @ o.x(f) - e) < 1e-7 * scale), "domain-equilibrium", lambda: f"{f}: off by {np.abs(P @ o.x(f) - e).max()}")
        over = (P @ o.X.T - o.e[None, :]).max()
        ctx.check(over < 1e-7 * scale, "domain-supersaturated", lambda: f"{f}: another phase supersaturated by {over}")
        ctx.check(all((P[:, k] > lo - 1e-6).all() and (P[:, k] < hi + 1e-6).all() for k, (lo, hi) in enumerate(o.b)), "domain-limits", f"{f}")
        if f in stable:
            for _ in range(2 if n < 4 else 3):
                d = np.array([rng.gauss(0, 1) for _ in range(n)])
                d /= np.linalg.norm(d)
                s = o.support(f, e, d)
                if s is None:
                    continue
                ctx.count("support")
                ctx.check(abs(s - (P @ d).max()) < 1e-4 * scale, "domain-incomplete", lambda: f"{f}: extends to {(P @ d).max()} along {d}, should reach {s}")
    ctx.sig([(gen.uid(e) if not grand else str(e.original_entry.entry_id), round(e.energy_per_atom, 6)) for e in ents], str(lims), dmin)
    # --- offsets
    for i, e in enumerate(o.E):
        f = o.f[i]
        above = o.e[i] - o.hull(f)
        if f in unsure and i == o.emin[f]:
            continue
        if lims and f not in stable:
            continue
        got = c.get_offset(e)
        ref = above / np.linalg.norm(o.X[i]) if above > 1e-9 else 0.0
        ctx.check(abs(got - ref) < 1e-6, "offset", lambda: f"{f} {o.e[i]}: offset {got}, expected {ref}")
        ctx.count("offset_positive" if ref > 0 else "offset_zero")
        ctx.count("polymorph_offset", f in stable and ref > 0)
    if lims:
        return
    # --- distances under a history of queries
    met = {}
    qs = [tuple(rng.sample(forms, 2)) if rng.random() < 0.93 else (rng.choice(forms),) * 2 for _ in range(rng.randint(3, 9))]
    known = {}
    ents2 = list(ents)
    rng.shuffle(ents2)
    fresh_all = ChemicalPotentialDiagram(ents2, **kw)
    ns0 = [(id(e), e.energy_per_atom) for e in c.entries]

    def points(f):
        if f in dom:
            return dom[f]
        if f not in met:
            met[f] = ChemicalPotentialDiagram(list(ents), **kw).metastable_domains.get(f)
        return met[f]

    for f, g in qs:
        off = rng.choice([0.0, 0.0, rng.uniform(0, 1)])
        P, Q = points(f), points(g)
        if P is None or Q is None:
            ctx.fail("metastable-missing", f"{f if P is None else g} has neither a domain nor a metastable domain")
            continue
        got = c.shortest_domain_distance(f, g, offset=off) if off else c.shortest_domain_distance(f, g)
        ref = brute(P, Q) + off
        ctx.count("history_queries")
        ctx.check(abs(got - ref) < 1e-8, "distance", lambda: f"{f} to {g}: {got}, nearest points {ref} (history {qs})")
        ctx.check(got >= off - 1e-12 and abs(c.shortest_domain_distance(g, f, offset=off) - got) < 1e-8, "symmetry", f"{f} {g}: {got}")
        known[f, g] = got - off
        both = f in dom and g in dom
        ctx.count("distance_stable" if both else "distance_metastable")
        if f == g:
            ctx.check(got - off < 1e-12, "self-distance", f"{f}: {got}")
        if both and f in stable and g in stable and f != g:
            t = o.touch(f, g)
            ctx.count("touching" if t else "apart")
            if t:
                ctx.check(got - off < 1e-5, "touching", lambda: f"{f} and {g} coexist but their distance is {got - off}")
            elif got - off < 1e-7:
                ctx.check(False, "not-touching", lambda: f"{f} and {g} cannot coexist but their distance is {got - off}")
        if rng.random() < 0.3:
            ctx.count("order")
            d2 = fresh_all.shortest_domain_distance(f, g)
            ctx.check(abs(d2 - (got - off)) < 2e-5, "entry-order", lambda: f"{f} {g}: {got - off}, with the entries in another order {d2}")
    ctx.check(ns0 == [(id(e), e.energy_per_atom) for e in c.entries] and len(c._entry_set) == len(set(c.entries)), "mutated", "queries changed the entries of the diagram")
    # --- metastable domains: points where the phase made just stable is in equilibrium
    for f in list(met):
        if f in unsure or met[f] is None:
            continue
        e = o.e[o.emin[f]] - eh[f]
        P = np.asarray(met[f])
        ctx.count("metastable_domain")
        ctx.check(np.abs(P @ o.x(f) - e).max() < 1e-4, "metastable-equilibrium", lambda: f"{f}: off by {np.abs(P @ o.x(f) - e).max()}")
        ctx.check((P @ o.X.T - o.e[None, :]).max() < 1e-4, "metastable-supersaturated", lambda: f"{f}: {(P @ o.X.T - o.e[None, :]).max()}")
        ctx.check(all((P[:, k] > lo - 1e-6).all() and (P[:, k] < hi + 1e-6).all() for k, (lo, hi) in enumerate(o.b)), "metastable-limits",
                  lambda: f"{f}: {P.min(axis=0)} {P.max(axis=0)} limits {o.b}")
        for _ in range(2):
            d = np.array([rng.gauss(0, 1) for _ in range(n)])
            d /= np.linalg.norm(d)
            s = o.support(f, e, d)
            if s is None:  # empty only by rounding
                r = linprog(-d, **o.poly(f, e, 1e-9))
                s = -r.fun if r.status == 0 else None
            if s is not None:
                ctx.count("support")
                ctx.check(abs(s - (P @ d).max()) < 5e-3 * (1 + abs(s)), "metastable-incomplete", lambda: f"{f}: extends to {(P @ d).max()} along {d}, should reach {s}")
    # --- scores of reactions
    name = rng.choice(["sum", "max", "mean"])
    agg = {"sum": sum, "max": max, "mean": lambda v: sum(v) / len(v)}[name]
    calc = ChempotDistanceCalculator(c, name) if rng.random() < 0.5 else ChempotDistanceCalculator.from_entries(list(ents), name, **kw)
    if rng.random() < 0.15:
        calc, agg = ChempotDistanceCalculator(c, min, name="other"), min
    rxns = []
    for _ in range(4):
        k = rng.randint(2, min(5, len(raw)))
        es = rng.sample(raw, k)
        co = [rng.choice([1.0, 2.0, 0.5]) for _ in es]
        nr = rng.randint(1, k - 1)
        co = [-v if i < nr else v for i, v in enumerate(co)]
        R = ComputedReaction(es, co, data={"x": 1}) if not grand else OpenComputedReaction(es, co, {gen.El("O"): mu}, data={"x": 1})
        rxns.append((R, es, co))
    vals = []
    for R, es, co in rxns:
        side = [[], []]
        for e, v in zip(es, co):
            if grand and e.composition.reduced_formula == "O2":
                continue
            side[v > 0].append(e.to_grand_entry({gen.El("O"): mu}) if grand else e)
        pairs = list(itertools.product(*side)) + list(itertools.combinations(side[1], 2))
        if not pairs:
            vals.append(None)
            continue
        fr = ChemicalPotentialDiagram(list(ents), **kw)

        def pd(a):
            f = a.composition.reduced_formula
            return points(f), fr.get_offset(a)

        ref = []
        for a, b in pairs:
            (P, u), (Q, v) = pd(a), pd(b)
            ref.append(brute(P, Q) + u + v)
        vals.append(agg(ref))
        got = calc.calculate(R)
        ctx.count("scores_open" if grand else "scores")
        ctx.check(abs(got - vals[-1]) < 2e-5, "score", lambda: f"{R}: {name} {got}, expected {vals[-1]} from {ref}")
        dec = calc.decorate(R)
        ctx.check(dec.data == {"x": 1, calc.name: got} and R.data == {"x": 1} and rs.ident(dec) == rs.ident(R), "decorate", lambda: f"{dec.data} {R.data}")
    ok = [R for (R, _, _), v in zip(rxns, vals) if v is not None]
    if ok:
        many, decs = calc.calculate_many(ok), calc.decorate_many(ok)
        ctx.check(len(many) == len(ok) and all(abs(m - v) < 2e-5 for m, v in zip(many, [v for v in vals if v is not None])), "many", lambda: f"{many} {vals}")
        ctx.check([d.data[calc.name] for d in decs] == list(many) and all(rs.ident(a) == rs.ident(b) for a, b in zip(decs, ok)), "decorate-many", "")
    if rng.random() < 0.05:
        try:
            ChempotDistanceCalculator(c, "median")
            ctx.fail("unknown-function", "an unknown aggregation name was accepted")
        except ValueError:
            pass
    ctx.sample(dict(domains={k: len(v) for k, v in dom.items()}, distances={f"{a}|{b}": round(v, 5) for (a, b), v in known.items()}, grand=mu))
