"""C17: the competition / chemical-potential-distance job against direct scoring of every reaction."""
from collections import Counter

import numpy as np

from checks import c09, c16
from rnv import fakeray, gen, rs
from rxn_network.core import Composition
from rxn_network.costs.calculators import ChempotDistanceCalculator
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.jobs.core import CalculateCompetitionMaker
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C17"
CASES = {"quick": 300, "thorough": 8000}
CHUNK = 4
RULE = ("all balanced reactions of a random entry set, split over several reaction sets in random order, scored by the job for a random target under random "
        "chunk sizes, memory limits, CPU counts and task orders; non-trivial if some target reaction has a competitor; distinct by (reactions, target, settings)")
TECHNIQUE = ("runtime monitoring: the job runs on the real code under a simulated Ray scheduler and every reaction in its output is compared with scores computed "
             "one by one from plain lists of reactions (lower envelope and recursion of C16, direct chemical potential diagrams)")
NEED = ["oracle_decisions", "two_precursors", "one_precursor", "open", "open_precursor_only", "several_sets", "several_chunks", "memory_limited",
        "distances", "competitors", "c2_reference", "neutral_target_open"]
ASSUMPTIONS = ["memory is enough for at least one task at a time", "reactions have at most two precursors besides the open phase (the job refuses others)",
               "a reaction of a single precursor is scored against the other reactions of that precursor and against not reacting, rounded to 4 digits, as in the code"]


def direct(rx, pool, open_f):
    """(C1, C2, number of competitors, tolerance) of one reaction, from a plain list of all reactions given."""
    pre = sorted({e.composition.reduced_formula for e in rx.reactant_entries} - {open_f})
    ok = {*pre, open_f}
    comp = [r for r in pool if {e.composition.reduced_formula for e in r.reactant_entries} <= ok]
    E = float(rx.energy_per_atom)
    if len(pre) == 1:
        others = [float(r.energy_per_atom) for r in comp if not same(r, rx)] + [0.0]
        return pre, E - min(others), max(0.0, E - min(others)), comp, 6e-5
    c1, c2 = Composition(pre[0]), Composition(pre[1])
    pts = [(round(c16.coordinate(r, c1, c2), 12), float(r.energy_per_atom)) for r in comp]
    full = pts + [(0.0, 0.0), (1.0, 0.0)]
    x = round(c16.coordinate(rx, c1, c2), 12)
    C1 = E - min(y for u, y in full if abs(u - x) > 1e-11)
    C2 = None
    fr = sorted({u for u, _ in full})
    env = c16.envelope(full)
    clear = all(b - a > 1e-4 for a, b in zip(fr, fr[1:])) and all(c16.depth(env, i) > 1e-7 for i in range(1, len(env) - 1)) \
        and all(abs(p[1]) < 1e-12 or p[1] < -1e-7 for p in (env[0], env[-1]))
    for u, y in full:
        if y - c16.at(env, u) < 1e-7 and (u, y) not in env and not any(abs(u - q[0]) < 1e-12 and abs(y - q[1]) < 1e-12 for q in env):
            clear = False
    if clear and 1e-6 < x < 1 - 1e-6:
        yx = c16.at(env, x)
        C2 = -(c16.average_release(tuple(c16.side(env, 0, 1, x, yx)))[0] + c16.average_release(tuple(c16.side(env, 1, 0, x, yx)))[0])
    return pre, C1, C2, comp, 1e-7


def same(a, b):
    ka, kb = rs.ident(a), rs.ident(b)
    return ka == kb or (a == b)


def case(ctx):
    rng = ctx.rng
    open_case = rng.random() < 0.45
    els = gen.elements(rng, rng.choice([2, 3, 3, 3]))
    if open_case and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, len(els), rng.randint(3, 6), els=els, poly=0.15, el_poly=0.05, mx=4, data=True)
    es = GibbsEntrySet(ents)
    ents = list(es.entries_list)[:11]
    es = GibbsEntrySet(ents)
    have = {str(x) for e in ents for x in e.composition.elements}
    if any(gen.el_formula(x) not in {e.composition.reduced_formula for e in ents} for x in have) or len(have) < 2:
        return
    open_f = "O2" if open_case else None
    oe = [e for e in ents if e.composition.reduced_formula == open_f][:1]
    rest = [e for e in ents if e.composition.reduced_formula != open_f]
    mu = round(rng.choice([0.0, rng.uniform(-3, 0)]), 3)
    cols = c09.brute(rest if open_case else ents, 2, oe if open_case else [])
    if open_case:
        cols += c09.brute(rest, 2, [])
    rng.shuffle(cols)
    cols = cols[:rng.choice([3, 10, 40, 200])]
    if not cols:
        return
    rx = []
    for i, (a, b, w) in enumerate(cols):
        c = np.array([float(v) for v in w]) * rng.choice([1.0, 2.0, 0.5])
        f = {e.composition.reduced_formula for e, v in zip((*a, *b), c) if v < 0}
        if open_case and not f - {open_f}:
            continue
        rx.append(ComputedReaction(list(a) + list(b), c, data=rng.choice([{}, {"tag": i}, {"num_constraints": 1}])))
    if rng.random() < 0.2:
        rx.append(rng.choice(rx))  # the same reaction found by two enumerators
    prods = sorted({e.composition.reduced_formula for r in rx for e in r.product_entries} - {open_f})
    if not prods:
        return
    target = rng.choice(prods)
    if open_case and rng.random() < 0.6:
        # prefer targets none of whose reactions consumes the open phase
        neutral = [p for p in prods if not any(open_f in {e.composition.reduced_formula for e in r.reactant_entries} for r in rx
                                               if p in {e.composition.reduced_formula for e in r.product_entries})]
        if neutral:
            target = rng.choice(neutral)
            ctx.count("neutral_target_open")
    nsets = rng.choice([1, 1, 2, 3])
    parts = [[] for _ in range(nsets)]
    for r in rx:
        rng.choice(parts).append(r)
    parts = [p for p in parts if p] or [rx]
    if len(parts) > 1:
        ctx.count("several_sets")
    kw = {}
    if rng.random() < 0.5:
        kw["filter_duplicates"] = False
    rx_in = [r for p in parts for r in p]
    sets = [ReactionSet.from_rxns(p, entries=ents) for p in parts]
    pool = rs.to_open(rng, rx_in, "O", mu) if open_case else rx_in
    cls = OpenComputedReaction if open_case else ComputedReaction
    targets = [r for r in pool if target in {e.composition.reduced_formula for e in r.product_entries}]
    if not targets:
        return
    dist = rng.random() < 0.35 and len(have) >= (3 if open_case else 2)
    # (a chemical potential diagram needs two elements besides the open one)
    dist = dist and all(len({str(x) for e in t.entries for x in e.composition.elements} - ({"O"} if open_case else set())) > 1 for t in targets)
    comp_on = not dist or rng.random() < 0.5
    chunk = rng.choice([1, 2, 3, 7, 100])
    mem = 8e9
    ncpu = rng.choice([1, 2, 4, 16])
    kept = [r for r in pool if {e.composition.reduced_formula for e in r.reactant_entries} <= {open_f} | {e.composition.reduced_formula for t in targets for e in t.reactant_entries}]
    if rng.random() < 0.3:
        mem = 250 * max(len(kept), 1) * rng.choice([1.0, 1.5, 2, 3.7])
        if ncpu * 250 * len(kept) > mem:
            ctx.count("memory_limited")
    st = fakeray.S.configure(rng.randrange(2**32), num_cpus=ncpu, order=rng.choice(["random", "fifo", "lifo"]), crash_prob=rng.choice([0, 0, 0.2]),
                             eager=rng.choice([0, 0.5, 1]), memory=mem)
    cpd_kwargs = rng.choice([{}, {"mu_func": "max"}, {"mu_func": "mean"}, {"mu_func": "sum"}])
    ctx.note(T, els, "target", target, "open", open_f, mu, "chunk", chunk, "cpus", ncpu, "mem", mem, [str(r) for r in rx_in][:30])
    maker = CalculateCompetitionMaker(open_elem="O" if open_case else None, chempot=mu if open_case else 0.0, calculate_competition=comp_on,
                                      calculate_chempot_distances=dist, chunk_size=chunk, cpd_kwargs=cpd_kwargs)
    try:
        refs = [direct(t, pool, open_f) for t in targets] if comp_on else [None] * len(targets)
    except (ZeroDivisionError, ValueError):
        ctx.count("harness_skipped")
        return
    if any(r and len(r[0]) == 2 and all(abs(float(q.energy_per_atom)) < 1e-9 for q in r[3]) for r in refs):
        return
    doc = CalculateCompetitionMaker.make.original(maker, sets, es, rng.choice([target, Composition(target).formula.replace(" ", "")]))
    out = list(doc.rxns.get_rxns())
    if st.tasks > 1:
        ctx.count("several_chunks")
    if open_case:
        ctx.count("open")
    ctx.check(all(type(r) is cls for r in out), "class", lambda: f"{Counter(type(r).__name__ for r in out)}")
    ki, ko = Counter(rs.ident(t) for t in targets), Counter(rs.ident(t) for t in out)
    ctx.check(ki == ko, "each-once", lambda: f"{len(out)} returned for {len(targets)} target reactions; missing {list((ki - ko))[:2]}, extra {list((ko - ki))[:2]}")
    ctx.check(doc.target_formula == target and bool(doc.calculate_competition) == comp_on, "document", f"{doc.target_formula}")
    byk = {}
    for r in out:
        byk.setdefault(rs.ident(r), []).append(r)
    calc = {}
    for t, ref in zip(targets, refs):
        got = byk.get(rs.ident(t))
        if not got:
            continue
        for g in got:
            ctx.check(abs(g.energy_per_atom - t.energy_per_atom) < 1e-9, "energy", f"{g}: {g.energy_per_atom} given {t.energy_per_atom}")
            known = {"primary_competition", "secondary_competition", "chempot_distance"}
            # (equal reactions may carry different data)
            ctx.check(any(rs.dev({k: v for k, v in g.data.items() if k not in known}) == rs.dev(dict(u.data)) for u in targets if rs.ident(u) == rs.ident(t)), "data",
                      lambda: f"{g}: data {g.data}, given {t.data}")
            want = ({"primary_competition", "secondary_competition"} if comp_on else set()) | ({"chempot_distance"} if dist else set())
            ctx.check(want <= set(g.data), "missing-score", f"{g}: {g.data}, expected {want}")
            if ref and want <= set(g.data):
                pre, C1, C2, comp, tol = ref
                ctx.count("two_precursors" if len(pre) == 2 else "one_precursor")
                if open_f and len(pre) == 1 and open_f in {e.composition.reduced_formula for e in t.reactant_entries}:
                    ctx.count("open_precursor_only")
                if len(comp) > 1:
                    ctx.count("competitors", len(comp) - 1)
                d1, d2 = g.data["primary_competition"], g.data["secondary_competition"]
                ctx.check(abs(d1 - C1) < tol + 1e-9, "primary", lambda: f"{g} ({open_f}): C1 {d1}, expected {C1}; competitors {[(str(r), round(r.energy_per_atom, 5)) for r in comp]}")
                if C2 is not None:
                    ctx.count("c2_reference")
                    ctx.check(abs(d2 - C2) < tol + 1e-6 * abs(C2), "secondary",
                              lambda: f"{g} ({open_f}): C2 {d2}, expected {C2}; competitors {[(str(r), round(r.energy_per_atom, 5)) for r in comp]}")
                if len(pre) == 2:
                    h = InterfaceReactionHull(Composition(pre[0]), Composition(pre[1]), list(comp))
                    ctx.check(abs(h.get_primary_competition(t) - d1) < 1e-9, "primary-direct", f"{g}")
                    s = h.get_secondary_competition(t)
                    ctx.check(abs(s - d2) < 1e-7 + 1e-6 * abs(s) or C2 is None, "secondary-direct", f"{g}: {d2}, directly {s}")
            if dist and "chempot_distance" in g.data:
                sysm = frozenset(str(x) for e in t.entries for x in e.composition.elements)
                if open_case:
                    sysm |= {"O"}
                if sysm not in calc:
                    sub = [e for e in es.entries if {str(x) for x in e.composition.elements} <= sysm]
                    if open_case:
                        sub = [e.to_grand_entry({gen.El("O"): mu}) for e in sub if {str(x) for x in e.composition.elements} != {"O"}]
                    calc[sysm] = ChempotDistanceCalculator.from_entries(sub, **cpd_kwargs) if len(sysm - {"O"} if open_case else sysm) > 1 else None
                if calc[sysm]:
                    d = calc[sysm].calculate(t)
                    ctx.count("distances")
                    ctx.check(abs(d - g.data["chempot_distance"]) < 2e-5, "distance", lambda: f"{g}: {g.data['chempot_distance']}, directly {d} ({cpd_kwargs})")
    if any(r and len(r[3]) > 1 for r in refs) or dist:
        ctx.sig(sorted(ki), target, chunk, nsets, mu, open_f, dist)
    ctx.sample(dict(target=target, reactions=len(rx_in), scored=len(out), chunk=chunk, cpus=ncpu, open=open_f, example=str(out[0]) if out else None,
                    data=rs.dev(out[0].data) if out else None))
