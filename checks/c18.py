"""C18: costs, Pareto fronts, tables and decoration against their definitions."""
import copy
import math
from collections import Counter

import numpy as np
import pandas as pd

from checks import c09
from rnv import gen, rs
from rxn_network.core import Composition
from rxn_network.costs.calculators import PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.costs.pareto import get_pareto_front, is_pareto_efficient
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.network.network import ReactionNetwork, get_edge_weight
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C18"
RAY = "none"
CASES = {"quick": 1200, "thorough": 40000}
CHUNK = 8
RULE = ("random cost functions on random decorated reaction sets (closed and open, polymorphs, ties, duplicates), random tables with ties for Pareto fronts, histories of "
        "table requests and edits; distinct by (reactions, cost function, table)")
TECHNIQUE = ("runtime monitoring against independent formulas: every cost, table cell, Pareto mask and decorated reaction returned by the real code is recomputed from raw "
             "energies and definitions, with metamorphic monotonicity checks and table-edit histories")
NEED = ["oracle_decisions", "cost", "monotone", "extreme", "missing_param", "table", "table_again", "open", "edge_cost", "pareto", "pareto_duplicates", "pareto_maximize",
        "pareto_table", "decorate", "separable", "e_hull", "theoretical", "added", "uncertainty", "cost_ties", "weighted"]
ASSUMPTIONS = ["tables: extra columns are those of the first reaction's data; with a target and the separability column every reaction forms the target once",
               "Pareto metrics are numbers in every row"]
NONMETALS = set("H C N O F P S Cl Br Se I Si B".split())


def E0(e, mu, el):
    f = e.composition.reduced_formula
    r = e.energy_per_atom * Composition(f).num_atoms
    if el and f != gen.el_formula(el):
        r -= mu * Composition(f)[el]
    return r


def energies(rx, el=None, mu=0.0):
    """(energy per atom, uncertainty per atom) from the definition"""
    tot = at = var = 0.0
    for e, c in zip(rx.entries, rx.coefficients):
        comp = Composition(e.composition.reduced_formula)
        tot += c * E0(e, mu, el)
        if c > 0:
            at += c * sum(v for k, v in comp.items() if str(k) != el)
        u = getattr(e, "correction_uncertainty_per_atom", 0.0)
        var += (c * (0 if u is None or math.isnan(u) else u) * comp.num_atoms) ** 2
    return tot, at, math.sqrt(var)


def front(P):
    P = [tuple(p) for p in P]
    return [not any(all(a <= b for a, b in zip(q, p)) and q != p for q in P) for p in P]


def softplus(x, T):
    k = math.log(273 / T) + x
    return k + math.log1p(math.exp(-k)) if k > 0 else math.log1p(math.exp(k))


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def case(ctx):
    rng = ctx.rng
    (pareto if rng.random() < 0.5 else tables)(ctx, rng)


def pareto(ctx, rng):
    n, k = rng.choice([0, 1, 2, 5, 12, 40]), rng.choice([1, 2, 2, 3, 3, 4])
    style = rng.choice(["grid", "grid", "float", "antichain", "chain"])
    if style == "grid":
        P = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(n)]
    elif style == "float":
        P = [[rng.uniform(-1, 1) for _ in range(k)] for _ in range(n)]
    elif style == "antichain":
        P = [[i] + [-i] * (k - 1) for i in range(n)]
    else:
        P = [[i // 2] * k for i in range(n)]
    if n and rng.random() < 0.4:
        P += [list(rng.choice(P)) for _ in range(3)]
    rng.shuffle(P)
    n = len(P)
    dt = rng.choice([float, float, int]) if style == "grid" else float
    names = [f"m{j}" for j in range(k)]
    df = pd.DataFrame(np.array(P, dtype=dt).reshape(n, k), columns=names)
    df["label"] = [f"r{i}" for i in range(n)]
    if rng.random() < 0.4:  # mixed column types, other index
        df[names[-1]] = df[names[-1]].astype(float)
        df.index = rng.sample(range(10 * n + 10), n)
    use = rng.sample(names, rng.randint(1, k))
    mx = rng.random() < 0.4
    before = df.copy()
    Q = [[p[names.index(u)] for u in use] for p in P]
    want = front([[-v for v in q] for q in Q] if mx else Q)
    ctx.note(style, use, mx, P)
    got = get_pareto_front(df, metrics=tuple(use), maximize=True) if mx else get_pareto_front(df, tuple(use))
    ctx.count("pareto")
    ctx.count("pareto_maximize", mx)
    ctx.count("pareto_duplicates", len({tuple(q) for q, w in zip(Q, want) if w}) < sum(want))
    exp = [x for x, w in zip(df["label"], want) if w]
    ctx.check(sorted(got["label"]) == sorted(exp), "front", lambda: f"metrics {use} maximize={mx}: kept {sorted(got['label'])}, non-dominated {sorted(exp)} of {P}")
    ctx.check(df.equals(before), "front-changed-input", "")
    ctx.check(got.equals(df.loc[got.index]) and list(got.columns) == list(df.columns), "front-rows", "rows changed")
    if n:
        A = np.array(Q, dtype=float)
        m = is_pareto_efficient(A.copy(), return_mask=True)
        i = is_pareto_efficient(A.copy(), return_mask=False)
        w = front(Q)
        ctx.check(list(map(bool, m)) == w, "mask", lambda: f"{P}: {m}")
        ctx.check(sorted(int(x) for x in i) == [j for j, x in enumerate(w) if x], "indices", lambda: f"{P}: {i}")
    ctx.sig(P, use, mx)


def tables(ctx, rng):
    open_case = rng.random() < 0.35
    els = gen.elements(rng, rng.choice([2, 3, 3, 4]))
    if open_case and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_comp=rng.randint(2, 6), els=els, poly=0.3, unc=True, data=True, nist=0.2, interp=0.15, mx=3)
    with_hull = rng.random() < 0.4
    es = GibbsEntrySet(ents, calculate_e_above_hulls=with_hull)
    ents = list(es.entries_list)
    el, mu = ("O", round(rng.uniform(-2, 0), 3)) if open_case else (None, 0.0)
    if open_case:
        ctx.count("open")
    target = rng.choice(ents)
    sep = rng.random() < 0.4
    nice = rng.random() < 0.3
    rx = []
    keys = [f"p{j}" for j in range(rng.randint(0, 3))]
    pool = c09.brute(ents[:8], 2, []) if nice else None
    for i in range(rng.randint(1, 14)):
        if pool:
            a, b, w = rng.choice(pool)
            sub, co = list(a) + list(b), [float(v) for v in w]
        else:
            sub = rng.sample(ents, rng.randint(2, min(5, len(ents))))
            if sep:
                sub = [e for e in sub if e.composition.reduced_formula != target.composition.reduced_formula] + [target]
                if len(sub) < 2:
                    continue
            sub = list({e.composition.reduced_formula: e for e in sub}.values())  # (a reaction has each composition once, see C03)
            if len(sub) < 2:
                continue
            nr = rng.randint(1, len(sub) - 1)
            co = [(-1 if j < nr else 1) * rng.choice([1.0, 2.0, 0.5, rng.uniform(0.1, 3)]) for j in range(len(sub))]
        if open_case and not any(c > 0 and any(str(x) != "O" for x in e.composition.elements) for e, c in zip(sub, co)):
            continue
        d = {k: rng.choice([0.0, 1.0, round(rng.uniform(-2, 2), 3)]) for k in keys}
        if rng.random() < 0.5:
            d["num_constraints"] = 1
        rx.append(ComputedReaction(sub, co, data=d))
    if not rx:
        return
    if rng.random() < 0.3:
        rx.append(rng.choice(rx))
    params = rng.sample(["energy_per_atom", "energy", *keys], rng.randint(1, 1 + len(keys)))
    scale = rng.choice([1.0, 1.0, 10.0, 400.0])
    ctx.count("extreme", scale > 100)
    weights = [rng.choice([0.0, 0.45, 1.0, rng.uniform(-1, 1)]) * scale for _ in params]
    Tc = rng.choice([300, 273, 1000, rng.uniform(1, 3000)])
    kw = dict(open_elem=el, chempot=mu) if open_case else {}
    S = ReactionSet.from_rxns(rx, entries=ents, **kw)
    objs = rs.to_open(rng, rx, "O", mu) if open_case else rx
    cls = OpenComputedReaction if open_case else ComputedReaction
    default = rng.random() < 0.15
    cf = Softplus() if default else Softplus(temp=Tc, params=list(params), weights=list(weights))
    if default:
        params, weights, Tc = ["energy_per_atom"], [1.0], 300
    ctx.note("params", params, weights, Tc, "open", el, mu, [str(r) for r in objs])
    ctx.sig([rs.ident(r) for r in objs], params, weights, Tc)

    def value(r, p):
        if p in (r.data or {}):
            return r.data[p]
        e, at, _ = energies(r, el, mu)
        return e if p == "energy" else e / at

    def total(r):
        return sum(w * value(r, p) for w, p in zip(weights, params))

    stored = list(S.get_rxns())
    for r in objs + stored:
        x = total(r)
        c = cf.evaluate(r)
        ref = softplus(x, Tc)
        ctx.count("cost")
        ctx.check(close(c, ref, 1e-7 * (1 + abs(x))), "cost", lambda: f"{r} {r.data} {params} {weights} T={Tc}: {c}, expected {ref}")
        ctx.check(c > 0 or x < -600, "cost-positive", lambda: f"{r}: cost {c} at weighted sum {x}")
        ctx.check(math.isfinite(c), "cost-finite", lambda: f"{r}: cost {c} at weighted sum {x}")
        if rng.random() < 0.3:
            w = WeightedSum(params=list(params), weights=list(weights)).evaluate(r)
            ctx.count("weighted")
            ctx.check(abs(w - x) < 1e-7 * (1 + abs(x)), "weighted-sum", f"{w} {x}")
    r0 = rng.choice(objs)
    for j, p in enumerate(params):
        if p in keys:
            up = r0.copy()
            up.data = {**r0.data, p: r0.data[p] + rng.choice([1e-6, 0.1, 5.0])}
            a, b = cf.evaluate(r0), cf.evaluate(up)
            ctx.count("monotone")
            ctx.check((b >= a) if weights[j] >= 0 else (b <= a), "monotone", lambda: f"{p} weight {weights[j]}: {a} -> {b}")
    hot = Softplus(temp=Tc * 2, params=list(params), weights=list(weights))
    ctx.check(hot.evaluate(r0) <= cf.evaluate(r0), "hotter-costs-more", "")
    try:
        Softplus(params=["energy_per_atom", "absent"], weights=[1, 1]).evaluate(r0)
        ctx.fail("missing-parameter", "a missing parameter was ignored")
    except ValueError:
        ctx.count("missing_param")
    costs = S.calculate_costs(cf)
    ctx.check(len(costs) == len(stored) and all(close(a, cf.evaluate(r), 1e-9) for a, r in zip(costs, stored)), "set-costs", lambda: f"{costs}")
    # --- tables
    tgt = rng.choice([None, target.composition.reduced_formula, Composition(target.composition.formula)])
    tf = target.composition.reduced_formula
    once = all(sum(e.composition.reduced_formula == tf for e in r.entries) == 1 and any(c > 0 and e.composition.reduced_formula == tf for e, c in zip(r.entries, r.coefficients)) for r in rx)
    sepcol = bool(tgt) and once
    unc = rng.random() < 0.5
    args = dict(cost_function=cf, target=tgt, calculate_uncertainties=unc, calculate_separable=sepcol)
    df = S.to_dataframe(**args)

    def verify(df, tag):
        ctx.count("table")
        ctx.check(len(df) == len(stored) and Counter(rs.ident(r) for r in df["rxn"]) == Counter(rs.ident(r) for r in objs), tag + "-rows", lambda: f"{len(df)} rows for {len(objs)} reactions")
        ctx.check(list(df.index) == list(range(len(df))), tag + "-index", "")
        c = list(df["cost"])
        ctx.check(all(a <= b for a, b in zip(c, c[1:])), tag + "-sorted", f"{c}")
        ctx.count("cost_ties", len(set(c)) < len(c))
        first = stored[0]
        cols = {"rxn", "energy", "cost", "max_num_precursor_elems"} | {k for k in first.data if k != "num_constraints"}
        if unc:
            cols.add("dE")
        if tgt:
            cols.add("added_elems")
            if sepcol:
                cols.add("separable")
        opt = {"max_e_hull_reactants", "max_e_hull_products", "num_theoretical_reactants", "num_theoretical_products"}
        if with_hull:
            cols |= {"max_e_hull_reactants", "max_e_hull_products"}
        ctx.check(set(df.columns) - opt == cols - opt and (not with_hull or cols <= set(df.columns)), tag + "-columns", lambda: f"{sorted(df.columns)} expected {sorted(cols)}")
        if not set(df.columns) >= cols:
            return
        for _, row in df.iterrows():
            r = row["rxn"]
            e, at, u = energies(r, el, mu)
            ctx.check(type(r) is cls, tag + "-class", "")
            ctx.check(abs(row["energy"] - e / at) < 1e-8 * (1 + abs(e)), tag + "-energy", lambda: f"{r}: {row['energy']} expected {e / at}")
            ctx.check(close(row["cost"], cf.evaluate(r), 1e-9), tag + "-cost", lambda: f"{r}: {row['cost']} vs {cf.evaluate(r)}")
            for k in keys:
                if k in df.columns:
                    ctx.check(row[k] == r.data[k], tag + "-data", lambda: f"{r}: {k} {row[k]} {r.data}")
            side = {s: [x for x, c in zip(r.entries, r.coefficients) if c * s > 0] for s in (-1, 1)}
            ctx.check(row["max_num_precursor_elems"] == max(len(x.composition.elements) for x in side[-1]), tag + "-precursor-elements", f"{r}")
            if unc:
                ctx.count("uncertainty")
                ctx.check(abs(row["dE"] - u / at) < 1e-8 + 1e-8 * u, tag + "-uncertainty", lambda: f"{r}: {row['dE']} expected {u / at}")
            if tgt:
                ctx.count("added")
                els_r = {str(x) for y in r.entries for x in y.composition.elements} | ({"O"} if open_case else set())
                want = "-".join(sorted(els_r - {str(x) for x in Composition(tf).elements}))
                ctx.check(row["added_elems"] == want, tag + "-added", lambda: f"{r}: {row['added_elems']!r}, expected {want!r} for {tf}")
            if sepcol:
                ctx.count("separable")
                te = {str(x) for x in Composition(tf).elements}
                by = [x.composition.reduced_formula for x in side[1] if x.composition.reduced_formula != tf]
                sure = [not ({str(y) for y in Composition(b).elements} & te) for b in by]
                gas = [b in ("CO2", "O2", "N2", "H2O") for b in by]
                if all(s or g or any(str(y) not in NONMETALS for y in Composition(b).elements) for s, b, g in zip(sure, by, gas)):
                    want = all(s or g for s, g in zip(sure, gas))
                    ctx.check(bool(row["separable"]) == want, tag + "-separable", lambda: f"{r}: {row['separable']}, by-products {by}, target {tf}")
            if "max_e_hull_reactants" in df.columns:
                ctx.count("e_hull")
                for s, k in ((-1, "max_e_hull_reactants"), (1, "max_e_hull_products")):
                    ctx.check(abs(row[k] - max((x.data.get("e_above_hull") or 0.0) for x in side[s])) < 1e-9, tag + "-hull", lambda: f"{r}: {k} {row[k]}")
            if "num_theoretical_reactants" in df.columns:
                ctx.count("theoretical")
                for s, k in ((-1, "num_theoretical_reactants"), (1, "num_theoretical_products")):
                    ctx.check(row[k] == sum(not exper(x) for x in side[s]), tag + "-theoretical", lambda: f"{r}: {k} {row[k]}")

    verify(df, "table")
    m = [k for k in ["energy", "cost", *keys] if k in df.columns]
    m = rng.sample(m, rng.randint(1, len(m)))
    g = get_pareto_front(df, metrics=tuple(m))
    w = front(df[m].to_numpy().tolist())
    ctx.count("pareto_table")
    ctx.check(list(g.index) == [i for i, x in zip(df.index, w) if x], "table-front", lambda: f"{m}: {list(g.index)} of {df[m].to_numpy().tolist()}")
    # a later request is not affected by edits of an earlier table, nor by other requests
    if rng.random() < 0.6:
        act = rng.choice(["drop", "column", "value", "other"])
        if act == "drop":
            df.drop(index=0, inplace=True)
        elif act == "column":
            df["mine"] = 1
        elif act == "value":
            df.loc[0, "energy"] = 99.0
        else:
            S.to_dataframe(cost_function=Softplus(temp=77))
        ctx.count("table_again")
        verify(S.to_dataframe(**args), f"again")
    # --- edges of a network
    if not open_case and rng.random() < 0.5:
        rn = ReactionNetwork(S, cf)
        rn.build()
        for obj in rn.graph.edges():
            w = get_edge_weight(obj, cf)
            if isinstance(obj, ComputedReaction):
                ctx.count("edge_cost")
                ctx.check(close(w, softplus(total(obj), Tc), 1e-7 * (1 + abs(total(obj)))), "edge-cost", lambda: f"{obj}: {w}, expected {softplus(total(obj), Tc)}")
            else:
                ctx.check(w == 0, "edge-cost-free", f"{obj}: {w}")
    # --- decoration
    two = [r for r in objs if len(r.reactants) == 2]
    if nice and two and not open_case:
        decorate(ctx, rng, two, objs)


def exper(x):
    n = type(x).__name__
    if "Interpolated" in n:
        return False
    if "Reference" in n:
        return True
    if "theoretical" in x.data:
        return not x.data["theoretical"]
    return bool(x.data.get("icsd_ids"))


def decorate(ctx, rng, two, objs):
    r = rng.choice(two)
    c1, c2 = r.reactants
    same = [q for q in objs if set(q.reactants) <= {c1, c2}]
    try:
        h = InterfaceReactionHull(c1, c2, list(same))
    except Exception:  # (degenerate hull, see C16)
        return
    for cal in (PrimaryCompetitionCalculator(h), SecondaryCompetitionCalculator(h)):
        src = r.copy()
        src.data = rng.choice([None, {}, {"x": [1]}])
        d0 = copy.deepcopy(src.data)
        k0 = rs.ident(src) if src.data is not None else None
        v = cal.calculate(r)
        out = cal.decorate(src)
        ctx.count("decorate")
        ctx.check(out.data == {**(d0 or {}), cal.name: v} and src.data == d0, "decorate", lambda: f"{out.data} from {d0}, source now {src.data}")
        ctx.check(out is not src and rs.ident(out) == (k0 or rs.ident(r)) and abs(out.energy - r.energy) < 1e-12, "decorated-reaction", "")
        many = cal.decorate_many(same)
        vals = cal.calculate_many(same)
        ctx.check([m.data[cal.name] for m in many] == vals and [rs.ident(m) for m in many] == [rs.ident(m) for m in same], "decorate-many", "")
        ctx.check(all(cal.name not in (m.data or {}) for m in same), "decorate-leak", "")
