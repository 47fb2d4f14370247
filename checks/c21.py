"""C21: balanced pathways against a brute-force solution of every combination of reactions."""
import contextlib
import io
import itertools
import json
import logging

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from rnv import fakeray, gen, net, rs
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.network.network import ReactionNetwork
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

ID = "C21"
RAY = "sim"
CASES = {"quick": 260, "thorough": 6000}
CHUNK = 3
RULE = ("random lists of balanced reactions (cycles, polymorphs, scaled duplicates, open element) and net reactions composed from them, and pathways found in enumerated networks with "
        "intermediate reactions; random combination sizes, chunk and batch sizes, worker counts, schedules and reaction orders; distinct by (reactions, net reaction, size)")
TECHNIQUE = ("runtime monitoring: each pathway returned by the real solver is checked for exact balance, positive multiplicities, costs and feasibility (firing steps from the precursors), "
             "and the set of pathways against an independent brute-force solution of all combinations, under random schedules and crashes")
NEED = ["oracle_decisions", "paths", "required", "multi_step", "many_paths", "no_paths", "rescaled", "fewer_reactions_than_size", "one_cpu", "interdependent", "filtered_out", "feasible_recycling",
        "polymorph_pool", "open", "intermediate_mode", "intermediates_added", "reloaded", "scaled_duplicate", "net_supplied", "chunked", "unbalanced_net", "batches", "reused", "matrices", "other_multiplicities"]
ASSUMPTIONS = ["combinations whose multiplicities are not uniquely determined, or almost zero, may or may not be returned",
               "the net reaction itself is not a step", "an open element is available from the environment"]


def prepare(tier):
    from rxn_network.pathways.solver import _balance_path_arrays_cpu

    _balance_path_arrays_cpu(np.array([[[1.0, -1.0]]]), np.array([1.0, -1.0]))  # compile before forking


def vec(r, key=gen.uid):
    out = {}
    for e, c in zip(r.entries, r.coefficients):
        out[key(e)] = out.get(key(e), 0.0) + float(c)
    return out


def close(a, b, tol=1e-6):
    m = max(1.0, max(abs(x) for x in b.values()))
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol * m for k in set(a) | set(b))


def total(parts):
    out = {}
    for m, v in parts:
        for k, c in v.items():
            out[k] = out.get(k, 0) + m * c
    return {k: c for k, c in out.items() if abs(c) > 1e-9}


def brute(classes, target, size):
    """classes: {class: vector}. -> (required: {frozenset of classes: multiplicities})"""
    req = {}
    names = sorted(classes)
    keys = sorted({k for v in classes.values() for k in v} | set(target))
    A = {c: np.array([classes[c].get(k, 0.0) for k in keys]) for c in names}
    b = np.array([target.get(k, 0.0) for k in keys])
    must = np.flatnonzero(b)
    n = 0
    for k in range(1, size + 1):
        for combo in itertools.combinations(names, k):
            M = np.array([A[c] for c in combo]).T
            if not (M[must] != 0).any(axis=1).all():  # cannot balance
                continue
            n += 1
            s = np.linalg.svd(M, compute_uv=False)
            if len(s) < k or s[-1] < 1e-6 * s[0]:
                continue
            x = np.linalg.lstsq(M, b, rcond=None)[0]
            if np.abs(M @ x - b).max() > 1e-8 * max(1, np.abs(b).max()):
                continue
            if x.min() > 1e-4:
                req[frozenset(combo)] = dict(zip(combo, x))
    return req, n


def feasible(rxns, start):
    """can all steps happen, if each needs its reactants as precursors or products of earlier steps?"""
    have, left = set(start), list(rxns)
    while True:
        fire = [r for r in left if {c.reduced_formula for c in r.reactants} <= have]
        if not fire:
            return not left
        for r in fire:
            have |= {c.reduced_formula for c in r.products}
        left = [r for r in left if r not in fire]


def direct(ctx, open_case):
    rng = ctx.rng
    els = gen.elements(rng, rng.choice([2, 3, 3, 4]))
    if open_case and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_comp=rng.randint(3, 7), els=els, poly=rng.choice([0, 0.4]), el_poly=0.1, nist=0.1, interp=0.1, mx=3)
    pool, seen = [], set()
    for _ in range(rng.choice([4, 12, 25])):
        r = rs.random_rxn(rng, ents, balanced=True, kmax=4)
        if r is None:
            continue
        for x in [r] + ([r.reverse()] if rng.random() < 0.3 else []):
            k = rs.scale_class(x)
            if k not in seen:
                seen.add(k)
                pool.append(x)
    if open_case:
        pool = [r for r in pool if any(any(str(x) != "O" for x in e.composition.elements) for e in r.entries)]
    if not pool:
        return None
    size = rng.choice([1, 2, 3, 3, 4])
    pool = pool[: {1: 40, 2: 30, 3: 20, 4: 13}[size]]
    # the net reaction: a positive combination in which intermediates cancel
    target = None
    for _ in range(20):
        k = rng.randint(1, size)
        r = rng.choice(pool)
        parts = [(rng.choice([1, 0.5, 2, 3]), vec(r))]
        for _ in range(k - 1):
            t = total(parts)
            cand = [x for x in pool if any(t.get(i, 0) * c < 0 for i, c in vec(x).items())]
            if not cand or rng.random() < 0.15:
                cand = pool
            x = vec(rng.choice(cand))
            shared = [i for i in x if t.get(i, 0) * x[i] < 0]
            m = None
            if shared:
                i = rng.choice(shared)
                m = -t[i] / x[i]
            parts.append((m or rng.choice([1, 0.5, 2]), x))
        t = total(parts)
        if any(c < 0 for c in t.values()) and any(c > 0 for c in t.values()) and (k > 1 or rng.random() < 0.3):
            target = t
            break
    if target is None:
        return None
    by = {gen.uid(e): e for e in ents}
    f = [by[k].composition.reduced_formula for k in target]
    if len(set(f)) != len(f):  # polymorphic transition
        return None
    return ents, pool, target, size, by


def costs_of(rng, pool):
    out = {}
    for r in pool:
        out.setdefault(rs.scale_class(r), []).append(round(rng.uniform(0, 2), 3))
    return out


def case(ctx):
    rng = ctx.rng
    open_case = rng.random() < 0.25
    mu = round(rng.uniform(-2, 0), 2) if open_case else 0.0
    deep = rng.random() < 0.25
    got = network(ctx, open_case, mu) if deep else direct(ctx, open_case)
    if got is None:
        ctx.count("no_problem")
        return
    cf = net.cost_function(rng) if deep else None
    if deep:
        ents, paths, rxns, target, size, by, cf, kw = got
        ctx.count("intermediate_mode")
    else:
        ents, pool, target, size, by = got
        kw = dict(find_intermediate_rxns=False)
        if rng.random() < 0.35:  # reactions may be written for any amounts
            ctx.count("rescaled")
            f = rng.choice([1, 0.01, 0.1, 10, 100, 1000])
            target = {k: c * f for k, c in target.items()}
            pool = [ComputedReaction(r.entries, np.array(r.coefficients) * rng.choice([1, 1, 0.01, 0.1, 10, 100, 1000]), data=r.data) for r in pool]
    ctx.count("open", open_case)
    order = rng.sample(list(target), len(target))
    nents, ncoef = [by[k] for k in order], [target[k] for k in order]
    net_rxn = OpenComputedReaction(nents, ncoef, {gen.El("O"): mu}) if open_case else ComputedReaction(nents, ncoef)
    if not deep:
        if rng.random() < 0.2:
            pool = pool + [net_rxn if not open_case else ComputedReaction(nents, ncoef)]
            ctx.count("net_supplied")
        if rng.random() < 0.3:
            r = rng.choice(pool)
            s = rng.choice([2.0, 0.5, 3.0])
            pool = pool + [ComputedReaction(r.entries, np.array(r.coefficients) * s)]
            ctx.count("scaled_duplicate")
        rng.shuffle(pool)
        rxns = rs.to_open(rng, pool, "O", mu) if open_case else pool
        cost = [round(rng.uniform(0, 2), 3) for _ in rxns]
        left = list(zip(rxns, cost))
        paths = []
        while left:
            n = rng.choice([1, 2, 3])
            part, left = left[:n], left[n:]
            if rng.random() < 0.4:
                part = part + [rng.choice(list(zip(rxns, cost)))]
            paths.append(BasicPathway([r for r, _ in part], [c for _, c in part]))
        rng.shuffle(paths)
        if len({gen.uid(e).split("|", 3)[3] for r in rxns for e in r.entries}) < len({gen.uid(e) for r in rxns for e in r.entries}):
            ctx.count("polymorph_pool")
        C = {}
        for r, c in zip(rxns, cost):
            C.setdefault(rs.scale_class(r), set()).add(c)
    elif len(paths) == 0:
        ctx.count("no_problem")
        return
    else:
        C = {rs.scale_class(r): {float(cf.evaluate(r))} for r in rxns}
    classes = {rs.scale_class(r): vec(r) for r in rxns}
    nclass = rs.scale_class(net_rxn)
    req, tried = brute({k: v for k, v in classes.items() if k != nclass}, target, size)
    ctx.count("combinations_solved", tried)
    eset = list(ents)
    rng.shuffle(eset)
    E = GibbsEntrySet(eset)
    if rng.random() < 0.8:
        E.build_indices()
    P = PathwaySet.from_paths(paths) if not deep else paths
    if rng.random() < 0.3:
        ctx.count("reloaded")
        P, E = json.loads(json.dumps([P, E], cls=MontyEncoder), cls=MontyDecoder)
        net_rxn = json.loads(json.dumps(net_rxn, cls=MontyEncoder), cls=MontyDecoder)
    filt = rng.random() < 0.5
    pre = [e.composition.reduced_formula for e in net_rxn.reactant_entries] + (["O2"] if open_case else [])
    ctx.note("size", size, "net", net_rxn, [str(r) for r in rxns])
    cls0 = {k: v for k, v in classes.items() if k != nclass}
    if len(cls0) < size:
        ctx.count("fewer_reactions_than_size")
    first = None
    for rep in range(rng.choice([1, 1, 2])):
        chunk = rng.choice([1, 3, 20, 100000]) if tried < 600 else rng.choice([40, 500, 100000])
        batch = rng.choice([None, None, 1, 2, 7])
        st = fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 2, 4, 8]), order="random", crash_prob=rng.choice([0, 0, 0.05]), eager=rng.choice([0, 0.3, 1]))
        ctx.count("one_cpu", st.num_cpus == 1)
        solver = PathwaySolver(P, E, cf or net.cost_function(rng), open_elem="O" if open_case else None, chempot=mu, chunk_size=chunk, batch_size=batch)
        args = dict(net_rxn=net_rxn, max_num_combos=size, filter_interdependent=filt, **kw)
        with quiet() as out:
            res = solver.solve(**args)
            if rng.random() < 0.15:
                ctx.count("reused")
                res = solver.solve(**args)
        ctx.count("tasks", st.tasks)
        ctx.count("crashes", st.crashes)
        ctx.count("chunked", chunk < 100)
        ctx.count("batches", batch is not None and st.tasks > 3)
        ids = verify(ctx, res, classes, C, target, size, req, filt, pre, nclass)
        if rep and first is not None:
            ctx.check(ids & set(req) == first & set(req), "repeat", "another schedule gave other pathways")
        first = ids
    if rng.random() < 0.1:
        ctx.count("unbalanced_net")
        bad = ComputedReaction(nents, [ncoef[0] * 1.5] + ncoef[1:])
        try:
            with quiet():
                solver.solve(bad, size, find_intermediate_rxns=False)
            ctx.check(bad.balanced, "unbalanced-net", "an unbalanced net reaction was accepted")
        except ValueError:
            pass
    ctx.sig(sorted(classes), sorted(target.items()), size)
    ctx.sample(dict(reactions=len(classes), size=size, combinations=tried, required=len(req), returned=len(ids), net=str(net_rxn), filtered=filt))


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
            yield o
    finally:
        logging.disable(logging.NOTSET)


def verify(ctx, res, classes, C, target, size, req, filt, pre, nclass):
    ids, avg = set(), []
    plist = list(res)
    ctx.check(len(res) == len(plist), "length", "len() differs from the number of pathways")
    for p in plist:
        ctx.count("paths")
        R, m = list(p.reactions), [float(x) for x in p.coefficients]
        cl = [rs.scale_class(r) for r in R]
        ctx.check(1 <= len(R) <= size and len(m) == len(R) == len(p.costs), "shape", lambda: f"{p}: {m} {p.costs}")
        ctx.check(len(set(cl)) == len(cl), "distinct", lambda: f"{p} has a reaction twice")
        ctx.check(all(c in classes for c in cl), "foreign-reaction", lambda: f"{p} has reactions which were not supplied: {[str(r) for r, c in zip(R, cl) if c not in classes]}")
        ctx.check(all(x > 0 for x in m), "positive", lambda: f"{m}")
        t = total([(x, vec(r)) for x, r in zip(m, R)])
        ctx.check(close(t, target, 2e-5), "balance", lambda: f"{p} multiplicities {m} give {t}, not {target}")
        for c, k, r in zip(p.costs, cl, R):
            ctx.check(any(abs(c - x) < 1e-6 for x in C.get(k, ())), "cost", lambda: f"{r}: cost {c}, expected {C.get(k)}")
        a = sum(x * c for x, c in zip(m, p.costs)) / sum(m)
        ctx.check(abs(float(p.average_cost) - a) < 1e-8, "average", lambda: f"{p.average_cost} {a}")
        avg.append(a)
        summaries(ctx, p, m, R, target)
        key = frozenset(cl)
        if key in ids:
            ctx.check(key not in req, "returned-twice", lambda: f"{p}")
        ids.add(key)
        if key in req and all(c in classes for c in cl):
            want = {c: req[key][c] * abs(classes[c][min(classes[c])]) for c in cl}
            have = {c: x * abs(vec(r)[min(vec(r))]) for c, x, r in zip(cl, m, R)}
            ctx.check(all(abs(want[c] - have[c]) < 1e-4 * max(1, want[c]) for c in cl), "multiplicities", lambda: f"{have} {want}")
        ok = feasible(R, pre)
        if filt:
            ctx.check(ok, "interdependent-kept", lambda: f"{p} cannot start from {pre}")
        comps = [x for f in pre for x in r_comps(f)]
        flag = p.contains_interdependent_rxns(comps)
        ctx.check(bool(flag) == (not ok), "interdependent-flag", lambda: f"{p} from {pre}: flagged {flag}, feasible {ok}")
        ctx.count("interdependent", not ok)
        ctx.count("feasible_recycling", ok and recycles(R))
        ctx.count("multi_step", len(R) > 1)
    for p in plist[:4]:
        same = BalancedPathway(list(p.reactions), [float(x) for x in p.coefficients], [float(x) for x in p.costs], p.balanced)
        ctx.check(p == same and hash(p) == hash(same) and len({p, same}) == 1, "equal-copy", lambda: f"{p} differs from its copy")
        back = json.loads(json.dumps(p, cls=MontyEncoder), cls=MontyDecoder)
        ctx.check(back == p and list(back.coefficients) == list(p.coefficients) and back.balanced == p.balanced, "equal-reloaded", lambda: f"{p}: {p.coefficients} reloaded as {back.coefficients}")
        for i in range(len(p.reactions)):
            ctx.count("other_multiplicities")
            x = [float(c) * (1.5 if i == j else 1) for j, c in enumerate(p.coefficients)]
            ctx.check(BalancedPathway(list(p.reactions), x, list(p.costs)) != p, "equal-multiplicities", lambda: f"{p} with multiplicities {m} equals the same with {x}")
    for p, q in itertools.product(plist[:6], plist[:6]):
        if p is not q:
            same = len(p.reactions) == len(q.reactions) and all(rs.ident(a) == rs.ident(b) for a, b in zip(p.reactions, q.reactions)) and np.allclose(p.costs, q.costs)
            ctx.check((p == q) == same, "equal", lambda: f"{p} == {q} is {p == q}")
            B = BasicPathway(p.reactions, p.costs), BasicPathway([*p.reactions, *q.reactions], [*p.costs, *q.costs])
            ctx.check(B[0] != B[1] and B[0] == BasicPathway(list(p.reactions), list(p.costs)), "equal-prefix", lambda: f"{p} equals a longer pathway")
    ctx.check(all(a <= b + 1e-9 for a, b in itertools.pairwise(avg)), "sorted", lambda: f"{avg}")
    for k in req:
        ctx.count("required")
        if k in ids:
            continue
        if filt and not feasible_classes(k, classes, pre):
            ctx.count("filtered_out")
            continue
        ctx.check(False, "missing", lambda: f"the combination {[show(classes[c]) for c in k]} with multiplicities {list(req[k].values())} was not returned; precursors {pre}, filter {filt}")
    ctx.count("many_paths", len(plist) > 3)
    ctx.count("no_paths", len(plist) == 0)
    return ids


def summaries(ctx, p, m, R, target):
    """the pathway's own account of itself"""
    side = lambda r, s: {c.reduced_formula for c, k in zip(r.compositions, r.coefficients) if k * s > 0}
    left, right = [set().union(*(side(r, s) for r in R)) for s in (-1, 1)]
    view = lambda comps: {c.reduced_formula for c in comps}
    got = [view(x) for x in (p.all_reactants, p.all_products, p.reactants, p.products, p.intermediates, p.compositions)]
    want = [left, right, left - right, right - left, left & right, left | right]
    ctx.check(got == want and len(p.compositions) == len(want[-1]), "phases", lambda: f"{p}: {got} expected {want}")
    ctx.check({gen.uid(e) for e in p.entries} == {gen.uid(e) for r in R for e in r.entries}, "entries", lambda: f"{p}: {p.entries}")
    ctx.check(abs(p.energy - sum(r.energy for r in R)) < 1e-7 * max(1, abs(p.energy)) and abs(p.energy_per_atom - sum(r.energy_per_atom for r in R)) < 1e-8 and abs(p.total_cost - sum(p.costs)) < 1e-9, "energy",
              lambda: f"{p}: {p.energy} {p.energy_per_atom} {p.total_cost}")
    ctx.check(p.is_experimental == all(getattr(e, "is_experimental", False) for r in R for e in r.entries), "is-experimental", lambda: f"{p}")
    if len({u.split("|", 3)[3] for u in (gen.uid(e) for e in p.entries)}) == len(p.entries) == len(p.compositions):  # no polymorphs
        t = {}
        for k, c in target.items():
            t[form(k)] = t.get(form(k), 0) + c
        M, names = np.array(p.get_comp_matrix(), float), [c.reduced_formula for c in p.compositions]
        ctx.count("matrices")
        ctx.check(M.shape == (len(R), len(names)), "matrix", lambda: f"{M.shape}")
        x = dict(zip(names, np.array(m) @ M))
        ctx.check(all(abs(x.get(f, 0) - t.get(f, 0)) < 2e-5 * max(1, *map(abs, t.values())) for f in set(x) | set(t)), "matrix-net", lambda: f"{p}: {x} expected {t}")
        ctx.check(all(np.allclose(p.get_coeff_vector_for_rxn(r), M[i]) for i, r in enumerate(R)), "matrix-rows", lambda: f"{p}: {M}")


def r_comps(f):
    from rxn_network.core import Composition

    return [Composition(f)]


def show(v):
    l = [f"{-c:.4g} {k.split('|')[3]}" for k, c in v.items() if c < 0]
    r = [f"{c:.4g} {k.split('|')[3]}" for k, c in v.items() if c > 0]
    return " + ".join(l) + " -> " + " + ".join(r)


def form(uid):
    from rxn_network.core import Composition

    return Composition(uid.split("|")[3]).reduced_formula


def feasible_classes(k, classes, pre):
    have = set(pre)
    left = [({form(u) for u, c in classes[x].items() if c < 0}, {form(u) for u, c in classes[x].items() if c > 0}) for x in k]
    while left:
        fire = [x for x in left if x[0] <= have]
        if not fire:
            return False
        for x in fire:
            have |= x[1]
            left.remove(x)
    return True


def recycles(R):
    """two steps feed each other"""
    for a, b in itertools.combinations(R, 2):
        if set(a.reactants) & set(b.products) and set(b.reactants) & set(a.products):
            return True
    return False


def network(ctx, open_case, mu):
    """pathways from a real network; the solver looks for reactions between intermediates itself"""
    rng = ctx.rng
    els = gen.elements(rng, 3)
    if open_case and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_comp=rng.randint(4, 7), els=els, poly=rng.choice([0, 0.3]), el_poly=0.05, nist=0.1, interp=0.1, mx=3)
    E = GibbsEntrySet(ents)
    st = fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=2)
    with quiet():
        S = BasicEnumerator().enumerate(E)
        if open_case:
            S = S.add_rxn_set(BasicOpenEnumerator(["O2"]).enumerate(E))
            S = S.set_chempot("O", mu)
        S = S.filter_duplicates()
        if len(S) < 3:
            return None
        cf = net.cost_function(rng)
        from rxn_network.costs.functions import Softplus

        if not isinstance(cf, Softplus) or "w" in getattr(cf, "params", []):
            cf = Softplus(temp=rng.choice([300, 900]))
        rn = ReactionNetwork(S, cf)
        rn.build()
        # a net reaction with a solution: a random combination of reactions
        rx = list(S.get_rxns())
        for _ in range(30):
            a, b = rng.choice(rx), rng.choice(rx)
            t, x = vec(a), vec(b)
            shared = [i for i in x if t.get(i, 0) * x[i] < 0]
            if not shared:
                continue
            i = rng.choice(shared)
            t = total([(1, t), (-t[i] / x[i], x)])
            f = [u.split("|", 3)[3] for u in t]
            if any(c < 0 for c in t.values()) and any(c > 0 for c in t.values()) and len({form(u) for u in t}) == len(t) and sum(c < 0 for c in t.values()) <= 3:
                break
        else:
            return None
        by = {gen.uid(e): e for e in rn.entries}
        if not all(k in by for k in t):
            return None
        targets = [by[k] for k, c in t.items() if c > 0]
        rn.set_precursors([by[k] for k, c in t.items() if c < 0])
        paths = rn.find_pathways(targets, rng.choice([1, 2, 3]))
        rxns, seen = [], set()
        for p in paths:
            for r in p.reactions:
                if rs.scale_class(r) not in seen:
                    seen.add(rs.scale_class(r))
                    rxns.append(r)
        n0 = len(rxns)
        cutoff = rng.choice([0.0, 0.0, -0.1, 0.05])
        mini = rng.random() < 0.6
        basic = rng.random() < (0.4 if mini else 0.8)
        kw = dict(find_intermediate_rxns=True, intermediate_rxn_energy_cutoff=cutoff, use_basic_enumerator=basic, use_minimize_enumerator=mini)
        inter = {gen.uid(e): e for r in rxns for e in r.entries}
        inter.update({gen.uid(e): e for e in targets})
        inter.update({gen.uid(e): e for e in rn.entries if e.is_element})
        I = GibbsEntrySet(list(inter.values()))
        tf = [e.composition.reduced_formula for e in targets]
        found = []
        if basic:
            found.append(BasicEnumerator(targets=tf).enumerate(I))
            if open_case:
                found.append(BasicOpenEnumerator(["O2"], targets=tf).enumerate(I))
        if mini:
            found.append(MinimizeGibbsEnumerator(targets=tf).enumerate(I))
            if open_case:
                found.append(MinimizeGrandPotentialEnumerator(open_elem="O", mu=mu, targets=tf).enumerate(I))
    for s in found:
        for r in s.get_rxns():
            if open_case and not isinstance(r, OpenComputedReaction):
                r = OpenComputedReaction(r.entries, r.coefficients, {gen.El("O"): mu})
            if r.energy_per_atom < cutoff and all(gen.uid(e) in inter for e in r.entries) and rs.scale_class(r) not in seen:
                seen.add(rs.scale_class(r))
                rxns.append(r)
    ctx.count("intermediates_added", len(rxns) - n0)
    size = rng.choice([1, 2, 3])
    lim = {1: 200, 2: 60, 3: 28}[size]
    if len(rxns) > lim:
        size = 2 if len(rxns) <= 60 else 1
    return list(rn.entries), paths, rxns, t, size, by, cf, kw
