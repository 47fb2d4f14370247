"""C20: k cheapest pathways against exhaustive enumeration of simple routes."""
import contextlib
import io
import itertools
from collections import Counter

import networkx as nx

from rnv import gen, net, rs
from rxn_network.network.network import ReactionNetwork

ID = "C20"
RAY = "none"
CASES = {"quick": 700, "thorough": 20000}
CHUNK = 5
RULE = ("random networks with cycles, parallel reactions, ties, zero costs and unreachable targets; random precursors, targets and k; repeated searches; distinct by "
        "(reactions, precursors, target, k)")
TECHNIQUE = ("runtime monitoring: every pathway returned by the real search is checked step by step against the reference graph, and the list of costs against an exhaustive "
             "enumeration (independent algorithm) of all simple routes; the graph is compared before and after")
NEED = ["oracle_decisions", "paths", "found_all", "truncated", "unreachable", "parallel_on_route", "long_route", "repeated", "ties", "several_targets", "many_routes", "open",
        "precursor_needed_later", "alternatives"]
ASSUMPTIONS = ["a route is a sequence of groups of phases; where several reactions join the same two groups, the cheapest one is taken",
               "precursors and target are given as entries of the network"]
LIMIT = 30000


def weights(objs, cf):
    w = {}
    for r in objs:
        a, b = net.sides(r)
        w.setdefault((("Reactants", a), ("Products", b)), []).append(float(cf.evaluate(r)))
    return w


def case(ctx):
    rng = ctx.rng
    open_case = rng.random() < 0.15
    mu = round(rng.uniform(-2, 0), 2) if open_case else 0.0
    ents, rxns = net.random_reactions(rng, rng.randint(3, 9), rng.choice([2, 6, 12, 20, 30]), open_case, poly=0.15)
    if not rxns:
        return
    ctx.count("open", open_case)
    cf = net.cost_function(rng)
    S = net.make_set(rng, ents, rxns, open_case, mu)
    objs = rs.to_open(rng, rxns, "O", mu) if open_case else rxns
    rn = ReactionNetwork(S, cf)
    rn.build()
    used = list(S.entries)
    for rep in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.8:  # precursors that can do something
            r = rng.choice(objs)
            pre = list({gen.uid(e): e for e in [*r.reactant_entries, *rng.sample(used, min(len(used), rng.choice([0, 0, 1, 2])))]}.values())
            pre = [next(x for x in used if gen.uid(x) == gen.uid(e)) for e in pre]
        else:
            pre = rng.sample(used, min(len(used), rng.choice([1, 2, 3])))
        targets = rng.sample(used, min(len(used), rng.choice([1, 1, 1, 2, 3])))
        if len(targets) > 1:
            ctx.count("several_targets")
        k = rng.choice([1, 2, 3, 5, 15, 40])
        rn.set_precursors(pre)
        ctx.note("precursors", [gen.desc(e) for e in pre], "targets", [gen.desc(e) for e in targets], "k", k, [(str(r), round(float(cf.evaluate(r)), 5)) for r in objs])
        P = {gen.uid(e) for e in pre}
        W = weights(objs, cf)
        refs = []
        for t in targets:
            refs.append(reference(objs, W, P, gen.uid(t), k))
        if any(x is None for x in refs):
            ctx.count("too_many_routes")
            return
        before = net.observed(rn.graph)[1]
        with contextlib.redirect_stdout(io.StringIO()):
            got = list(rn.find_pathways(targets, k))
        _, E1 = net.model(objs, P, gen.uid(targets[-1]))
        ctx.check(net.observed(rn.graph)[1] == E1, "graph-changed", "the search changed the network")
        pos = 0
        for t, (all_costs, total) in zip(targets, refs):
            want = all_costs[:k]
            mine = got[pos:pos + len(want)]
            pos += len(want)
            verify(ctx, mine, want, objs, W, P, gen.uid(t), k)
            ctx.count("found_all" if total <= k else "truncated")
            ctx.count("many_routes", total > 20)
            if not total:
                ctx.count("unreachable")
            if len(set(round(c, 9) for c in want)) < len(want):
                ctx.count("ties")
            if total > 1:
                ctx.count("alternatives")
        ctx.check(len(got) == pos, "number", lambda: f"{len(got)} pathways for {len(targets)} targets, expected {[len(a[:k]) for a, _ in refs]}")
        if rng.random() < 0.4:
            ctx.count("repeated")
            if rng.random() < 0.5:  # other searches in between
                with contextlib.redirect_stdout(io.StringIO()):
                    rn.find_pathways([rng.choice(used)], rng.choice([1, 4]))
            with contextlib.redirect_stdout(io.StringIO()):
                again = list(rn.find_pathways(targets, k))
            ctx.check([round(p.total_cost, 8) for p in again] == [round(p.total_cost, 8) for p in got], "repeat", "a repeated search gave other costs")
        ctx.sig(sorted(rs.ident(r) for r in objs), sorted(P), [gen.uid(t) for t in targets], k)
        ctx.sample(dict(k=k, routes=[n for _, n in refs], found=len(got), costs=[round(p.total_cost, 4) for p in got][:5], first=[str(r) for r in got[0].reactions] if got else None))


def reference(objs, W, P, t, k):
    """(sorted costs of the k cheapest simple routes, number of routes) by enumeration; None if there are too many"""
    nodes, edges = net.model(objs, P, t)
    g = nx.DiGraph()
    g.add_nodes_from(nodes)
    for a, b, _ in edges:
        g.add_edge(a, b, w=min(W[a, b]) if (a, b) in W else 0.0)
    s, d = ("Precursors", frozenset(P)), ("Target", frozenset([t]))
    costs = []
    for i, p in enumerate(nx.all_simple_paths(g, s, d)):
        if i > LIMIT:
            return None
        costs.append(sum(g[a][b]["w"] for a, b in zip(p, p[1:])))
    return sorted(costs), len(costs)


def verify(ctx, mine, want, objs, W, P, t, k):
    have = Counter(rs.ident(r) for r in objs)
    tot = []
    seen = set()
    for p in mine:
        ctx.count("paths")
        R = list(p.reactions)
        ids = tuple(rs.ident(r) for r in R)
        ctx.check(ids not in seen, "distinct", lambda: f"returned twice: {p}")
        seen.add(ids)
        ctx.check(len(R) >= 1 and all(i in have for i in ids), "foreign-reaction", lambda: f"{p}")
        sd = [net.sides(r) for r in R]
        ctx.check(sd[0][0] <= P, "start", lambda: f"{p} does not start from {sorted(P)}")
        ctx.check(t in sd[-1][1], "end", lambda: f"{p} does not end at {t}")
        for (_, b), (a, _) in zip(sd, sd[1:]):
            ctx.check(a == b or (a <= b | P and not a <= P), "step", lambda: f"{p}: {sorted(a)} does not follow from {sorted(b)} and {sorted(P)}")
            ctx.count("precursor_needed_later", bool(a - b))
        nodes = [n for a, b in sd for n in (("R", a), ("P", b))]
        ctx.check(len(set(nodes)) == len(nodes), "loop", lambda: f"{p} passes a group of phases twice")
        ctx.check(len(p.costs) == len(R), "costs-length", f"{p}")
        for c, (a, b) in zip(p.costs, sd):
            w = W[("Reactants", a), ("Products", b)]
            ctx.check(abs(c - min(w)) < 1e-6, "cheapest-parallel", lambda: f"{p}: step costs {c}, reactions available at {w}")
            ctx.count("parallel_on_route", len(w) > 1)
        ctx.check(abs(p.total_cost - sum(p.costs)) < 1e-9, "total", "")
        ctx.count("long_route", len(R) > 2)
        tot.append(p.total_cost)
    ctx.check(all(a <= b + 1e-9 for a, b in itertools.pairwise(tot)), "sorted", lambda: f"{tot}")
    ctx.check(len(tot) == len(want) and all(abs(a - b) < 1e-6 for a, b in zip(tot, want)), "k-cheapest", lambda: f"costs {[round(x, 6) for x in tot]}, the {k} cheapest are {[round(x, 6) for x in want]}")
