"""C19: the network graph against a reference model, over histories of building, setting and reloading."""
import contextlib
import io
import json

from monty.json import MontyDecoder, MontyEncoder

from rnv import gen, net, rs
from rxn_network.network.network import ReactionNetwork, get_edge_weight
from rxn_network.reactions.open import OpenComputedReaction

ID = "C19"
RAY = "none"
CASES = {"quick": 500, "thorough": 15000}
CHUNK = 5
RULE = ("random reaction sets with cycles, parallel reactions, polymorphs, closed and open; random histories of build, rebuild, set precursors, set target, failed "
        "requests, searches and reloads; distinct by (reactions, history)")
TECHNIQUE = ("runtime monitoring: after every step of a random history the nodes, edges and edge costs of the real graph are compared with a reference model built from the "
             "reactions and the current choices alone, and searches with those of a freshly built network")
NEED = ["oracle_decisions", "build", "rebuild", "set_precursors", "set_precursors_again", "set_target_again", "reload_json", "reload_direct", "failed_request", "search",
        "open", "edges_checked", "parallel", "loopback_from_precursors", "unbuilt_reload", "by_formula"]
ASSUMPTIONS = ["a product group leads to the identical reactant group and, once precursors are set, to every reactant group contained in the products together with the precursors "
               "(groups obtainable from the precursors alone hang on the precursor node instead)"]


def loads(rn, how):
    if how == "json":
        return MontyDecoder().process_decoded(json.loads(json.dumps(rn, cls=MontyEncoder)))
    d = rn.as_dict()
    before = json.dumps(d, cls=MontyEncoder, sort_keys=True)
    out = ReactionNetwork.from_dict(d)
    assert json.dumps(d, cls=MontyEncoder, sort_keys=True) == before, "from_dict changed its input"
    return out


def case(ctx):
    rng = ctx.rng
    open_case = rng.random() < 0.25
    mu = round(rng.uniform(-2, 0), 2) if open_case else 0.0
    ents, rxns = net.random_reactions(rng, rng.randint(2, 8), rng.choice([1, 5, 12, 20]), open_case)
    if not rxns:
        return
    ctx.count("open", open_case)
    cf = net.cost_function(rng)
    S = net.make_set(rng, ents, rxns, open_case, mu)
    objs = rs.to_open(rng, rxns, "O", mu) if open_case else rxns
    cost = {}
    for r in objs:
        cost.setdefault(rs.ident(r), set()).add(round(float(cf.evaluate(r)), 9))
    rn = ReactionNetwork(S, cf)
    used = list(S.entries)
    byf = {}
    for e in used:
        f = e.composition.reduced_formula
        if f not in byf or e.energy_per_atom < byf[f].energy_per_atom:
            byf[f] = e
    pre = tgt = None
    built = False
    hist = []
    for step in range(rng.randint(3, 11)):
        op = "build" if not built and step else rng.choice(["build", "pre", "pre", "pre", "tgt", "tgt", "json", "direct", "bad", "search"])
        hist.append(op)
        if op == "build":
            rn.build()
            ctx.count("rebuild" if built else "build")
            if built:
                pre = tgt = None
            built = True
        elif not built:
            if op in ("pre", "tgt", "search"):
                try:
                    {"pre": lambda: rn.set_precursors([rng.choice(used)]), "tgt": lambda: rn.set_target(rng.choice(used)),
                     "search": lambda: rn.find_pathways([rng.choice(used)], 2)}[op]()
                    ctx.fail("unbuilt", f"{op} worked before build()")
                except (ValueError, AttributeError):
                    ctx.count("failed_request")
            elif op in ("json", "direct"):
                rn = loads(rn, op)
                ctx.count("unbuilt_reload")
                ctx.check(rn.graph is None and rn.precursors is None and rn.target is None, "unbuilt-reload", "")
            continue
        elif op == "pre":
            if pre:
                ctx.count("set_precursors_again")
            ctx.count("set_precursors")
            ch = rng.sample(used, min(len(used), rng.choice([1, 2, 2, 3, 4])))
            if rng.random() < 0.2 and pre:
                ch = [e for e in used if gen.uid(e) in pre]
            arg = []
            real = set()
            for e in ch:
                f = e.composition.reduced_formula
                if rng.random() < 0.3 and sum(abs(x.energy_per_atom - byf[f].energy_per_atom) < 1e-9 for x in used if x.composition.reduced_formula == f) == 1:
                    arg.append(f)
                    real.add(gen.uid(byf[f]))
                    ctx.count("by_formula")
                else:
                    arg.append(e)
                    real.add(gen.uid(e))
            rn.set_precursors(rng.choice([list, tuple])(arg))
            pre = real
        elif op == "tgt":
            if tgt:
                ctx.count("set_target_again")
            e = rng.choice(used)
            rn.set_target(e)
            tgt = gen.uid(e)
        elif op == "bad":
            alien = gen.gibbs(rng, {"Na": 11, "Cl": 13}, 300, "alien")
            for call in (lambda: rn.set_precursors([used[0], alien]), lambda: rn.set_target(alien)):
                try:
                    call()
                    ctx.fail("alien", "an entry outside the network was accepted")
                except ValueError:
                    ctx.count("failed_request")
        elif op in ("json", "direct"):
            rn = loads(rn, op)
            used = [next(x for x in rn.entries if gen.uid(x) == gen.uid(e)) for e in used]
            byf = {f: next(x for x in used if gen.uid(x) == gen.uid(e)) for f, e in byf.items()}
            ctx.count("reload_" + op)
            ctx.check(type(rn.cost_function) is type(cf), "reload-cost-function", "")
        elif op == "search":
            if not pre:
                continue
            e = rng.choice(used)
            k = rng.choice([1, 3, 6])
            ctx.count("search")
            got = paths(rn, e, k)
            tgt = gen.uid(e)
            fr = ReactionNetwork(net.make_set(rng, ents, rxns, open_case, mu), cf)
            fr.build()
            fr.set_precursors([x for x in fr.entries if gen.uid(x) in pre])
            want = paths(fr, next(x for x in fr.entries if gen.uid(x) == tgt), k)
            ctx.check([round(c, 7) for c, _ in got] == [round(c, 7) for c, _ in want], "search-history", lambda: f"{hist}: {got}\nfresh {want}")
        # --- the graph is what the reactions and the current choices imply
        ctx.note("history", hist, "precursors", sorted(pre or []), "target", tgt, [str(r) for r in objs])
        nodes, edges = net.model(objs, pre, tgt)
        on, oe = net.observed(rn.graph)
        ctx.check(all(v == 1 for v in on.values()) and set(on) == nodes, "nodes", lambda: f"{hist}: missing {list(nodes - set(on))[:2]} extra {list(set(on) - nodes)[:2]} repeated "
                  f"{[k for k, v in on.items() if v > 1][:2]}")
        ctx.count("edges_checked", sum(oe.values()))
        ctx.check(oe == edges, "edges", lambda: f"{hist}: missing {short(edges - oe)} extra {short(oe - edges)}")
        ctx.count("loopback_from_precursors", sum(k[2] == "loopback_edge" and k[0][1] != k[1][1] for k in edges))
        ctx.count("parallel", len({k[:2] for k in edges}) < sum(edges.values()))
        ctx.check({gen.uid(e) for e in rn.precursors or ()} == set(pre or ()) and (gen.uid(rn.target) if rn.target else None) == tgt, "choices",
                  lambda: f"{hist}: precursors {rn.precursors} target {rn.target}, expected {pre} {tgt}")
        for i in rn.graph.node_indices():
            nd = rn.graph.get_node_data(i)
            el = {str(x) for e in nd.entries for x in e.composition.elements}
            ctx.check({str(x) for x in nd.elements} == el and len(nd.elements) == len(el) == nd.dim and nd.chemsys.split("-") == [str(x) for x in nd.elements] or not el and not nd.chemsys and nd.dim == 0,
                      "node-summary", lambda: f"{nd}: {nd.elements} {nd.chemsys} {nd.dim}, expected {el}")
        for obj in rn.graph.edges():
            w = get_edge_weight(obj, rn.cost_function)
            if isinstance(obj, str):
                ctx.check(w == 0, "free-edge", f"{obj} costs {w}")
            else:
                ctx.check(any(abs(w - c) < 1e-6 for c in cost.get(rs.ident(obj), ())), "edge-cost", lambda: f"{obj}: {w}, expected {cost.get(rs.ident(obj))}")
                ctx.check(isinstance(obj, OpenComputedReaction) == open_case, "edge-class", "")
    ctx.sig(sorted(rs.ident(r) for r in objs), hist)
    ctx.sample(dict(history=hist, reactions=len(objs), nodes=rn.graph.num_nodes() if rn.graph else 0, edges=rn.graph.num_edges() if rn.graph else 0))


def short(c):
    return [(a[0], sorted(a[1]), b[0], sorted(b[1]), k if isinstance(k, str) else "reaction", n) for (a, b, k), n in list(c.items())[:3]]


def paths(rn, target, k):
    with contextlib.redirect_stdout(io.StringIO()):
        out = rn.find_pathways([target], k)
    return [(p.total_cost, [rs.ident(r) for r in p.reactions]) for p in out]
