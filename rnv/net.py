"""Random reaction networks and the reference model of their graph."""
from collections import Counter, defaultdict

from rnv import gen, rs
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet


def fuid(entries):
    return frozenset(gen.uid(e) for e in entries)


def random_reactions(rng, n_groups=7, n_rxns=14, open_case=False, poly=0.3, big=False):
    """reactions between a few groups of phases: cycles, parallel reactions and shared groups are common"""
    els = gen.elements(rng, rng.choice([2, 3]))
    if open_case and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, n_comp=rng.randint(3, 7), els=els, poly=poly, el_poly=0.1, nist=0.15, interp=0.1, mx=4)
    groups = []
    for _ in range(n_groups):
        k = rng.choice([1, 1, 2, 2, 3])
        g = rng.sample(ents, min(k, len(ents)))
        if len({e.composition.reduced_formula for e in g}) == len(g):
            groups.append(g)
    out = []
    tries = 0
    while len(out) < n_rxns and tries < 20 * n_rxns and groups:
        tries += 1
        a, b = rng.choice(groups), rng.choice(groups)
        fa, fb = ({e.composition.reduced_formula for e in g} for g in (a, b))
        if fa & fb:
            continue
        if open_case and all(str(x) == "O" for e in b for x in e.composition.elements):
            continue
        co = [-rng.choice([1.0, 2.0, 0.5, 1.5]) for _ in a] + [rng.choice([1.0, 2.0, 0.5, 1.5]) for _ in b]
        out.append(ComputedReaction(list(a) + list(b), co, data={"w": rng.choice([0, 1, 1, 2, 3, round(rng.uniform(0, 3), 3)]), "i": len(out)}))
        if rng.random() < 0.15:  # parallel reaction between the same groups
            co = [c * rng.uniform(0.5, 2) for c in co]
            out.append(ComputedReaction(list(a) + list(b), co, data={"w": rng.choice([0, 1, 2, 3]), "i": len(out)}))
        if rng.random() < 0.3 and not (open_case and all(str(x) == "O" for e in a for x in e.composition.elements)):  # backwards
            out.append(ComputedReaction(list(a) + list(b), [-c for c in co], data={"w": rng.choice([0, 1, 2, 3]), "i": len(out)}))
    if out and rng.random() < 0.1:
        out.append(rng.choice(out))
    return ents, out


def cost_function(rng):
    r = rng.random()
    if r < 0.4:
        return Softplus()
    if r < 0.7:
        return WeightedSum(params=["w"], weights=[1.0])
    return Softplus(temp=rng.choice([300, 900]), params=["energy_per_atom", "w"], weights=[rng.uniform(0, 1), rng.uniform(0, 1)])


def make_set(rng, ents, rxns, open_case=False, mu=0.0):
    if open_case:
        return ReactionSet.from_rxns(rxns, entries=ents, open_elem="O", chempot=mu)
    return ReactionSet.from_rxns(rxns, entries=ents)


def sides(r):
    a = frozenset(gen.uid(e) for e, c in zip(r.entries, r.coefficients) if c < 0)
    b = frozenset(gen.uid(e) for e, c in zip(r.entries, r.coefficients) if c > 0)
    return a, b


def model(rxns, precursors=None, target=None):
    """(set of nodes, Counter of edges) of the graph, by identity of entries; precursors: set of uids, target: uid"""
    nodes, edges = set(), Counter()
    for r in rxns:
        a, b = sides(r)
        nodes |= {("Reactants", a), ("Products", b)}
        edges[("Reactants", a), ("Products", b), rs.ident(r)] += 1
    R = [n for n in nodes if n[0] == "Reactants"]
    P = [n for n in nodes if n[0] == "Products"]
    pre = frozenset(precursors or ())
    for p in P:
        for r in R:
            if p[1] == r[1] or (precursors and r[1] <= p[1] | pre and not r[1] <= pre):
                edges[p, r, "loopback_edge"] = 1
    if precursors:
        n = ("Precursors", pre)
        nodes.add(n)
        for r in R:
            if r[1] <= pre:
                edges[n, r, "precursor_edge"] = 1
    if target:
        n = ("Target", frozenset([target]))
        nodes.add(n)
        for p in P:
            if target in p[1]:
                edges[p, n, "target_edge"] = 1
    return nodes, edges


def observed(g):
    key = {i: (g.get_node_data(i).description.name, fuid(g.get_node_data(i).entries)) for i in g.node_indices()}
    edges = Counter()
    for a, b, obj in g.weighted_edge_list():
        edges[key[a], key[b], obj if isinstance(obj, str) else rs.ident(obj)] += 1
    return Counter(key.values()), edges
