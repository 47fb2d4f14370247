"""C06: reaction set look-ups."""
from collections import Counter

from rnv import gen, rs
from rxn_network.core import Composition
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C06"
RAY = "none"
TECHNIQUE = "runtime monitoring of queries against a brute-force reference scan of the stored reactions"
CASES = {"quick": 2500, "thorough": 60000}
CHUNK = 10
RULE = ("reaction sets over pools with polymorphs and mixed entry classes (closed or open); queries by every product/element formula, in "
        "reduced, scaled or permuted spelling, by random reactant subsets, unknown formulas, both result forms; distinct = (set, query)")
NEED = ["many_entries", "oracle_decisions", "by_product", "by_reactants", "unknown", "polymorph_hit", "first_entry", "open", "return_set", "nonempty"]


def spell(rng, f):
    """Another spelling of the same formula."""
    c = Composition(f)
    x = rng.random()
    if x < 0.4:
        return f
    k = rng.choice([1, 2, 3]) if x < 0.8 else 1
    items = [(str(e), a * k) for e, a in c.items()]
    rng.shuffle(items)
    return "".join(f"{e}{a:g}" for e, a in items)


def case(ctx):
    rng = ctx.rng
    temps = 2 if rng.random() < 0.2 else 1
    ents, els, Ts = rs.pool(rng, n_comp=rng.choice([2, 4, 8]), temps=temps, poly=rng.choice([0.0, 0.5, 0.9]), el_poly=0.3, big=0.02)
    if len(ents) > 127:
        ctx.count("many_entries")
    groups = rs.at_one_T(ents)
    rx = []
    for _ in range(rng.choice([1, 3, 10, 25])):
        sub = groups.get(rng.choice(Ts), []) + groups.get(None, [])
        r = rs.random_rxn(rng, sub, balanced=rng.random() < 0.4, kmax=rng.choice([2, 3, 5]))
        if r:
            rx.append(r)
            if rng.random() < 0.4:
                rx.append(r.reverse())
    if not rx:
        return
    kw = {}
    if rng.random() < 0.25:
        ctx.count("open")
        kw = dict(open_elem=rng.choice(els), chempot=rng.uniform(-3, 0))
    s = ReactionSet.from_rxns(rx, entries=ents if rng.random() < 0.5 else None, **kw)
    stored = list(s)
    whole = Counter(rs.rxn_view(r) for r in stored)
    side = {}
    for r in stored:
        side[id(r)] = ({e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c < 0},
                       {e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c > 0})
    formulas = sorted({e.composition.reduced_formula for e in s.entries})
    npoly = Counter(e.composition.reduced_formula for e in s.entries)
    ctx.note("entries", [gen.uid(e) for e in s.entries], "rxns", [str(r) for r in stored], kw)
    unknown = ["Xe2O7", "Au3", "Pu9O2", "LiNaKMgO"]

    def compare(got, want, key, q):
        gv, wv = Counter(rs.rxn_view(r) for r in got), Counter(rs.rxn_view(r) for r in want)
        ctx.check(gv == wv, key, lambda: f"query {q}: missing={str(list((wv - gv).items())[:1])[:500]} extra={str(list((gv - wv).items())[:1])[:500]}"
                                         f" ({sum(gv.values())} vs {sum(wv.values())}) entries={[gen.uid(e) for e in s.entries]}")
        if want:
            ctx.count("nonempty")

    for f in formulas + [rng.choice(unknown)]:
        q = spell(rng, f) if f in npoly else f
        want = [r for r in stored if f in side[id(r)][1]]
        ctx.count("by_product")
        ctx.count("unknown", f not in npoly)
        ctx.count("polymorph_hit", npoly[f] > 1 and bool(want))
        ctx.count("first_entry", bool(want) and s.entries[0].composition.reduced_formula == f)
        ctx.sig("p", sorted(whole), f)
        compare(list(s.get_rxns_by_product(q)), want, "by-product", q)
        rset = s.get_rxns_by_product(q, return_set=True)
        ctx.check(isinstance(rset, ReactionSet), "by-product-set-type", lambda: f"{q}: {type(rset)}")
        if isinstance(rset, ReactionSet):
            ctx.count("return_set")
            compare(list(rset), want, "by-product-set", q)
            ctx.check(len(rset) == len(want), "by-product-set-len", lambda: f"{len(rset)} vs {len(want)}")
    for _ in range(6):
        x = rng.random()
        if x < 0.3 and stored:
            base = sorted(side[id(rng.choice(stored))][0])
            names = base + (rng.sample(formulas, min(len(formulas), rng.randint(0, 2))))
        elif x < 0.4:
            names = list(formulas)
        elif x < 0.5:
            names = [rng.choice(unknown)]
        elif x < 0.55:
            names = []
        else:
            names = rng.sample(formulas, rng.randint(1, len(formulas)))
        if rng.random() < 0.3:
            names = names + [rng.choice(unknown)]
        q = [spell(rng, f) if f in npoly else f for f in names]
        rng.shuffle(q)
        want = [r for r in stored if side[id(r)][0] <= set(names)]
        ctx.count("by_reactants")
        ctx.sig("r", sorted(whole), sorted(names))
        compare(list(s.get_rxns_by_reactants(q)), want, "by-reactants", q)
        rset = s.get_rxns_by_reactants(q, return_set=True)
        ctx.check(isinstance(rset, ReactionSet), "by-reactants-set-type", lambda: f"{q}: {type(rset)}")
        if isinstance(rset, ReactionSet):
            compare(list(rset), want, "by-reactants-set", q)
            if rng.random() < 0.3 and formulas:
                # a query of a query
                f = rng.choice(formulas)
                compare(list(rset.get_rxns_by_product(f)), [r for r in want if f in side[id(r)][1]], "query-of-query", (q, f))
    ctx.check(Counter(rs.rxn_view(r) for r in s) == whole, "set-changed", "queries changed the set")
    if rng.random() < 0.01:
        ctx.sample(f"{len(stored)} reactions, {len(formulas)} formulas, e.g. product {formulas[0]}")
