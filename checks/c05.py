"""C05: a reaction set gives back exactly the reactions put into it."""
import json
from collections import Counter

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from rnv import gen, rs
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C05"
RAY = "none"
TECHNIQUE = "history monitor: multiset reference model of the reaction set compared after every operation; immutability monitors on inputs"
CASES = {"quick": 2500, "thorough": 60000}
CHUNK = 10
RULE = ("pools of computed, experimental and interpolated entries (polymorphs, 1-2 temperatures), random reactions of 2-6 phases with repeats "
        "and attached data, closed or open to one element; random sequences of building, combining, adding, saving, reloading, slicing; after "
        "each step the contents are compared as a multiset; distinct = (pool, reactions, operations)")
NEED = ["many_entries", "oracle_decisions", "add_rxn_set", "add_rxns", "json", "as_dict", "open", "mixed_T", "polymorph_pool", "constructor", "empty"]


def view(rset):
    return Counter(rs.rxn_view(r) for r in rset)


def diff(a, b):
    return f"missing={str(list((b - a).items())[:1])[:400]} extra={str(list((a - b).items())[:1])[:400]} (n={sum(a.values())} vs {sum(b.values())})"


def case(ctx):
    rng = ctx.rng
    nT = 2 if rng.random() < 0.3 else 1
    ents, els, Ts = rs.pool(rng, temps=nT, poly=rng.choice([0.0, 0.4, 0.9]), big=0.03)
    if len(ents) > 127:
        ctx.count("many_entries")
    if nT > 1:
        ctx.count("mixed_T")
    if len({e.composition.reduced_formula for e in ents}) < len(ents) / nT:
        ctx.count("polymorph_pool")
    groups = rs.at_one_T(ents)

    def mk(n):
        out = []
        for j in range(n):
            T = rng.choice(Ts)
            sub = groups.get(T, []) + [e for e in groups.get(None, [])]
            d = None
            if rng.random() < 0.5:
                d = {"k": rng.randrange(5), "cost": rng.choice([0.25, 1, None, "x"])}
                if rng.random() < 0.3:
                    d["nested"] = {"a": [1, 2.5], "b": None}
            r = rs.random_rxn(rng, sub, balanced=rng.random() < 0.3, kmax=rng.choice([2, 4, 6]), data=d)
            if r is not None:
                out.append(r)
        if out and rng.random() < 0.4:
            out += rng.choices(out, k=rng.randint(1, 3))
        return out

    el, mu = None, 0.0
    open_ = rng.random() < 0.35
    if open_:
        ctx.count("open")
        el, mu = rng.choice(els), rng.choice([0.0, rng.uniform(-5, 1)])
    A, B = mk(rng.choice([0, 1, 2, 5, 12, 30])), mk(rng.choice([0, 1, 3, 8]))
    style = rng.randrange(3)
    if open_ and style:
        A, B = rs.to_open(rng, A, el, mu), rs.to_open(rng, B, el, mu)
    before_e = [rs.ent_view(e) for e in ents]
    before_r = [rs.rxn_view(r) for r in A + B]
    want_of = (lambda L: Counter(rs.rxn_view(r) for r in (rs.to_open(rng, L, el, mu) if open_ else L)))
    WA, WB = want_of(A), want_of(B)
    kw = dict(open_elem=rng.choice([el, gen.El(el)]), chempot=mu) if open_ and (style != 1 or not A or not B) else {}
    ctx.note("pool", [gen.uid(e) for e in ents], "open", el, mu, "style", style, "A", [str(r) for r in A], "B", [str(r) for r in B])
    ctx.sig([gen.uid(e) for e in ents], [str(r) for r in A], [str(r) for r in B], el)
    if not A:
        ctx.count("empty")

    def verify(s, want, label):
        got = view(s)
        ctx.check(got == want, label, lambda: diff(got, want))
        ctx.check(len(s) == sum(want.values()), label + ":len", lambda: f"{len(s)} vs {sum(want.values())}")
        ctx.check(view(s) == got, label + ":iterate-twice", "second iteration differs")

    whole = list(ents)
    rng.shuffle(whole)
    a0 = ReactionSet.from_rxns(A, **kw)
    verify(a0, WA, "from_rxns")
    a = ReactionSet.from_rxns(A, entries=whole, **kw)
    verify(a, WA, "from_rxns-entries")
    b = ReactionSet.from_rxns(B, entries=a.entries if rng.random() < 0.5 else whole, **kw)
    verify(b, WB, "from_rxns-entries")
    cur, want = a, WA
    sets = [(a0, WA), (a, WA), (b, WB)]
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["add_rxn_set", "add_rxns", "json", "as_dict", "constructor", "chempot", "rebuild"])
        ctx.count(op)
        ctx.note("op", op)
        if op == "add_rxn_set":
            # the documented precondition: identical entries
            try:
                new = cur.add_rxn_set(b)
            except ValueError as e:
                if "identical" in str(e) and cur.entries != b.entries:
                    ctx.count("combine_refused")
                    continue
                raise
            cur, want = new, want + WB
        elif op == "add_rxns":
            L = [r for r in mk(rng.randint(1, 4))]
            if open_:
                L = rs.to_open(rng, L, el, mu)
            have = {rs.ent_view(e) for e in cur.entries}
            if not all(rs.ent_view(e) in have for r in L for e in r.entries):
                ctx.count("add_rxns_foreign")
                continue
            cur, want = cur.add_rxns(L), want + want_of(L)
        elif op == "json":
            cur = MontyDecoder().process_decoded(json.loads(json.dumps(cur, cls=MontyEncoder)))
        elif op == "as_dict":
            d = cur.as_dict()
            d = json.loads(json.dumps(d, cls=MontyEncoder)) if rng.random() < 0.5 else d
            before = json.dumps(d, cls=MontyEncoder, sort_keys=True)
            cur = ReactionSet.from_dict(d)
            ctx.check(json.dumps(d, cls=MontyEncoder, sort_keys=True) == before, "from-dict-input", "from_dict changed its input")
        elif op == "constructor":
            cur = ReactionSet(cur.entries, cur.indices, cur.coeffs, cur.open_elem, cur.chempot, cur.all_data)
            bare = ReactionSet(cur.entries, cur.indices, cur.coeffs, cur.open_elem, cur.chempot)
            nodata = Counter(rs.rxn_view(r, data=False) for r in cur)
            got = Counter(rs.rxn_view(r, data=False) for r in bare)
            ctx.check(got == nodata and all(not r.data for r in bare), "constructor-without-data", lambda: diff(got, nodata))
        elif op == "chempot":
            e2, m2 = rng.choice(els), rng.uniform(-4, 0)
            other = cur.set_chempot(e2, m2)
            w2 = Counter(rs.rxn_view(r) for r in rs.to_open(rng, list(cur), e2, m2))
            verify(other, w2, "set_chempot")
            back = other.set_chempot(el, mu) if open_ else other.set_chempot(None, None)
            verify(back, want, "set_chempot-back")
        elif op == "rebuild":
            cur = ReactionSet.from_rxns(list(cur), open_elem=cur.open_elem, chempot=cur.chempot,
                                        entries=cur.entries if rng.random() < 0.5 else None)
        verify(cur, want, op)
        sets.append((cur, want))
        ctx.check(set(map(int, cur.indices)) == set(map(int, cur.coeffs)) and all(
            np.shape(cur.indices[k]) == np.shape(cur.coeffs[k]) for k in cur.indices), "arrays-misaligned", lambda: f"{cur.indices} {cur.coeffs}")
    for s, w in sets:
        verify(s, w, "earlier-set-changed")
    ctx.check([rs.ent_view(e) for e in ents] == before_e, "entries-changed", "an entry given to the set was modified")
    ctx.check([rs.rxn_view(r) for r in A + B] == before_r, "reactions-changed", "a reaction given to the set was modified")
    if rng.random() < 0.01:
        ctx.sample(f"{len(A)}+{len(B)} reactions over {len(ents)} entries {els} T={Ts} open={el}")
