"""C14: an entry set behaves as a set, and no answer is stale."""
import json
from collections import Counter

from monty.json import MontyDecoder, MontyEncoder

from rnv import gen, oracle, rs
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.interpolated import InterpolatedEntry

ID = "C14"
RAY = "none"
TECHNIQUE = "history monitor: random edit/query interleavings checked step by step against a plain-set model, brute-force answers and a fresh rebuild"
CASES = {"quick": 2200, "thorough": 60000}
CHUNK = 8
RULE = ("entry pools with polymorphs, several cell sizes and entry classes; 10-30 random operations (in-place edits incl. set operators, queries "
        "that fill the caches, derived sets that are then edited themselves); every answer compared with the model; distinct = operation history + pool")
NEED = ["oracle_decisions", "add", "update", "discard", "remove", "pop", "ior", "iand", "isub", "ixor", "clear", "q_min", "q_subset", "q_chemsys",
        "q_list", "q_index", "q_temperature", "q_hull", "q_stability", "q_interpolated", "derived_copy", "derived_subset", "derived_filter",
        "derived_json", "derived_temperature", "derived_edited", "refused"]


def view(es):
    return Counter(rs.ent_view(e) for e in es)


def idv(es):
    return Counter((gen.uid(e), round(float(e.energy), 7)) for e in es)


def case(ctx):
    rng = ctx.rng
    ents, els, T = gen.system(rng, rng.randint(2, 4), rng.randint(3, 9), poly=0.5, el_poly=0.3, nist=0.3, interp=0.3, data=True)
    els_e = [e for e in ents if e.composition.is_element]
    model = set(els_e) | {e for e in ents if rng.random() < 0.5} if rng.random() < 0.85 else {e for e in ents if rng.random() < 0.4}
    s = GibbsEntrySet(model if rng.random() < 0.5 else list(model) + list(model)[:2])
    model = set(model)
    hist = []
    derived = []  # (set, view at creation, how)

    def has_pd():
        have = {str(e.composition.elements[0]) for e in model if e.composition.is_element}
        return bool(model) and {str(x) for e in model for x in e.composition.elements} <= have

    def brute_min(f):
        c = [e for e in model if e.composition.reduced_formula == f]
        return min(c, key=lambda e: e.energy_per_atom) if c else None

    def basics(label):
        ctx.check(idv(s) == idv(model), f"contents:{label}", lambda: f"missing={list((idv(model) - idv(s)))[:2]} extra={list((idv(s) - idv(model)))[:2]} after {hist}")
        ctx.check(len(s) == len(model), f"len:{label}", lambda: f"{len(s)} vs {len(model)} after {hist}")
        e = rng.choice(ents)
        ctx.check((e in s) == (e in model), f"contains:{label}", lambda: f"{gen.uid(e)} after {hist}")

    def query(kind):
        ctx.count(kind)
        if kind == "q_min":
            for f in {e.composition.reduced_formula for e in ents}:
                want = brute_min(f)
                try:
                    got = s.get_min_entry_by_formula(gen.formula({str(k): v * 2 for k, v in Composition(f).items()}) if rng.random() < 0.3 else f)
                except KeyError:
                    got = None
                ok = (got is None) == (want is None) and (got is None or (abs(got.energy_per_atom - want.energy_per_atom) < 1e-9
                                                                          and got.composition.reduced_formula == f and got in model))
                ctx.check(ok, "min-entry", lambda: f"{f}: {got!r} vs {want!r} after {hist}")
            ctx.check(set(s.min_entries_by_formula) == {e.composition.reduced_formula for e in model}, "min-entries-keys", lambda: f"after {hist}")
        elif kind == "q_subset":
            have = {str(x) for e in model for x in e.composition.elements}
            if not have:
                return
            sub = rng.sample(sorted(have), rng.randint(1, len(have)))
            q = s.get_subset_in_chemsys(sub if rng.random() < 0.6 else "-".join(sub))
            want = {e for e in model if {str(x) for x in e.composition.elements} <= set(sub)}
            ctx.check(idv(q) == idv(want), "subset", lambda: f"{sub}: {idv(want) - idv(q)} / {idv(q) - idv(want)} after {hist}")
            other = [x for x in els + ["Xe"] if x not in have]
            if other:
                ctx.count("refused")
                try:
                    s.get_subset_in_chemsys([rng.choice(other)] + sub[:1])
                    ctx.fail("subset-outside-accepted", f"{other} after {hist}")
                except ValueError:
                    pass
        elif kind == "q_chemsys":
            ctx.check({str(x) for x in s.chemsys} == {str(x) for e in model for x in e.composition.elements}, "chemsys", lambda: f"{s.chemsys} after {hist}")
        elif kind == "q_list":
            L = s.entries_list
            ctx.check(idv(L) == idv(model), "entries_list", lambda: f"{len(L)} vs {len(model)} after {hist}")
            ctx.check(all(not (b.composition < a.composition) for a, b in zip(L, L[1:])), "entries_list-order", lambda: f"after {hist}")
        elif kind == "q_index":
            s.build_indices()
            L = s.entries_list
            ctx.check(sorted(e.data["idx"] for e in s) == list(range(len(model))), "indices", lambda: f"{[e.data.get('idx') for e in s]} after {hist}")
            ctx.check(all(L[e.data["idx"]] is e for e in s), "index-position", lambda: f"after {hist}")
        elif kind == "q_temperature":
            temps = {e.temperature for e in model if not isinstance(e, InterpolatedEntry)}
            ctx.check(s.temperature in (temps or {0.0}), "temperature", lambda: f"{s.temperature} vs {temps} after {hist}")
        elif kind in ("q_hull", "q_stability", "q_interpolated"):
            if not has_pd():
                return
            L = list(model)
            hull = lambda e: e.energy_per_atom - oracle.hull_energy({str(k): v for k, v in e.composition.items()}, L)
            if kind == "q_hull":
                for e in rng.sample(L, min(3, len(L))):
                    got, want = s.get_e_above_hull(e), hull(e)
                    ctx.check(abs(got - want) < 2e-6, "e-above-hull", lambda: f"{gen.desc(e)}: {got} vs {want} after {hist}")
                outside = [e for e in ents if e not in model and {str(x) for x in e.composition.elements} <= {str(x) for x in s.chemsys}]
            elif kind == "q_stability":
                cut = rng.choice([0.0, 0.01, 0.05, 0.3])
                got = s.filter_by_stability(cut, include_polymorphs=True)
                hs = {id(e): hull(e) for e in L}
                gi = idv(got)
                for e in L:
                    others = [x for x in L if x is not e]
                    try:
                        alone = oracle.hull_energy({str(k): v for k, v in e.composition.items()}, others)
                    except ValueError:
                        alone = None
                    clear = alone is None or e.energy_per_atom < alone - 1e-6
                    if abs(hs[id(e)] - cut) > 2e-6 or (hs[id(e)] < 1e-9 and clear):
                        k = (gen.uid(e), round(float(e.energy), 7))
                        ctx.check((gi[k] > 0) == (hs[id(e)] <= cut + 1e-9), "stability", lambda: f"{gen.desc(e)} e_hull={hs[id(e)]} cut={cut} after {hist}")
            else:
                have = sorted({str(x) for e in model for x in e.composition.elements})
                d = gen.comp_dict(rng, have, 1, 3)
                c = Composition(d).reduced_composition
                got = s.get_interpolated_entry(gen.formula(d), 1e-3)
                want = oracle.hull_energy({str(k): v for k, v in c.items()}, L) - 1e-3
                ctx.check(abs(got.energy_per_atom - want) < 2e-6, "interpolated", lambda: f"{d}: {got.energy_per_atom} vs {want} after {hist}")

    queries = ["q_min", "q_subset", "q_chemsys", "q_list", "q_index", "q_temperature", "q_hull", "q_stability", "q_interpolated"]
    edits = ["add", "add", "update", "discard", "discard", "remove", "pop", "ior", "iand", "isub", "ixor", "clear"]
    derive = ["derived_copy", "derived_subset", "derived_filter", "derived_json", "derived_temperature", "derived_edited"]
    steps = rng.randint(8, 26)
    for i in range(steps):
        x = rng.random()
        op = rng.choice(queries) if x < 0.45 else rng.choice(edits) if x < 0.85 else rng.choice(derive)
        if op == "clear" and rng.random() < 0.8:
            op = "add"
        if op in queries:
            hist.append(op)
            query(op)
            continue
        ctx.count(op)
        some = rng.sample(ents, rng.randint(0, min(4, len(ents))))
        one = rng.choice(ents)
        if op in edits:
            hist.append((op, gen.uid(one) if op in ("add", "discard", "remove") else [gen.uid(e) for e in some]))
        if op == "add":
            s.add(one)
            model.add(one)
        elif op == "update":
            s.update(some if rng.random() < 0.5 else (e for e in some))
            model.update(some)
        elif op == "discard":
            s.discard(one)
            model.discard(one)
        elif op == "remove":
            if one in model:
                s.remove(one)
                model.remove(one)
            else:
                ctx.count("refused")
                try:
                    s.remove(one)
                    ctx.fail("remove-missing-accepted", f"{gen.uid(one)} after {hist}")
                except KeyError:
                    pass
        elif op == "pop":
            if model:
                e = s.pop()
                ctx.check(e in model, "pop-foreign", lambda: f"{gen.uid(e)}")
                model.discard(e)
        elif op == "ior":
            s |= GibbsEntrySet(some) if rng.random() < 0.5 else set(some)
            model |= set(some)
        elif op == "iand":
            keep = set(ents) - set(some)
            s &= GibbsEntrySet(keep) if rng.random() < 0.5 else keep
            model &= keep
        elif op == "isub":
            s -= GibbsEntrySet(some) if rng.random() < 0.5 else set(some)
            model -= set(some)
        elif op == "ixor":
            s ^= GibbsEntrySet(some) if rng.random() < 0.5 else set(some)
            model ^= set(some)
        elif op == "clear":
            s.clear()
            model.clear()
        elif op == "derived_copy":
            hist.append(op)
            q = s.copy()
            ctx.check(view(q) == view(s), "copy", lambda: f"after {hist}")
            derived.append([q, idv(q), op])
        elif op == "derived_subset":
            have = sorted({str(x) for e in model for x in e.composition.elements})
            if have:
                sub = rng.sample(have, rng.randint(1, len(have)))
                q = s.get_subset_in_chemsys(sub)
                derived.append([q, idv(q), (op, sub)])
        elif op == "derived_filter":
            if has_pd():
                q = s.filter_by_stability(rng.choice([0.0, 0.1]))
                derived.append([q, idv(q), op])
        elif op == "derived_json":
            hist.append(op)
            if rng.random() < 0.5:
                q = MontyDecoder().process_decoded(json.loads(json.dumps(s, cls=MontyEncoder)))
            else:
                q = GibbsEntrySet.from_dict(json.loads(json.dumps(s.as_dict(), cls=MontyEncoder)))
            ctx.check(view(q) == view(s), "reloaded", lambda: f"{str(list((view(s) - view(q)).items())[:1])[:500]} / {str(list((view(q) - view(s)).items())[:1])[:500]}")
            ctx.check(set(q) == set(s) and all(e in q for e in s), "reloaded-equal", lambda: f"after {hist}")
            derived.append([q, idv(q), op])
        elif op == "derived_temperature":
            hist.append(op)
            t = rng.choice([400, 900, 1450])
            before = view(s)
            q = s.get_entries_with_new_temperature(t)
            want = Counter()
            for e in model:
                try:
                    n = e.get_new_temperature(t)
                except ValueError:
                    continue
                want[(gen.uid(n), round(float(n.energy), 7))] += 1
            ctx.check(idv(q) == want, "new-temperature", lambda: f"T={t}: {list((want - idv(q)).items())[:2]} / {list((idv(q) - want).items())[:2]}")
            ctx.check(view(s) == before, "new-temperature-changed-source", lambda: f"after {hist}")
            derived.append([q, idv(q), op])
        elif op == "derived_edited" and derived:
            k = rng.randrange(len(derived))
            q, v, how = derived[k]
            q.add(one) if rng.random() < 0.5 else q.discard(next(iter(q), one))
            derived[k][1] = idv(q)
            q.chemsys, q.entries_list  # fill its caches
            hist.append((op, how))
        basics(op)
        if rng.random() < 0.3:
            query(rng.choice(queries))
    for kind in queries:
        query(kind)
    basics("end")
    for q, v, how in derived:
        ctx.check(idv(q) == v, "derived-set-changed", lambda: f"{how} after {hist}")
    fresh = GibbsEntrySet(model)
    ctx.check(fresh.chemsys == s.chemsys and idv(fresh.entries_list) == idv(s.entries_list), "fresh-differs", lambda: f"after {hist}")
    ctx.sig([gen.uid(e) for e in ents], [str(h) for h in hist])
    if rng.random() < 0.01:
        ctx.sample(f"{len(ents)} entries {els}: {[h if isinstance(h, str) else h[0] for h in hist]}")
