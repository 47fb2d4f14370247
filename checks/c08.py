"""C08: reaction sets re-computed at other temperatures."""
from collections import Counter

import numpy as np

from rnv import gen, rs
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C08"
RAY = "none"
TECHNIQUE = "history monitor: every re-computed set compared with a reaction-by-reaction rebuild from entries created at that temperature"
CASES = {"quick": 1200, "thorough": 30000}
CHUNK = 8
RULE = ("reaction sets over computed, experimental and interpolated entries with polymorphs; random histories of set_new_temperature and "
        "compute_at_temperatures (unsorted, repeated, fractional temperatures), closed or open; distinct = (reactions, temperatures)")
NEED = ["oracle_decisions", "single", "multi", "open", "polymorph_pair", "nist", "interp", "chained", "fractional"]


def make_at(e, T):
    if isinstance(e, InterpolatedEntry):
        return e
    if isinstance(e, GibbsComputedEntry):
        adj = [a for a in e.energy_adjustments if a.name != "Gibbs SISSO Correction"]
        return GibbsComputedEntry(e.composition, e.formation_energy_per_atom, e.volume_per_atom, T, energy_adjustments=adj,
                                  data=e.data, entry_id=e.entry_id)
    return type(e)(e.composition, T, data=e.data)


def case(ctx):
    rng = ctx.rng
    ents, els, (T0,) = rs.pool(rng, n_comp=rng.choice([3, 6, 10]), poly=rng.choice([0.0, 0.6, 0.9]), el_poly=0.3,
                               T=rng.choice(range(300, 1501, 100)))
    rx = []
    for _ in range(rng.choice([1, 3, 8, 15])):
        d = {"tag": rng.randrange(9)} if rng.random() < 0.4 else None
        r = rs.random_rxn(rng, ents, balanced=rng.random() < 0.4, kmax=rng.choice([2, 3, 5]), data=d)
        if r:
            rx.append(r)
    if not rx:
        return
    comps = Counter(e.composition for e in {gen.uid(e): e for r in rx for e in r.entries}.values())
    ctx.count("polymorph_pair", any(v > 1 for v in comps.values()))
    ctx.count("nist", any(hasattr(e, "REFERENCES") for r in rx for e in r.entries))
    ctx.count("interp", any(isinstance(e, InterpolatedEntry) for r in rx for e in r.entries))
    el, mu = None, 0.0
    if rng.random() < 0.35:
        ctx.count("open")
        el, mu = rng.choice(els), rng.uniform(-4, 0)
    lo, hi = 300, 2000
    pool = ents if rng.random() < 0.3 else [e for r in rx for e in r.entries]
    for e in pool:
        if hasattr(e, "REFERENCES"):
            g = e.REFERENCES[e.composition.reduced_formula]
            lo, hi = max(lo, min(g)), min(hi, max(g))
    s = ReactionSet.from_rxns(rx, entries=pool, open_elem=el, chempot=mu)
    before = Counter(rs.rxn_view(r) for r in s)
    ev = [(rs.ent_view(e)) for e in ents]

    def temp():
        if rng.random() < 0.25:
            ctx.count("fractional")
            return round(rng.uniform(lo, hi), rng.choice([1, 2, 3])) if rng.random() < 0.6 else rng.randrange(int(lo), int(hi))
        return rng.choice([t for t in range(300, 2001, 100) if lo <= t <= hi])

    def expect(T):
        out = Counter()
        for r in rx:
            es = [make_at(e, T) for e in r.entries]
            q = OpenComputedReaction(es, r.coefficients, {gen.El(el): mu}, data=r.data) if el else ComputedReaction(es, r.coefficients, data=r.data)
            out[rs.rxn_view(q)] += 1
        return out

    def energies(T):
        """Energies by hand, per reaction."""
        out = []
        for r in rx:
            tot = 0.0
            for e, c in zip(r.entries, r.coefficients):
                f = e.composition.get_reduced_composition_and_factor()[1]
                g = make_at(e, T).energy / f
                if el and not (e.composition.is_element and str(e.composition.elements[0]) == el):
                    g -= mu * e.composition[el] / f
                tot += c * g
            out.append(tot)
        return sorted(out)

    def verify(q, T, label):
        got, want = Counter(rs.rxn_view(r) for r in q), expect(T)
        ctx.check(got == want, label, lambda: f"T={T}: missing={str(list((want - got).items())[:1])[:700]} extra={str(list((got - want).items())[:1])[:700]}")
        ge, we = sorted(float(r.energy) for r in q), energies(T)
        ctx.check(len(ge) == len(we) and np.allclose(ge, we, rtol=1e-7, atol=1e-7), label + "-energy", lambda: f"T={T}: {ge} vs {we}")
        ctx.check(len(q) == len(rx), label + "-count", lambda: f"{len(q)} vs {len(rx)}")
        bad = [gen.uid(e) for r in q for e in r.entries if getattr(e, "temperature", T) != T]
        ctx.check(not bad, label + "-entry-temperature", lambda: f"{bad} at {T}")

    cur, visited = s, [T0]
    for _ in range(rng.randint(1, 3)):
        src, chained = (cur, True) if rng.random() < 0.5 and cur is not s else (s, False)
        if chained:
            ctx.count("chained")
        if rng.random() < 0.5:
            ctx.count("single")
            T = temp()
            ctx.note("set_new_temperature", T, "from", visited if chained else T0)
            cur = src.set_new_temperature(T)
            verify(cur, T, "single")
            visited.append(T)
        else:
            ctx.count("multi")
            L = [temp() for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.3:
                L.append(T0 if lo <= T0 <= hi else L[0])
            ctx.note("compute_at_temperatures", L)
            d = src.compute_at_temperatures(L)
            ctx.check(set(d) == set(L), "multi-keys", lambda: f"{sorted(d)} vs {L}")
            for T in L:
                verify(d[T], T, "multi")
            cur = d[rng.choice(L)]
    ctx.check(Counter(rs.rxn_view(r) for r in s) == before, "original-changed", "the original set changed")
    ctx.check([rs.ent_view(e) for e in ents] == ev, "entries-changed", "the original entries changed")
    ctx.sig(sorted(before), visited)
    if rng.random() < 0.01:
        ctx.sample(f"{len(rx)} reactions {els} {T0} K -> {visited}")
