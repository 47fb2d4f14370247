"""C04: open reaction energies are grand potential changes."""
import json

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from rnv import gen
from rxn_network.core import Composition
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C04"
RAY = "none"
CASES = {"quick": 5000, "thorough": 150000}
CHUNK = 20
RULE = ("exactly balanced reactions with one or two open elements (the pure open phase present or not), random chemical potentials of "
        "either sign, carried through conversion, storage in reaction sets, JSON, re-scaling, reversal, temperature and chemical "
        "potential changes; distinct = (phases, open elements, coefficients)")
NEED = ["oracle_decisions", "pure_open_phase", "two_open", "via_set", "json", "temperature"]


def close(a, b, tol=1e-7):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def case(ctx):
    rng = ctx.rng
    els = gen.elements(rng, rng.randint(2, 5))
    open_els = rng.sample(els, 2 if len(els) > 3 and rng.random() < 0.2 else 1)
    mu = {e: rng.choice([rng.uniform(-6, 0), rng.uniform(-1, 2), 0.0]) for e in open_els}
    T = gen.temperature(rng)
    got = None
    for _ in range(15):
        got = gen.balanced_coeffs(rng, els, rng.choice([1, 1, 2]), 3)
        if got and (rng.random() < 0.3 or any(len(d) == 1 and next(iter(d)) in open_els for d in got[0])):
            break
    if not got:
        return
    ph, k = got
    k = np.array(k)
    o = rng.sample(range(len(ph)), len(ph))
    ph, k = [ph[i] for i in o], k[o] * rng.choice([1, -1])
    if any(set(d) & set(open_els) and len(d) == 1 for d in ph):
        ctx.count("pure_open_phase")
    if len(open_els) == 2:
        ctx.count("two_open")
    interp = rng.random() < 0.2

    pars = [(rng.uniform(-3, 0.5), rng.uniform(6, 40), rng.choice([1, 1, 2, 3])) for _ in ph]

    def entries(t):
        out = []
        for i, (d, (fe, vol, m)) in enumerate(zip(ph, pars)):
            if interp and i == 0:
                c = Composition({e: a * m for e, a in d.items()})
                out.append(InterpolatedEntry(c, fe * c.num_atoms, entry_id="interp-0"))
            else:
                out.append(gen.gibbs(rng, d, t, f"e{i}", fe=fe, vol=vol, mult=m))
        return out

    ents = entries(T)

    def phi(es, mu, coeffs):
        tot = 0.0
        for d, e, c in zip(ph, es, coeffs):
            n = float(e.composition.num_atoms) / sum(d.values())
            g = e.energy / n
            if not (len(d) == 1 and next(iter(d)) in mu):
                g -= sum(mu[x] * d.get(x, 0) for x in mu)
            tot += c * g
        return tot

    def natoms(mu, coeffs):
        return sum(c * sum(a for x, a in d.items() if x not in mu) for d, c in zip(ph, coeffs) if c > 0)

    def compare(r, es, mu, coeffs, label):
        want, n = phi(es, mu, coeffs), natoms(mu, coeffs)
        ctx.check(close(r.energy, want), f"energy:{label}", lambda: f"{r.energy} vs {want} for {r!r} mu={mu}")
        if n > 1e-9:
            ctx.check(close(r.num_atoms, n), f"num-atoms:{label}", lambda: f"{r.num_atoms} vs {n} {r!r}")
            ctx.check(close(r.energy_per_atom, want / n), f"energy-per-atom:{label}", lambda: f"{r.energy_per_atom} vs {want / n} {r!r}")
            for side, sg in (("reactant", -1), ("product", 1)):
                fr = getattr(r, f"{side}_atomic_fractions")
                wantf = {gen.reduced(d): sg * c * sum(a for x, a in d.items() if x not in mu) / n for d, c in zip(ph, coeffs) if sg * c > 0}
                gotf = {c.reduced_formula: v for c, v in fr.items()}
                gotf = {f: v for f, v in gotf.items() if abs(v) > 1e-9}
                wantf = {f: v for f, v in wantf.items() if abs(v) > 1e-9}
                ctx.check(set(gotf) == set(wantf) and all(close(gotf[f], wantf[f]) for f in gotf), f"{side}-fractions:{label}",
                          lambda: f"{gotf} vs {wantf} for {r!r}")
                ctx.check(close(sum(fr.values()), 1.0, 1e-6), f"{side}-fractions-sum:{label}", lambda: f"{fr} {r!r}")
        ctx.check({str(e): v for e, v in r.chempots.items()} == mu, f"chempots:{label}", lambda: f"{r.chempots} vs {mu}")
        ctx.check({str(e) for e in r.elements} == {x for d in ph for x in d} - set(mu), f"elements:{label}", lambda: f"{r.elements}")

    E = lambda m: {gen.El(e): v for e, v in m.items()}
    ctx.note([gen.formula(d) for d in ph], list(k), mu, T)
    ctx.sig(sorted((gen.reduced(d), round(x, 5)) for d, x in zip(ph, k)), sorted(open_els))
    base = ComputedReaction(ents, k)
    r = OpenComputedReaction(ents, k, E(mu)) if rng.random() < 0.6 else OpenComputedReaction.from_computed_rxn(base, E(mu))
    compare(r, ents, mu, k, "direct")
    closed_energy = sum(c * e.energy / (float(e.composition.num_atoms) / sum(d.values())) for d, e, c in zip(ph, ents, k))
    ctx.check(close(base.energy, closed_energy), "closed-changed", lambda: f"{base.energy} vs {closed_energy}")
    compare(r.reverse(), ents, mu, -k, "reverse")
    compare(r.copy(), ents, mu, k, "copy")
    i = rng.randrange(len(ph))
    compare(r.normalize_to(r.compositions[i], 3.0), ents, mu, k * 3.0 / abs(k[i]), "normalize")
    # another chemical potential from the same closed reaction
    mu2 = {e: v + rng.uniform(-2, 2) for e, v in mu.items()}
    compare(OpenComputedReaction.from_computed_rxn(r, E(mu2)), ents, mu2, k, "re-opened")
    # balancing
    rb = OpenComputedReaction.balance([e for e, c in zip(ents, k) if c < 0], [e for e, c in zip(ents, k) if c > 0], E(mu))
    if rb.lowest_num_errors == 0:
        kb = {id(e): c for e, c in zip(rb.entries, rb.coefficients)}
        compare(rb, ents, mu, [kb[id(e)] for e in ents], "balance")
    # storage
    x = rng.random()
    if x < 0.35:
        ctx.count("json")
        d = r.as_dict() if rng.random() < 0.5 else json.loads(json.dumps(r, cls=MontyEncoder))
        snap = json.dumps(d, cls=MontyEncoder)
        if rng.random() < 0.5:
            d = json.loads(snap)
            q = OpenComputedReaction.from_dict(d)
            ctx.check(json.loads(snap) == d, "from-dict-input", lambda: f"from_dict changed its input to {d}")
        else:
            q = MontyDecoder().process_decoded(json.loads(snap))
        compare(q, ents, mu, k, "json")
        ctx.check(q == r, "json-equal", lambda: f"{q!r} {r!r}")
    elif len(mu) == 1 and x < 0.75:
        ctx.count("via_set")
        el, v = next(iter(mu.items()))
        y = rng.random()
        if y < 0.4:
            rs = ReactionSet.from_rxns([base, base.reverse()])
            rs2 = rs.set_chempot(rng.choice([el, gen.El(el)]), v)
            a, b = list(rs2.get_rxns())
            for q in rs.get_rxns():
                ctx.check(not isinstance(q, OpenComputedReaction) and close(abs(q.energy), abs(base.energy)), "set-original-changed", lambda: f"{q!r}")
        elif y < 0.7:
            rs2 = ReactionSet.from_rxns([r, r.reverse()])
            a, b = list(rs2.get_rxns())
        else:
            rs2 = ReactionSet.from_rxns([base, base.reverse()], open_elem=el, chempot=v)
            a, b = list(rs2.get_rxns())
        kk = {e.entry_id: c for e, c in zip(ents, k)}
        for q, s in ((a, 1), (b, -1)):
            ctx.check(isinstance(q, OpenComputedReaction), "set-closed", lambda: f"{q!r}")
            if isinstance(q, OpenComputedReaction):
                ka = {e.entry_id: c for e, c in zip(q.entries, q.coefficients)}
                compare(q, ents, mu, [ka[e.entry_id] for e in ents], "set")
                ctx.check(all(close(ka[i], s * kk[i]) for i in kk), "set-coefficients", lambda: f"{ka} {kk}")
        if rng.random() < 0.5:
            n2 = mu2[el]
            rs3 = rs2.set_chempot(el, n2)
            q = next(iter(rs3.get_rxns()))
            ka = {e.entry_id: c for e, c in zip(q.entries, q.coefficients)}
            compare(q, ents, mu2, [ka[e.entry_id] for e in ents], "set-twice")
        # a history of chemical potentials, ending in any of them
        last, hist = rs2, []
        for _ in range(rng.randint(1, 4)):
            m = rng.choice([0, 0.0, None, v, mu2[el], rng.uniform(-5, 1)])
            last = last.set_chempot(rng.choice([el, gen.El(el)]), m)
            hist.append(m)
            ctx.count("chempot_changes")
            q = next(iter(last.get_rxns()))
            ka = {e.entry_id: c for e, c in zip(q.entries, q.coefficients)}
            compare(q, ents, {el: m or 0}, [ka[e.entry_id] for e in ents], "set-again")
        ctx.sig("history", len(hist), [m is None or m == 0 for m in hist])
        q = next(iter(rs2.get_rxns()))
        ka = {e.entry_id: c for e, c in zip(q.entries, q.coefficients)}
        compare(q, ents, mu, [ka[e.entry_id] for e in ents], "set-source")
        q = next(iter(last.set_chempot(None, None).get_rxns()))
        ctx.check(not isinstance(q, OpenComputedReaction) and close(abs(q.energy), abs(closed_energy)), "set-closed-again", lambda: f"{q!r} {closed_energy}")
    if not interp:
        t = gen.temperature(rng)
        ctx.count("temperature")
        es_t = entries(t)
        q = r.get_new_temperature(t) if rng.random() < 0.5 else r.get_new_temperature(t, {e.composition: e for e in es_t})
        compare(q, es_t, mu, k, "temperature")
        compare(r, ents, mu, k, "after-temperature")
    if rng.random() < 0.01:
        ctx.sample(f"{r!r}: dPhi={r.energy:.5f}")
