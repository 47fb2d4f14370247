"""C03: closed reaction energies, uncertainties and temperature changes."""
import math

import numpy as np
from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment

from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction

ID = "C03"
RAY = "none"
CASES = {"quick": 12000, "thorough": 400000}
CHUNK = 40
RULE = ("exactly balanced reactions over 2-5 elements (sometimes built around a tabulated compound) between computed, experimental, "
        "interpolated and plain entries in random cells, with random energy adjustments and uncertainties; re-evaluated along random "
        "temperature sequences; distinct = (phases, entry classes, coefficients)")
NEED = ["oracle_decisions", "energy", "uncertainty", "temperature", "experimental", "balance_constructor", "nan_uncertainty", "mixed_temperatures"]
ASSUMPTIONS = ["the phases of a reaction have distinct compositions (for several polymorphs of one composition in one reaction the "
               "library documents use of the lowest energy)"]


def factor(d, e):
    """Formula units (reduced as in d) in entry e's cell."""
    el, a = next(iter(d.items()))
    return float(e.composition[el]) / a


def close(a, b, tol=1e-8):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def exp_formulas(cls, els, T):
    out = []
    for f, tab in cls.REFERENCES.items():
        if f in getattr(cls, "DEPRECATED", []):
            continue
        c = Composition(f)
        if c.reduced_formula == f and {str(x) for x in c.elements} <= set(els) and min(tab) <= T <= max(tab):
            out.append(f)
    return sorted(out)


_cache = {}


def pick_exp(rng, T):
    cls = rng.choice([NISTReferenceEntry, NISTReferenceEntry, FREEDReferenceEntry])
    keys = _cache.setdefault(cls, sorted(f for f in cls.REFERENCES if f not in getattr(cls, "DEPRECATED", [])))
    for _ in range(30):
        f = rng.choice(keys)
        tab = cls.REFERENCES[f]
        if not (min(tab) <= T <= max(tab)) or Composition(f).reduced_formula != f:
            continue
        els = [str(e) for e in Composition(f).elements]
        if 1 < len(els) <= 4 and all(e in gen_elems() for e in els):
            return cls, f, els
    return None


def gen_elems():
    return set(gen.METALS) | set(gen.ANIONS)


def case(ctx):
    rng = ctx.rng
    T = gen.temperature(rng)
    exp = pick_exp(rng, T) if rng.random() < 0.4 else None
    if exp:
        cls, f, els = exp
        extra = [e for e in gen.elements(rng, 3) if e not in els]
        els = els + extra[: max(0, rng.randint(2, 4) - len(els))]
    else:
        els = gen.elements(rng, rng.randint(2, 5))
    got = None
    for _ in range(6):
        got = gen.balanced_coeffs(rng, els, rng.choice([1, 1, 2]), 3)
        if got and exp:
            target = {str(e): int(a) for e, a in Composition(f).items()}
            # decompose/form the tabulated compound together with the elements
            ph = [target] + [{e: 2 if e in gen.DIATOMIC else 1} for e in target]
            got = (ph, [1.0] + [-target[e] / (2 if e in gen.DIATOMIC else 1) for e in target])
        if got:
            break
    if not got:
        return
    ph, k = got
    order = rng.sample(range(len(ph)), len(ph))
    ph, k = [ph[i] for i in order], np.array(k)[order] * rng.choice([1, -1])

    def spec(i, d):
        """a recipe (T, mult) -> entry, and whether its temperature can change"""
        fm = gen.reduced(d)
        fe, vol = rng.uniform(-3, 1), rng.uniform(6, 40)
        adjs = [(rng.uniform(-0.2, 0.2), rng.choice([0.0, 0.01, 0.3, float("nan")])) for _ in range(rng.choice([0, 0, 1, 2]))]

        def adj(mult):
            return [ConstantEnergyAdjustment(v * mult, uncertainty=u * mult, name=f"a{j}") for j, (v, u) in enumerate(adjs)]

        if exp and fm == f:
            return lambda t, m: exp[0](Composition(f), t), True, f"{exp[0].__name__}"
        x = rng.random()
        if x < 0.65:
            return (lambda t, m: GibbsComputedEntry(Composition({e: a * m for e, a in d.items()}), fe, vol, t, energy_adjustments=adj(m),
                                                    entry_id=f"g{i}"), True, "gibbs")
        n = sum(d.values())
        if x < 0.85:
            return (lambda t, m: InterpolatedEntry(Composition({e: a * m for e, a in d.items()}), fe * n * m, energy_adjustments=adj(m),
                                                   entry_id=f"i{i}"), False, "interpolated")
        return (lambda t, m: ComputedEntry(Composition({e: a * m for e, a in d.items()}), fe * n * m, energy_adjustments=adj(m),
                                           entry_id=f"c{i}"), False, "plain")

    specs = [spec(i, d) for i, d in enumerate(ph)]
    if rng.random() < 0.5:  # allow temperature changes
        specs = [s if s[1] else spec_gibbs(rng, i, d) for i, (s, d) in enumerate(zip(specs, ph))]
    mults = [rng.choice([1, 1, 2, 3, 4]) for _ in ph]
    Ts = [T] * len(ph)
    if rng.random() < 0.25:  # phases at different temperatures (e.g. a hot gas over a cold solid)
        for i, s in enumerate(specs):
            t = gen.temperature(rng)
            try:
                s[0](t, 1)
            except ValueError:
                continue  # outside a table
            Ts[i] = t
        ctx.count("mixed_temperatures", len(set(Ts)) > 1)
    ents = [s[0](t, m) for s, m, t in zip(specs, mults, Ts)]
    ctx.note([s[2] for s in specs], [e.composition.formula for e in ents], list(k), Ts)
    ctx.sig([s[2] for s in specs], sorted((gen.reduced(d), round(x, 5)) for d, x in zip(ph, k)))
    if any(s[2].endswith("ReferenceEntry") for s in specs):
        ctx.count("experimental")

    def expected(es, coeffs):
        en = sum(c * e.energy / factor(d, e) for c, e, d in zip(coeffs, es, ph))
        var, nan = 0.0, False
        for c, e, d in zip(coeffs, es, ph):
            u = e.correction_uncertainty
            if math.isnan(u):
                nan, u = True, 0.0
            var += (c * u / factor(d, e)) ** 2
        atoms = sum(c * sum(d.values()) for c, d in zip(coeffs, ph) if c > 0)
        return en, math.sqrt(var), atoms, nan

    def compare(r, es, coeffs, label, unc=True):
        en, un, at, nan = expected(es, coeffs)
        ctx.count("energy")
        ctx.check(close(r.energy, en), f"energy:{label}", lambda: f"{r.energy} vs {en} for {r}")
        ctx.check(close(r.energy_per_atom, en / at), f"energy-per-atom:{label}", lambda: f"{r.energy_per_atom} vs {en / at} for {r}")
        ctx.check(close(r.num_atoms, at), f"num-atoms:{label}", lambda: f"{r.num_atoms} vs {at} for {r}")
        if unc:
            ctx.count("uncertainty")
            if nan:
                ctx.count("nan_uncertainty")
            ctx.check(close(r.energy_uncertainty, un, 1e-6), f"uncertainty:{label}", lambda: f"{r.energy_uncertainty} vs {un} for {r}")
            ctx.check(close(r.energy_uncertainty_per_atom, un / at, 1e-6), f"uncertainty-per-atom:{label}", lambda: f"{r}")

    r = ComputedReaction(ents, k)
    compare(r, ents, k, "direct")
    # order of phases, size of cells
    o = rng.sample(range(len(ph)), len(ph))
    es2 = [s[0](t, m) for s, t, m in zip(specs, Ts, [rng.choice([1, 2, 5]) for _ in ph])]
    r2 = ComputedReaction([es2[i] for i in o], k[o])
    ctx.check(close(r2.energy, r.energy, 1e-7) and close(r2.energy_per_atom, r.energy_per_atom, 1e-7), "cell-or-order-dependent",
              lambda: f"{r.energy} vs {r2.energy}: {r} / {r2}")
    if not any(math.isnan(e.correction_uncertainty) for e in ents + es2):
        ctx.check(close(r2.energy_uncertainty, r.energy_uncertainty, 1e-6), "uncertainty-cell-dependent", lambda: f"{r} {ents}")
    # via balancing
    R, P = [e for e, x in zip(ents, k) if x < 0], [e for e, x in zip(ents, k) if x > 0]
    rb = ComputedReaction.balance(R, P)
    if rb.lowest_num_errors == 0:
        kb = {id(e): c for e, c in zip(rb.entries, rb.coefficients)}
        compare(rb, ents, [kb[id(e)] for e in ents], "balance")
        ctx.count("balance_constructor")
        ctx.check(len(rb.reactant_entries) == len(R) and len(rb.product_entries) == len(P)
                  and all(any(a is b for b in R) for a in rb.reactant_entries), "entry-sides", lambda: f"{rb}")
    # temperature
    if all(s[1] for s in specs):
        before = [(e.energy, getattr(e, "temperature", None)) for e in ents]
        e0, u0 = r.energy, r.energy_uncertainty
        cur, steps = r, rng.choice([1, 1, 2, 3])
        for _ in range(steps):
            t = rng.choice(Ts) if rng.random() < 0.3 else gen.temperature(rng)
            try:
                es_t = [s[0](t, m) for s, m in zip(specs, mults)]
            except ValueError:
                continue  # outside a table
            ctx.count("temperature")
            if rng.random() < 0.5:
                cur = cur.get_new_temperature(t)
            else:
                cur = cur.get_new_temperature(t, {e.composition: e for e in es_t})
            compare(cur, es_t, k, "temperature")
            ctx.check([getattr(e, "temperature", None) for e in cur.entries] == [t] * len(ents), "entry-temperature",
                      lambda: f"{t}: {[e.temperature for e in cur.entries]}")
        ctx.check([(e.energy, getattr(e, "temperature", None)) for e in ents] == before and r.energy == e0
                  and ComputedReaction(r.entries, r.coefficients).energy == e0 and r.energy_uncertainty == u0,
                  "original-changed", lambda: f"{r}")
    if rng.random() < 0.01:
        ctx.sample(f"{r} at {T} K: {r.energy:.5f} eV ± {r.energy_uncertainty:.5f} ({', '.join(s[2] for s in specs)})")


def spec_gibbs(rng, i, d):
    fe, vol = rng.uniform(-3, 1), rng.uniform(6, 40)
    return (lambda t, m: GibbsComputedEntry(Composition({e: a * m for e, a in d.items()}), fe, vol, t, entry_id=f"g{i}"), True, "gibbs")
