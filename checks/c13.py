"""C13: experimental entries reproduce the tabulated data."""
import gzip
import json
import math

import numpy as np
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.entries.computed_entries import CompositionEnergyAdjustment, ConstantEnergyAdjustment, TemperatureEnergyAdjustment

from rnv import gen
from rxn_network.core import Composition
from rxn_network.entries.corrections import CarbonDioxideAtmosphericCorrection
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.nist import NISTReferenceEntry

ID = "C13"
RAY = "none"
TECHNIQUE = "history monitor: every entry state compared with an independent lookup and interpolation of the raw tables"
CASES = {"quick": 40000, "thorough": 1500000}
CHUNK = 25
RULE = ("all formulas of both tables in reduced or multiplied form, at tabulated, interpolated, boundary and illegal temperatures, with four kinds "
        "of adjustments, and histories of temperature changes and reloads; distinct = (formula, table, temperatures, operations)")
NEED = ["oracle_decisions", "nist", "freed", "scaled", "interpolated", "refused_T", "refused_formula", "co2", "constant_adj", "moved", "copied", "json",
        "deprecated", "equal_pairs", "adjusted_other_cell"]
D = "/repo/src/rxn_network/data/"
TAB = {"nist": json.load(gzip.open(D + "nist/compounds.json.gz")), "freed": json.load(gzip.open(D + "freed/compounds.json.gz"))}
TAB = {t: {f: sorted((float(k), v) for k, v in d.items()) for f, d in x.items()} for t, x in TAB.items()}
DEPR = json.load(open(D + "nist/deprecated_compounds.json"))
KEYS = {t: sorted(f for f in x if Composition(f).reduced_formula == f) for t, x in TAB.items()}
CL = {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}


def lookup(tab, f, T):
    d = TAB[tab][f]
    for (a, ga), (b, gb) in zip(d, d[1:]):
        if a <= T <= b:
            return ga + (gb - ga) * (T - a) / (b - a)
    return d[0][1] if len(d) == 1 and T == d[0][0] else None


def close(a, b, tol=1e-8):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def case(ctx):
    rng = ctx.rng
    tab = rng.choice(["nist", "freed"])
    cls = CL[tab]
    ctx.count(tab)
    f = "CO2" if rng.random() < 0.12 else rng.choice(KEYS[tab])
    if tab == "nist" and rng.random() < 0.02:
        f = rng.choice(DEPR)
        ctx.count("deprecated")
        e = cls(Composition(f), rng.choice([300, 900, 1550.5]))
        ctx.check(e.energy == 0.0, "deprecated", lambda: f"{e.energy}")
        q = e.get_new_temperature(700)
        ctx.check(q.energy == 0.0 and q.temperature == 700, "deprecated", "")
        return
    lo, hi = TAB[tab][f][0][0], TAB[tab][f][-1][0]
    m = rng.choice([1, 1, 1, 2, 3, 4])
    base = Composition(f)
    comp = Composition({e: a * m for e, a in base.items()})
    if m > 1:
        ctx.count("scaled")
    n = float(comp.num_atoms)
    if rng.random() < 0.1:
        ctx.count("refused_T")
        for bad in (rng.choice([lo - 1, lo - 0.01, 0, -3]), rng.choice([hi + 1, hi + 0.01, 9e3, hi + 100])):
            try:
                cls(comp, bad)
                ctx.fail("illegal-temperature-accepted", f"{tab} {f} at {bad}, table {lo}-{hi}")
            except ValueError:
                ctx.check(True, "")
    if rng.random() < 0.05:
        ctx.count("refused_formula")
        for _ in range(5):
            d = gen.comp_dict(rng, rng.sample(["Li", "Na", "Pu", "Xe", "O", "Cl", "Fe", "Np"], 3), 2, 3, 7)
            g = gen.reduced(d)
            if g not in TAB[tab]:
                try:
                    cls(Composition(d), 500)
                    ctx.fail("unknown-formula-accepted", f"{tab} {g}")
                except ValueError:
                    ctx.check(True, "")

    def temp():
        x = rng.random()
        if x < 0.5 or lo == hi:
            t = rng.choice([t for t, _ in TAB[tab][f]])
            return rng.choice([int(t), float(t), np.float64(t)])
        if x < 0.6:
            return rng.choice([lo, hi])
        ctx.count("interpolated")
        return rng.choice([rng.uniform(lo, hi), rng.randrange(int(lo), int(hi))])

    specs = [(k, rng.uniform(-0.4, 0.4)) for k in rng.sample(["const", "comp", "temp", "co2"], rng.choice([0, 0, 1, 1, 2]))]
    if f == "CO2" and rng.random() < 0.6:
        specs = [s for s in specs if s[0] != "co2"] + [("co2", 0)]
    pco2 = rng.choice([0.0004, 0.5, 1e-6])

    def adj(T):
        out = []
        for k, v in specs:
            if k == "const":
                out.append((ConstantEnergyAdjustment(v, uncertainty=0.1, name="Stabilization Adjustment"), v))
            elif k == "comp":
                out.append((CompositionEnergyAdjustment(v, n, name="comp"), v * n))
            elif k == "temp":
                out.append((TemperatureEnergyAdjustment(v / 1e3, T, n, name="temp"), v / 1e3 * T * n))
            else:
                out.append((CarbonDioxideAtmosphericCorrection(n, T, pco2), n / 3 * 8.617e-5 * T * math.log(pco2)))
        return out

    ctx.count("co2", any(k == "co2" for k, _ in specs))
    ctx.count("constant_adj", any(k in ("const", "comp") for k, _ in specs))
    data = {"e_above_hull": 0.01, "n": [1]} if rng.random() < 0.4 else None
    T = temp()

    def build(T, c=comp):
        return cls(c, T, energy_adjustments=[a for a, _ in adj(T)] or None, data=json.loads(json.dumps(data)) if data else None)

    def verify(e, T, label):
        g = lookup(tab, f, float(T))
        want = g * m + sum(v for _, v in adj(T))
        ctx.check(type(e) is cls, f"class:{label}", lambda: f"{type(e)}")
        ctx.check(close(e.energy, want), f"energy:{label}", lambda: f"{tab} {f} x{m} at {T}: {e.energy} vs {want} adj={specs}")
        ctx.check(close(e.uncorrected_energy, g * m), f"uncorrected:{label}", lambda: f"{tab} {f} x{m} at {T}: {e.uncorrected_energy} vs {g * m}")
        ctx.check(close(e.energy_per_atom, want / n), f"energy-per-atom:{label}", lambda: f"{e.energy_per_atom} vs {want / n}")
        ctx.check(float(e.temperature) == float(T), f"temperature:{label}", lambda: f"{e.temperature} {T}")
        ctx.check(e.composition.reduced_formula == f and close(e.composition.num_atoms, n), f"composition:{label}", lambda: f"{e.composition}")
        ctx.check((e.data or {}) == (data or {}), f"data:{label}", lambda: f"{e.data} vs {data}")
        ctx.check(len(e.energy_adjustments) == len(specs), f"adjustments:{label}", lambda: f"{e.energy_adjustments}")
        ctx.check(e.is_experimental, "is_experimental", "")

    ctx.note(tab, f, "x", m, repr(T), specs, pco2)
    e = build(T)
    verify(e, T, "direct")
    cur, ops = e, []
    for _ in range(rng.randint(1, 4)):
        snap, en = json.dumps(cur.as_dict(), cls=MontyEncoder, sort_keys=True), cur.energy
        op = rng.choice(["move", "move", "dict", "json", "copy"])
        ops.append(op)
        if op == "move":
            ctx.count("moved")
            T = temp()
            new = cur.get_new_temperature(T)
        elif op == "dict":
            d = cur.as_dict()
            b4 = json.dumps(d, cls=MontyEncoder, sort_keys=True)
            new = cls.from_dict(d)
            ctx.check(json.dumps(d, cls=MontyEncoder, sort_keys=True) == b4, "from-dict-input", "from_dict changed its input")
        elif op == "copy":
            ctx.count("copied")
            new = cur.copy()
        else:
            ctx.count("json")
            new = MontyDecoder().process_decoded(json.loads(json.dumps(cur, cls=MontyEncoder)))
        ctx.note(op, repr(T))
        verify(new, T, op)
        d = build(T)
        ctx.count("equal_pairs")
        ctx.check(new == d and d == new and hash(new) == hash(d), f"not-equal-to-direct:{op}", lambda: f"{new!r} {d!r} {hash(new) == hash(d)}")
        ctx.check(json.dumps(cur.as_dict(), cls=MontyEncoder, sort_keys=True) == snap and cur.energy == en, f"source-changed:{op}", "")
        cur = new
    # the same substance and state written differently
    other = Composition({x: a * rng.choice([1, 2]) for x, a in base.items()})
    if other.reduced_formula == f:
        plain, q = cls(comp, T), cls(other, float(T) if rng.random() < 0.5 else T)
        ctx.check(plain == q and hash(plain) == hash(q), "equal-substance", lambda: f"{plain!r} {q!r} {plain == q} {hash(plain) == hash(q)}")
        ctx.check(close(plain.energy_per_atom, q.energy_per_atom), "cell-size", lambda: f"{plain.energy_per_atom} {q.energy_per_atom}")
        v, n2 = rng.uniform(0.05, 0.4), float(other.num_atoms)
        mk = lambda c, x: cls(c, T, energy_adjustments=[ConstantEnergyAdjustment(x, name="Stabilization Adjustment")])
        p, q = mk(comp, v * n), mk(other, v * n2)
        ctx.check(p == q and close(p.energy_per_atom, q.energy_per_atom), "equal-adjusted-substance", lambda: f"{p!r} {q!r}")
        ctx.check(p != plain and plain != p, "adjusted-equals-unadjusted", lambda: f"{p!r} {plain!r}")
        if n2 != n:
            ctx.count("adjusted_other_cell")
            ctx.check(p != mk(other, v * n), "same-total-other-cell", lambda: f"{p!r} {other}: equal though {p.energy_per_atom} vs {mk(other, v * n).energy_per_atom}")
    T2 = temp()
    if float(T2) != float(T):
        ctx.check(build(T2) != build(T), "different-T-equal", lambda: f"{T} {T2}")
    f2 = rng.choice(KEYS[tab])
    if f2 != f and lookup(tab, f2, float(T)) is not None:
        ctx.check(cls(Composition(f2), T) != cls(base, T), "different-formula-equal", lambda: f"{f} {f2}")
    ctx.sig(tab, f, m, round(float(T), 2), ops, [k for k, _ in specs])
    if rng.random() < 0.002:
        ctx.sample(f"{tab} {f} x{m} at {T} K: {e.energy:.4f} eV")
