"""C12: Gibbs entries follow the published free-energy formula."""
import json
import math

import numpy as np
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core.periodic_table import Element
from pymatgen.entries.computed_entries import (
    CompositionEnergyAdjustment,
    ConstantEnergyAdjustment,
    ManualEnergyAdjustment,
    TemperatureEnergyAdjustment,
)

from rnv import gen, rs
from rxn_network.core import Composition
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.gibbs import GibbsComputedEntry

ID = "C12"
RAY = "none"
TECHNIQUE = "history monitor: every entry state compared with an independent evaluation of the SISSO descriptor and chemical potential tables"
CASES = {"quick": 14000, "thorough": 400000}
CHUNK = 20
RULE = ("random compositions of 1-6 of the 83 tabulated elements, cell multiples, volumes, formation energies, five kinds of adjustments, "
        "integer/float/tabulated/boundary/illegal temperatures, and histories of temperature changes, copies and reloads; "
        "distinct = (composition, temperatures, operations)")
NEED = ["element_keys", "oracle_decisions", "elemental", "refused", "float_tabulated", "interpolated", "adjusted", "temp_adjusted", "json", "copied", "moved",
        "from_structure"]

MU = json.load(open("/repo/src/rxn_network/data/mu_elements.json"))
TABT = sorted(float(t) for t in MU)
ELS = sorted(MU["300"])
KB = 8.617e-5


def mu(el, T):
    i = max(0, min(len(TABT) - 2, int((T - 300) // 100)))
    a, b = TABT[i], TABT[i + 1]
    ga, gb = MU[str(int(a))][el], MU[str(int(b))][el]
    return ga + (gb - ga) * (T - a) / (b - a)


def sisso(amts, vol, T):
    """Eqs. (4) and (6) of Bartel et al. (2018), per atom."""
    els = list(amts)
    g = math.gcd(*[int(v) for v in amts.values()])
    a = {e: v / g for e, v in amts.items()}
    n = sum(a.values())
    m = 0.0
    for i in range(len(els)):
        for j in range(i):
            mi, mj = float(Element(els[i]).atomic_mass), float(Element(els[j]).atomic_mass)
            m += (a[els[i]] + a[els[j]]) * mi * mj / (mi + mj)
    m /= (len(els) - 1) * n
    return (-2.48e-4 * math.log(vol) - 8.94e-5 * m / vol) * T + 0.181 * math.log(T) - 0.882


def close(a, b, tol=1e-8):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def case(ctx):
    rng = ctx.rng
    k = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    els = rng.sample(ELS, k)
    if rng.random() < 0.1:
        els = ["C", "O"] if k == 2 else els
    base = gen.gcd_reduce({e: rng.randint(1, rng.choice([2, 4, 12])) for e in els})
    mult = rng.choice([1, 1, 2, 3, 4, 8])
    fe, vol = rng.choice([0.0, rng.uniform(-5, 1)]), rng.uniform(4, 60)

    def temp():
        x = rng.random()
        if x < 0.3:
            return rng.choice(range(300, 2001, 100))
        if x < 0.5:
            ctx.count("float_tabulated")
            return float(rng.choice(range(300, 2001, 100)))
        if x < 0.6:
            return rng.choice([300, 2000, 300.0, 2000.0, 300.5, 1999.5, np.float64(700), np.int64(800)])
        ctx.count("interpolated")
        return rng.choice([rng.uniform(300, 2000), rng.randrange(300, 2000), rng.randrange(30, 200) * 10 + 0.25])

    specs = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            specs.append((rng.choice(["const", "comp", "manual", "temp", "co2", "carbonate"]), rng.uniform(-0.5, 0.5), rng.uniform(0.01, 0.2)))
        specs = [s for i, s in enumerate(specs) if s[0] not in [x[0] for x in specs[:i]]]

    def adjustments(T, m):
        out = []
        n = sum(base.values()) * m
        for kind, v, u in specs:
            if kind == "const":
                out.append((ConstantEnergyAdjustment(v * m, uncertainty=u, name="c"), v * m))
            elif kind == "manual":
                out.append((ManualEnergyAdjustment(v * m), v * m))
            elif kind == "comp":
                out.append((CompositionEnergyAdjustment(v, n, name="comp"), v * n))
            elif kind == "temp":
                out.append((TemperatureEnergyAdjustment(v * 1e-3, T, n, name="t"), v * 1e-3 * T * n))
            elif kind == "co2":
                out.append((CarbonDioxideAtmosphericCorrection(n, T), n * KB * T * math.log(0.0004) / 3))
            elif kind == "carbonate":
                out.append((CarbonateCorrection(m), 0.83 * m))
        return out

    data = {"theoretical": bool(rng.getrandbits(1)), "oxidation_states": {gen.El(els[0]): 1.0}} if rng.random() < 0.4 else {}
    params = {"run_type": "GGA"} if rng.random() < 0.5 else None
    eid = rng.choice([None, "mp-1", "x_300"])
    T = temp()

    def build(T, m=mult):
        return GibbsComputedEntry(Composition({e: a * m for e, a in base.items()}), fe, vol, T,
                                  energy_adjustments=[a for a, _ in adjustments(T, m)] or None, parameters=params,
                                  data=json.loads(json.dumps({str(k): v for k, v in data.items() if k != "oxidation_states"})), entry_id=eid)

    def expected(T, m=mult):
        n = sum(base.values()) * m
        e = n * fe + sum(v for _, v in adjustments(T, m))
        if len(base) > 1:
            e += n * sisso(base, vol, T) - sum(a * m * mu(x, T) for x, a in base.items())
        return e

    if rng.random() < 0.15:
        ctx.count("refused")
        bad = rng.choice([299, 299.99, 2000.01, 2001, 0, -5, 1e6])
        try:
            build(bad)
            ctx.fail("illegal-temperature-accepted", f"{bad}")
        except ValueError:
            pass
        src = build(T)
        try:
            src.get_new_temperature(bad)
            ctx.fail("illegal-temperature-accepted", f"{bad} via get_new_temperature")
        except ValueError:
            pass
    ctx.note("composition", base, "x", mult, "fe", fe, "vol", vol, "T", repr(T), "adj", specs, "id", eid)
    e = build(T)
    if data:
        e.data = dict(data)
    if len(base) == 1:
        ctx.count("elemental")
    if specs:
        ctx.count("adjusted")
    if any(s[0] in ("temp", "co2") for s in specs):
        ctx.count("temp_adjusted")

    def verify(x, T, label, m=mult):
        want = expected(T, m)
        n = sum(base.values()) * m
        ctx.check(type(x) is GibbsComputedEntry, f"class:{label}", lambda: f"{type(x)}")
        ctx.check(close(x.energy, want), f"energy:{label}", lambda: f"{x.energy} vs {want}: {base} x{m} fe={fe} V={vol} T={T} {specs}")
        ctx.check(close(x.energy_per_atom, want / n), f"energy-per-atom:{label}", lambda: f"{x.energy_per_atom} vs {want / n}")
        ctx.check(close(x.correction, want - n * fe), f"correction:{label}", lambda: f"{x.correction} vs {want - n * fe}")
        ctx.check(float(x.temperature) == float(T), f"temperature:{label}", lambda: f"{x.temperature} vs {T}")
        ctx.check(dict(x.composition.get_el_amt_dict()) == {k: v * m for k, v in base.items()}, f"composition:{label}", lambda: f"{x.composition}")
        if eid:
            ctx.check(x.entry_id == eid, f"id:{label}", lambda: f"{x.entry_id}")
        ctx.check(rs.dev(x.data) == rs.dev(data if label != "direct" else x.data), f"data:{label}", lambda: f"{x.data} vs {data}")
        ctx.check((x.parameters or {}) == (params or {}), f"parameters:{label}", lambda: f"{x.parameters} vs {params}")
        ctx.check(len(x.energy_adjustments) == len(specs) + 1, f"adjustments:{label}", lambda: f"{x.energy_adjustments}")

    verify(e, T, "direct")
    m2 = rng.choice([1, 2, 5])
    ctx.check(close(build(T, m2).energy_per_atom, e.energy_per_atom), "cell-size", lambda: f"{build(T, m2).energy_per_atom} vs {e.energy_per_atom}")
    if rng.random() < 0.2:
        from pymatgen.core import Lattice, Structure
        n = int(sum(base.values()))
        if n <= 40:
            ctx.count("from_structure")
            sp = [x for x, a in base.items() for _ in range(int(a))]
            st = Structure(Lattice.cubic((vol * n) ** (1 / 3)), sp, [[i / n, (i * 0.37) % 1, (i * 0.11) % 1] for i in range(n)])
            s = GibbsComputedEntry.from_structure(st, fe, T, entry_id=eid, energy_adjustments=[a for a, _ in adjustments(T, 1)])
            ctx.check(close(s.energy, expected(T, 1), 1e-7), "from_structure", lambda: f"{s.energy} vs {expected(T, 1)}")

    cur, ops = e, []
    for _ in range(rng.randint(1, 5)):
        if data and rng.random() < 0.5:  # keyed by elements, as retrieved (saved and reloaded ones have names)
            cur.data = {k: dict(v) if isinstance(v, dict) else v for k, v in data.items()}
            ctx.count("element_keys")
        keys = {k: [(type(x), str(x)) for x in v] for k, v in cur.data.items() if isinstance(v, dict)}
        before = json.dumps(cur.as_dict(), cls=MontyEncoder, sort_keys=True, default=str)
        en = cur.energy
        op = rng.choice(["move", "move", "copy", "dict", "json"])
        ops.append(op)
        if op == "move":
            ctx.count("moved")
            T = temp()
            new = cur.get_new_temperature(T)
        elif op == "copy":
            ctx.count("copied")
            new = cur.copy()
        elif op == "dict":
            new = GibbsComputedEntry.from_dict(cur.as_dict())
        else:
            ctx.count("json")
            new = MontyDecoder().process_decoded(json.loads(json.dumps(cur, cls=MontyEncoder)))
        ctx.note(op, repr(T))
        verify(new, T, op)
        direct = build(T)
        ctx.check(new == direct, f"not-equal-to-direct:{op}", lambda: f"{new!r} vs {direct!r}")
        ctx.check(direct == new, f"not-equal-to-direct:{op}", lambda: f"{new!r} vs {direct!r}")
        if op != "move":
            ctx.check(new == cur and hash(new) == hash(cur), f"copy-not-equal:{op}", lambda: f"{new!r} {cur!r} {new.energy - cur.energy} {new.temperature!r} {cur.temperature!r}")
        if new is not cur:
            new.data["__probe"] = 1
            ctx.check("__probe" not in cur.data, f"shared-data:{op}", "the new entry shares its data with the source")
            new.data.pop("__probe")
            new.energy_adjustments.append(None)
            ctx.check(None not in cur.energy_adjustments, f"shared-adjustments:{op}", "")
            new.energy_adjustments.remove(None)
        ctx.check(json.dumps(cur.as_dict(), cls=MontyEncoder, sort_keys=True, default=str) == before and cur.energy == en, f"source-changed:{op}", "")
        now = {k: [(type(x), str(x)) for x in v] for k, v in cur.data.items() if isinstance(v, dict)}
        ctx.check(now == keys, f"source-data-changed:{op}", lambda: f"{now} was {keys}")
        cur = new
    ctx.sig(sorted(base.items()), mult, round(float(T), 3), ops, [s[0] for s in specs])
    if rng.random() < 0.003:
        ctx.sample(f"{gen.formula(base)} x{mult} at {T} K: {e.energy_per_atom:.4f} eV/atom after {ops}")
