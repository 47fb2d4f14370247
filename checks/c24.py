"""C24: building Gibbs entry sets from zero-temperature entries."""
import json
import logging
import math
import warnings

import numpy as np
from pymatgen.analysis.phase_diagram import PhaseDiagram
from pymatgen.core.structure import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry, ConstantEnergyAdjustment

from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.entries.utils import process_entries

ID = "C24"
RAY = "none"
CASES = {"quick": 1500, "thorough": 60000}
CHUNK = 4
RULE = ("random zero-temperature entries (tabulated, carbonate, CO2 and invented formulas, polymorphs, several cells, element polymorphs, run types, adjustments) over 1-11 elements; "
        "random temperatures and options; sets built repeatedly from the same raw entries; distinct by (raw entries, temperature, options)")
TECHNIQUE = ("runtime monitoring: each entry of the real GibbsEntrySet is compared with an independently computed one (tables read directly, energies from the raw data, corrections by rule), "
             "stability with linear programming; raw entries and earlier sets are compared before and after")
NEED = ["oracle_decisions", "nist", "freed", "both_tables", "ignored_solid", "not_ignored_solid", "table_out_of_range", "carbonate", "not_carbonate_run_type", "co2_computed", "co2_table",
        "element_polymorph", "polymorph", "many_elements", "process", "filter_temperature", "requested_present", "requested_filtered", "requested_interpolated", "lost_table",
        "e_above_hull", "minimized", "rebuilt", "from_pd", "adjusted_raw", "in_between_temperature"]
ASSUMPTIONS = ["with both tables enabled, a formula in both appears once from each", "stability is judged at the filter temperature when one is given",
               "entries whose energy above hull is within 1e-6 eV/atom of the limit may be on either side"]
IGNORE = json.load(open("/repo/src/rxn_network/data/nist/ignore_solids.json"))
K = 8.617e-5


def raw_entry(rng, d, eid, energy_per_atom, run_type="GGA", mult=1, adj=None, data=None):
    sites = [el for el, n in d.items() for _ in range(n * mult)]
    vol = rng.uniform(8, 25) * len(sites)
    s = Structure(Lattice.cubic(vol ** (1 / 3)), sites, [[rng.random() for _ in range(3)] for _ in sites])
    return ComputedStructureEntry(s, energy_per_atom * len(sites), energy_adjustments=adj, parameters={"run_type": run_type} if run_type else {}, data=data if data is not None else {}, entry_id=eid)


def raw(rng, ctx):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5]) if rng.random() > 0.06 else rng.choice([10, 11])
    els = gen.elements(rng, min(n, 8)) if n < 10 else rng.sample(gen.METALS, n - 3) + ["O", "Cl", "S"]
    if n >= 3 and rng.random() < 0.5:
        els = ["C", "O"] + [e for e in els if e not in ("C", "O")][: n - 2]
    out = []
    ref = {e: rng.uniform(-9, -1) for e in els}
    for e in els:
        out.append(raw_entry(rng, {e: 2 if e in gen.DIATOMIC else 1}, f"mp-{e}", ref[e], rng.choice(["GGA", None]), mult=rng.choice([1, 2])))
        if rng.random() < 0.25:
            ctx.count("element_polymorph")
            out.append(raw_entry(rng, {e: 1}, f"mp-{e}-b", ref[e] + rng.uniform(0.01, 0.3), mult=rng.choice([1, 4])))
    E = set(els)
    tab = [f for T in (NISTReferenceEntry, FREEDReferenceEntry) for f in T.REFERENCES if "D" not in "".join(map(str, Composition(f).get_el_amt_dict())) and {str(x) for x in Composition(f).elements} <= E
           and Composition(f).num_atoms <= 20]
    fs = set(rng.sample(sorted(set(tab)), min(len(set(tab)), rng.randint(0, 6))))
    if {"C", "O"} <= E:
        fs |= {f for f in ("CO2", "CO") if rng.random() < 0.6}
        for m in els:
            if m not in ("C", "O") and rng.random() < 0.5:
                fs.add(Composition({m: rng.choice([1, 2]), "C": 1, "O": 3}).reduced_formula)
                if rng.random() < 0.3:
                    fs.add(Composition({m: 1, "C": 2, "O": rng.choice([4, 6])}).reduced_formula)
    ign = [f for f in IGNORE if {str(x) for x in Composition(f).elements} <= E and Composition(f).num_atoms <= 20]
    fs |= set(rng.sample(ign, min(len(ign), 2)))
    for _ in range(rng.randint(0, 5)):
        fs.add(gen.reduced(gen.comp_dict(rng, els, 2, 3, 4)))
    for f in sorted(fs):
        c = Composition(f)
        if len(c.elements) < 2:
            continue
        d = {str(k): int(round(v)) for k, v in c.items()}
        base = sum(v * ref[k] for k, v in d.items()) / sum(d.values()) + rng.uniform(-2.5, 0.2)
        for j in range(1 + (rng.random() < 0.3) + (rng.random() < 0.1)):
            adj = None
            if rng.random() < 0.25:
                ctx.count("adjusted_raw")
                adj = [ConstantEnergyAdjustment(rng.uniform(-1, 0.5), uncertainty=0.05, name="MP2020 anion correction")]
            data = {"theoretical": rng.random() < 0.5} if rng.random() < 0.5 else {}
            if rng.random() < 0.2:
                data["nested"] = {"a": [1, 2]}
            ctx.count("polymorph", j > 0)
            out.append(raw_entry(rng, d, f"mp-{f}-{j}", base + j * rng.uniform(0, 0.1), rng.choice(["GGA", "GGA", "GGA+U", "GGA+U", "R2SCAN", None]), mult=rng.choice([1, 1, 2]) if c.num_atoms < 15 else 1, adj=adj, data=data))
    rng.shuffle(out)
    return out, els


def table(cls, f, T):
    d = cls.REFERENCES.get(f)
    if d is None or T < min(d) or T > max(d):
        return None
    ts = sorted(d)
    return float(np.interp(T, ts, [float(d[t]) for t in ts]))


def refs(entries):
    r = {}
    for e in entries:
        if len(e.composition.elements) == 1:
            k = str(e.composition.elements[0])
            if k not in r or e.energy_per_atom < r[k][0]:
                r[k] = e.energy_per_atom, e
    return r


def expected(ctx, entries, T, nist, freed, carb, co2, ignore):
    """{key: energy of the cell, ...} of all entries; key = (class, id or formula)"""
    R = refs(entries)
    out = {}
    for e in entries:
        c = e.composition
        f = c.reduced_formula
        if len(c.elements) == 1:
            if R[str(c.elements[0])][1] is e:
                out["GibbsComputedEntry", e.entry_id] = dict(energy=0.0, atoms=c.num_atoms, formula=f, comp=c, adj=[], raw=e)
            continue
        hit = False
        for name, on, cls in (("NISTReferenceEntry", nist, NISTReferenceEntry), ("FREEDReferenceEntry", freed, FREEDReferenceEntry)):
            if not on:
                continue
            if f in cls.REFERENCES and table(cls, f, T) is None:
                ctx.count("table_out_of_range")
            if name[0] == "N" and f in IGNORE:
                ctx.count("ignored_solid" if ignore else "not_ignored_solid")
                if ignore:
                    continue
            g = table(cls, f, T)
            if g is None:
                continue
            ctx.count("both_tables", hit)
            hit = True
            ctx.count("nist" if name[0] == "N" else "freed")
            adj = []
            if f == "CO2" and co2:
                adj.append(3 * (K * T * math.log(4e-4) / 3))
                ctx.count("co2_table")
            out[name, f] = dict(energy=g + sum(adj), atoms=Composition(f).num_atoms, formula=f, comp=Composition(f), adj=adj, raw=None)
        if hit:
            continue
        n = c.num_atoms
        fe = (e.energy - sum(a * R[str(el)][0] for el, a in c.items())) / n
        g = GibbsComputedEntry(Composition(c), fe, e.structure.volume / len(e.structure), T, entry_id="x")
        adj = []
        d = {str(k): v for k, v in c.items()}
        if {"C", "O"} <= set(d) and abs(d["O"] / d["C"] - 3) < 1e-8:
            if e.parameters.get("run_type") in ("GGA", "GGA+U"):
                if carb:
                    adj.append(0.83 * d["C"])
                    ctx.count("carbonate")
            else:
                ctx.count("not_carbonate_run_type")
        if f == "CO2" and co2:
            adj.append(n * K * T * math.log(4e-4) / 3)
            ctx.count("co2_computed")
        out["GibbsComputedEntry", e.entry_id] = dict(energy=g.energy + sum(adj), atoms=n, formula=f, comp=c, adj=adj, raw=e)
    return out


def key(e):
    n = type(e).__name__
    return (n, e.entry_id) if n == "GibbsComputedEntry" else (n, e.composition.reduced_formula)


def state(entries):
    return json.dumps([[e.entry_id, e.energy, e.as_dict()["data"], e.as_dict()["parameters"], [a.as_dict() for a in e.energy_adjustments], sorted(map(str, e.data))] for e in entries], sort_keys=True, default=str)


def members(S):
    return sorted((key(e), round(float(e.energy), 9), json.dumps(e.data, sort_keys=True, default=str), e.temperature) for e in S)


def compare(ctx, S, want, T, opts, strict_data=True):
    got = {}
    for e in S:
        k = key(e)
        ctx.check(k not in got, "twice", lambda: f"{k} is in the set twice")
        got[k] = e
    miss, extra = set(want) - set(got), set(got) - set(want)
    ctx.check(not miss, "missing", lambda: f"{sorted(miss)} missing at {T} K with {opts}")
    ctx.check(not extra, "extra", lambda: f"{sorted(extra)} should not be there at {T} K with {opts}")
    for k in set(want) & set(got):
        w, e = want[k], got[k]
        ctx.check(abs(e.energy / e.composition.num_atoms - w["energy"] / w["atoms"]) < 1e-6, "energy", lambda: f"{k} at {T} K: {e.energy_per_atom} instead of {w['energy'] / w['atoms']} ({opts})")
        ctx.check(e.composition.reduced_formula == w["formula"] and abs(e.composition.num_atoms - w["atoms"]) < 1e-9, "composition", lambda: f"{k}: {e.composition}")
        ctx.check(e.temperature == T, "temperature", lambda: f"{k}: {e.temperature}")
        ctx.check(sorted(round(float(a.value), 7) for a in e.energy_adjustments if "Gibbs" not in a.name) == sorted(round(x, 7) for x in w["adj"]), "adjustments",
                  lambda: f"{k}: {[(a.name, a.value) for a in e.energy_adjustments]} instead of {w['adj']}")
        if w["raw"] is not None and strict_data:
            ctx.check({a: b for a, b in e.data.items() if a not in ("e_above_hull", "idx")} == w["raw"].data and e.parameters == w["raw"].parameters, "data", lambda: f"{k}: {e.data} {e.parameters} from {w['raw'].data}")
            if len(w["comp"].elements) == 1:
                ctx.check(abs(e.energy) < 1e-9, "element-energy", lambda: f"{k}: {e.energy}")
    return got


def hulls(ctx, S):
    L = list(S)
    return {key(e): e.energy_per_atom - oracle.hull_energy({str(k): v for k, v in e.composition.items()}, L) for e in L}


def case(ctx):
    rng = ctx.rng
    logging.disable(logging.CRITICAL)
    entries, els = raw(rng, ctx)
    ctx.note([(e.entry_id, e.composition.formula, round(e.energy_per_atom, 3), e.parameters) for e in entries])
    before = state(entries)
    ctx.count("many_elements", len(els) > 9)
    earlier = []
    builds = rng.choice([1, 2, 2, 3])
    for b in range(builds):
        T = gen.temperature(rng)
        if rng.random() < 0.3:
            T = rng.choice([300, 500, 700, 800, 1000, 1200, 1500, 2000])
        ctx.count("in_between_temperature", T % 100 != 0)
        o = dict(include_nist_data=rng.random() < 0.7, include_freed_data=rng.random() < 0.4, ignore_nist_solids=rng.random() < 0.6)
        c = dict(apply_carbonate_correction=rng.random() < 0.75, apply_atmospheric_co2_correction=rng.random() < 0.75)
        h = rng.random() < 0.4
        m = rng.random() < 0.15
        if rng.random() < 0.45 and len(els) <= 9:
            process(ctx, entries, els, T, o)
        else:
            want = expected(ctx, entries, T, o["include_nist_data"], o["include_freed_data"], c["apply_carbonate_correction"], c["apply_atmospheric_co2_correction"], o["ignore_nist_solids"])
            ctx.note("options", T, o, c, "hull", h, "min", m)
            if len(els) <= 9 and rng.random() < 0.3:
                ctx.count("from_pd")
                S = GibbsEntrySet.from_pd(PhaseDiagram(entries), T, calculate_e_above_hulls=h, minimize_obj_size=m, **o, **c)
            else:
                S = GibbsEntrySet.from_computed_entries(rng.sample(entries, len(entries)), T, calculate_e_above_hulls=h, minimize_obj_size=m, **o, **c)
            ctx.check(S.calculate_e_above_hulls == h and S.minimize_obj_size == m, "flags", lambda: f"{S.calculate_e_above_hulls} {h} {S.minimize_obj_size} {m} ({len(els)} elements)")
            got = compare(ctx, S, want, T, (o, c), strict_data=not m)
            if m:
                ctx.count("minimized")
                ctx.check(all(not e.parameters and set(e.data) <= {"e_above_hull"} for e in S), "minimize", "metadata left over")
            if h:
                ctx.count("e_above_hull")
                H = hulls(ctx, S)
                for k, e in got.items():
                    v = e.data.get("e_above_hull")
                    ctx.check(v is not None and abs(v - H[k]) < 1e-6, "e-above-hull", lambda: f"{k}: {v} instead of {H[k]}")
            else:
                ctx.check(all("e_above_hull" not in e.data for e in S), "e-above-hull-unasked", "e_above_hull left in the data of a set built without it")
            earlier.append((S, members(S), T))
            if rng.random() < 0.3:
                S2 = S.get_entries_with_new_temperature(rng.choice([300, 900, 1500]))
                S2.build_indices()
            elif rng.random() < 0.3:
                S.build_indices()
                earlier[-1] = (S, members(S), T)
        ctx.check(state(entries) == before, "raw-modified", lambda: f"the raw entries were changed by building with {T} {o} {c} e_above_hull={h} minimize={m}")
        for S0, was, T0 in earlier:
            ctx.check(members(S0) == was, "earlier-set-modified", lambda: f"the set built at {T0} K changed when another one was built at {T} K")
        ctx.count("rebuilt", b > 0)
        ctx.sig(sorted(e.entry_id for e in entries), T, sorted(o.items()), sorted(c.items()))
    ctx.sample(dict(elements=els, raw=len(entries), builds=builds, last=T))


def process(ctx, entries, els, T, o):
    rng = ctx.rng
    ctx.count("process")
    Tf = rng.choice([None, 300, 300, 700, 1200]) if rng.random() < 0.6 else None
    cutoff = rng.choice([0.0, 0.0, 0.03, 0.1, 0.5])
    poly = rng.random() < 0.4
    h = rng.random() < 0.4
    have = sorted({e.composition.reduced_formula for e in entries})
    req = rng.sample(have, min(len(have), rng.choice([0, 1, 3])))
    if rng.random() < 0.4 and len(els) > 1:
        req.append(gen.formula(gen.comp_dict(rng, els, 2, 3, 4)))
    ctx.note("process", T, "filter", Tf, cutoff, poly, req, o)
    T0 = Tf or T
    args = (o["include_nist_data"], o["include_freed_data"], True, True, o["ignore_nist_solids"])
    class Quiet:
        count = staticmethod(lambda *a: None)
    W0 = expected(ctx, entries, T0, *args)
    W1 = expected(Quiet, entries, T, *args)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S = process_entries(entries, T, cutoff, filter_at_temperature=Tf, include_polymorphs=poly, formulas_to_include=req, calculate_e_above_hulls=h, **o)
    got = {}
    for e in S:
        ctx.check(key(e) not in got, "process-twice", lambda: f"{key(e)}")
        got[key(e)] = e
    # stability at the filter temperature, independently
    class E:
        def __init__(s, k, w):
            s.k, s.composition, s.energy_per_atom, s.formula = k, w["comp"], w["energy"] / w["atoms"], w["formula"]
    L = [E(k, w) for k, w in W0.items()]
    H = {x.k: x.energy_per_atom - oracle.hull_energy({str(a): v for a, v in x.composition.items()}, L) for x in L}
    F1 = {}
    for k, w in W1.items():
        F1.setdefault(w["formula"], set()).add(k)
    must, may = set(), set()
    lowest = {}
    for x in L:
        lowest[x.formula] = min(lowest.get(x.formula, 9e9), x.energy_per_atom)
    for x in L:
        if H[x.k] < cutoff + 1e-6 and (poly or x.energy_per_atom < lowest[x.formula] + 1e-6):
            (must if H[x.k] < cutoff - 1e-6 or (H[x.k] < 1e-9 and cutoff == 0.0 and x.formula in els) else may).add(x.k)
            if cutoff == 0.0 and H[x.k] < 1e-9:
                may.add(x.k)
    # a polymorph that ties with the lowest one may stand in for it
    inter = []
    for f in req:
        rf = Composition(f).reduced_formula
        c = [x for x in L if x.formula == rf]
        if c:
            k = min(c, key=lambda x: x.energy_per_atom)
            ctx.count("requested_present")
            ctx.count("requested_filtered", H[k.k] > cutoff + 1e-6)
            if sum(x.energy_per_atom < k.energy_per_atom + 1e-6 for x in c) == 1:
                must.add(k.k)
            may |= {x.k for x in c if x.energy_per_atom < k.energy_per_atom + 1e-6}
        else:
            inter.append(rf)
            ctx.count("requested_interpolated")
        ctx.check(any(e.composition.reduced_formula == rf for e in S), "requested", lambda: f"{rf} was requested but is not in the set; {sorted(got)}")
    # at the final temperature: entries keep their kind unless the table ends
    ctx.count("filter_temperature", bool(Tf) and Tf != T)

    def final(k):
        w = W0[k]
        if k in W1 or k[0] == "GibbsComputedEntry":
            return {k}
        ctx.count("lost_table")
        c = [x for x in W1 if W1[x]["formula"] == w["formula"]]
        m = min(W1[x]["energy"] / W1[x]["atoms"] for x in c)
        return {x for x in c if W1[x]["energy"] / W1[x]["atoms"] < m + 1e-9}

    ok = set()
    for k in must | may:
        fk = final(k)
        if not Tf:
            fk = {k}
        ok |= fk
        if k in must:
            # a formula in both tables survives in the other one
            alt = any(g[0] != "GibbsComputedEntry" and W0.get(g, {}).get("formula") == W0[k]["formula"] for g in got)
            ctx.check(bool(fk & set(got)) or (k not in W1 and alt), "process-missing", lambda: f"{k} (energy above hull {H[k]:.5f} at {T0} K, limit {cutoff}) is not in the set at {T} K; {sorted(got)}")
    for k, e in got.items():
        if k[0] == "InterpolatedEntry":
            ctx.check(k[1] in inter, "process-interpolated-unasked", f"{k}")
            continue
        ctx.check(k in ok, "process-extra", lambda: f"{k} should not be in the set: above hull {H.get(k)} limit {cutoff} polymorphs {poly} requested {req}")
        if k in W1:
            ctx.check(abs(e.energy_per_atom - W1[k]["energy"] / W1[k]["atoms"]) < 1e-6, "process-energy", lambda: f"{k} at {T} K (filtered at {Tf}): {e.energy_per_atom} instead of {W1[k]['energy'] / W1[k]['atoms']}")
        elif k[0] == "GibbsComputedEntry":
            R = [x for x in entries if x.entry_id == k[1]]
            w = expected(Quiet, entries, T, False, False, True, True, True)[k]
            ctx.check(abs(e.energy_per_atom - w["energy"] / w["atoms"]) < 1e-6, "process-energy", lambda: f"{k} at {T} K: {e.energy_per_atom} instead of {w['energy'] / w['atoms']}")
        ctx.check(e.temperature == T, "process-temperature", lambda: f"{k} {e.temperature}")
    L1 = [E(k, w) for k, w in W1.items()]
    for rf in inter:
        e = got.get(("InterpolatedEntry", rf))
        if ctx.check(e is not None, "interpolated-missing", rf):
            c = Composition(rf)
            w = oracle.hull_energy({str(a): v for a, v in c.items()}, L1) - 1e-3
            ctx.check(abs(e.energy_per_atom - w) < 1e-6, "interpolated-energy", lambda: f"{rf} at {T} K (filtered at {Tf}): {e.energy_per_atom} instead of {w}")
    if h:
        ctx.count("e_above_hull")
        HH = hulls(ctx, S)
        for k, e in got.items():
            ctx.check(e.data.get("e_above_hull") is not None and abs(e.data["e_above_hull"] - HH[k]) < 1e-6, "process-e-above-hull", lambda: f"{k}: {e.data.get('e_above_hull')} instead of {HH[k]}")
    ctx.sig(sorted(e.entry_id for e in entries), T, Tf, cutoff, poly, sorted(req), sorted(o.items()))
