"""C15: stability analysis agrees with direct energy minimisation."""
from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.utils import initialize_entry
from rxn_network.thermo.utils import expand_pd

ID = "C15"
RAY = "none"
TECHNIQUE = "runtime monitoring against an independent linear-programming oracle for the convex hull"
CASES = {"quick": 1500, "thorough": 40000}
CHUNK = 6
RULE = ("random systems of 1-12 elements (split into sub-diagrams), polymorphs, positive and negative formation energies, mixed entry classes; all "
        "entries' hull distances, filters at several cut-offs, stabilisation, interpolation; distinct = (entries, cut-offs)")
NEED = ["oracle_decisions", "hull", "filter", "filter_poly", "stabilize_unstable", "stabilize_stable", "interpolate_new", "interpolate_existing",
        "split", "one_element", "many_elements", "precomputed", "force"]
EPS = 2e-6


def case(ctx):
    rng = ctx.rng
    n_el = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 11, 12])
    els = gen.elements(rng, n_el)
    nc = {1: 0, 2: rng.randint(0, 7)}.get(n_el, rng.randint(2, 14))
    ents, els, T = gen.system(rng, n_comp=nc, els=els, frac=rng.choice([0, 0, 0.15]), poly=rng.choice([0, 0.5, 0.9]), el_poly=0.3, nist=0.2, interp=0.2,
                              ternary=rng.choice([2, 3, 4]), T=rng.choice([300, 800, 1300]))
    if rng.random() < 0.3:  # some clearly unfavourable phases
        d = gen.comp_dict(rng, els, 1, 3)
        if len(d) > 1:
            ents.append(gen.gibbs(rng, d, T, "high", fe=rng.uniform(0.3, 2)))
    ctx.count("one_element", n_el == 1)
    ctx.count("many_elements", n_el > 9)
    pre = rng.random() < 0.3
    s = GibbsEntrySet(ents, calculate_e_above_hulls=pre)
    L = list(s)
    amts = lambda c: {str(k): v for k, v in c.items()}
    H = {}
    for e in L:
        H[id(e)] = e.energy_per_atom - oracle.hull_energy(amts(e.composition), L)
    ctx.note("entries", [gen.desc(e) for e in L])
    ctx.sig([(gen.uid(e), round(e.energy, 6)) for e in L])
    pds = expand_pd(L)
    ctx.count("split", len(pds) > 1)
    for key, pd in pds.items():
        ks = set(key.split("-"))
        want = [e for e in L if {str(x) for x in e.composition.elements} <= ks]
        ctx.check(len(pd.all_entries) == len(want) and all(e in pd.all_entries for e in want), "expand_pd-entries", lambda: f"{key}")
    for e in L:
        ctx.check(any({str(x) for x in e.composition.elements} <= set(k.split("-")) for k in pds), "expand_pd-uncovered", lambda: gen.desc(e))
        got = s.get_e_above_hull(e)
        ctx.count("hull")
        ctx.check(abs(got - H[id(e)]) < EPS, "e-above-hull", lambda: f"{gen.desc(e)}: {got} vs {H[id(e)]}")
        if pre:
            ctx.count("precomputed")
            ctx.check(abs(e.data["e_above_hull"] - H[id(e)]) < EPS, "e-above-hull-stored", lambda: f"{gen.desc(e)}: {e.data['e_above_hull']} vs {H[id(e)]}")
    formulas = {e.composition.reduced_formula for e in L}
    for cut in rng.sample([0.0, 0.001, 0.02, 0.1, 0.5, 3.0, 1e9], 3) + [rng.uniform(0, 0.3)]:
        snap = [(gen.uid(e), e.energy) for e in L]
        poly = rng.random() < 0.5
        q = s.filter_by_stability(cut, include_polymorphs=poly)
        ctx.check(isinstance(q, GibbsEntrySet) and all(e in s for e in q), "filter-foreign", "")
        ctx.check([(gen.uid(e), e.energy) for e in s.entries] == [(gen.uid(e), e.energy) for e in L] and snap == [(gen.uid(e), e.energy) for e in L], "filter-changed-source", "")
        qi = {id(e) for e in q}
        for f in formulas:
            same = [e for e in L if e.composition.reduced_formula == f]
            if any(0 < abs(H[id(e)] - cut) < EPS and H[id(e)] > 1e-9 for e in same) or (cut == 0 and any(1e-9 < H[id(e)] < EPS for e in same)):
                continue
            kept = [e for e in same if id(e) in qi]
            allowed = [e for e in same if H[id(e)] <= cut + 1e-9]
            if cut == 0:  # degenerate with the hull formed by other phases: either answer is right
                allowed_strict = []
                for e in allowed:
                    rest = [x for x in L if x is not e]
                    try:
                        r = oracle.hull_energy(amts(e.composition), rest)
                    except ValueError:
                        r = None
                    if r is None or r > e.energy_per_atom + EPS:
                        allowed_strict.append(e)
                if len(allowed_strict) != len(allowed):
                    continue
            if poly:
                ctx.count("filter_poly")
                ctx.check({id(e) for e in kept} == {id(e) for e in allowed}, "filter-polymorphs",
                          lambda: f"{f} cut={cut}: kept {[gen.desc(e) for e in kept]} allowed {[(gen.desc(e), H[id(e)]) for e in allowed]}")
            else:
                ctx.count("filter")
                ok = len(kept) == (1 if allowed else 0)
                if ok and kept:
                    ok = abs(kept[0].energy_per_atom - min(e.energy_per_atom for e in same)) < 1e-9
                ctx.check(ok, "filter-ground-states", lambda: f"{f} cut={cut}: kept {[gen.desc(e) for e in kept]} of {[(gen.desc(e), H[id(e)]) for e in same]}")
    # stabilisation
    for e in rng.sample(L, min(4, len(L))):
        if 0 < H[id(e)] < EPS:
            continue
        tol = rng.choice([1e-3, 1e-3, 1e-2, 1e-4])
        force = rng.random() < 0.25
        n = e.composition.num_atoms
        snap = (gen.uid(e), e.energy, len(e.energy_adjustments))
        q = s.get_stabilized_entry(e, tol=tol, force=force) if rng.random() < 0.7 or force else s.get_stabilized_entry(e)
        if not force and tol != 1e-3:
            q = s.get_stabilized_entry(e, tol=tol)
        elif not force:
            tol = 1e-3
        ctx.check((gen.uid(e), e.energy, len(e.energy_adjustments)) == snap, "stabilize-changed-source", lambda: gen.desc(e))
        ctx.check(q.composition == e.composition and q.entry_id == e.entry_id and type(q) is type(e), "stabilize-identity", lambda: f"{q!r} {e!r}")
        if H[id(e)] < EPS and not force:
            ctx.count("stabilize_stable")
            ctx.check(q is e or abs(q.energy - e.energy) < 1e-9, "stable-changed", lambda: f"{gen.desc(e)} -> {gen.desc(q)}")
            continue
        ctx.count("force" if force else "stabilize_unstable")
        low = (e.energy_per_atom - H[id(e)]) * n  # energy on the hull
        ctx.check(low - tol - EPS * n <= q.energy <= low - tol + EPS * n, "stabilize-energy",
                  lambda: f"{gen.desc(e)} hull {low} tol {tol}: stabilised {q.energy} (n={n}, e_hull={H[id(e)]})")
        back = GibbsEntrySet([x for x in L if x is not e] + [q])
        ctx.check(back.get_e_above_hull(q) <= 1e-9, "stabilized-not-stable", lambda: f"{gen.desc(q)}: {back.get_e_above_hull(q)}")
        ctx.check(q in back.filter_by_stability(0.0), "stabilized-filtered-out", lambda: gen.desc(q))
    # interpolation
    for _ in range(3):
        d = gen.comp_dict(rng, els, 1, min(4, len(els)), 5)
        if len(d) == 1:
            e0 = next(iter(d))
            d = {e0: 2 if e0 in gen.DIATOMIC else 1}
        c = Composition(d).reduced_composition
        f = c.reduced_formula
        tol = rng.choice([1e-3, 0.0, 0.02])
        if f in formulas:
            ctx.count("interpolate_existing")
        else:
            ctx.count("interpolate_new")
        spelled = gen.formula({k: v * rng.choice([1, 2]) for k, v in d.items()}) if rng.random() < 0.0 else gen.formula(d)
        q = s.get_interpolated_entry(spelled, tol) if tol != 1e-3 else s.get_interpolated_entry(spelled)
        want = oracle.hull_energy(amts(c), L) - tol
        ctx.check(isinstance(q, InterpolatedEntry) and q.composition.reduced_formula == f, "interpolated-identity", lambda: f"{q!r}")
        ctx.check(abs(q.energy_per_atom - want) < EPS, "interpolated-energy", lambda: f"{f}: {q.energy_per_atom} vs {want}")
        if tol > 1e-4:
            ctx.check(GibbsEntrySet(L + [q]).get_e_above_hull(q) <= 1e-9, "interpolated-not-stable", lambda: f"{f}")
        k = initialize_entry(spelled, s)
        if f in formulas:
            ctx.check(abs(k.energy_per_atom - min(e.energy_per_atom for e in L if e.composition.reduced_formula == f)) < 1e-9 and k in s, "initialize-existing", lambda: f"{k!r}")
        else:
            ctx.check(abs(k.energy_per_atom - (oracle.hull_energy(amts(c), L) - 1e-3)) < EPS, "initialize-interpolated", lambda: f"{k!r}")
    if rng.random() < 0.01:
        ctx.sample(f"{els}: {len(L)} entries, {sum(h < 1e-6 for h in H.values())} stable, {len(pds)} diagrams")
