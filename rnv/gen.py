"""Random but chemically well-formed inputs."""
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

from rxn_network.core import Composition
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry

METALS = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Al", "Si"]
ANIONS = ["O", "Cl", "F", "S", "N", "P", "C", "H", "Br"]
DIATOMIC = {"O", "Cl", "F", "N", "H"}


def elements(rng, n, anion=True):
    k = max(1, n // 2) if anion and n > 1 else 0
    k = rng.randint(1, k) if k else 0
    els = rng.sample(ANIONS, k) + rng.sample(METALS, n - k)
    rng.shuffle(els)
    return els


def el_formula(el):
    return el + "2" if el in DIATOMIC else el


def gcd_reduce(d):
    from math import gcd
    from functools import reduce

    g = reduce(gcd, d.values())
    return {k: v // g for k, v in d.items()}


def comp_dict(rng, els, lo=2, hi=3, mx=4):
    k = rng.randint(min(lo, len(els)), min(hi, len(els)))
    sub = rng.sample(els, k)
    return gcd_reduce({e: rng.randint(1, mx) for e in sub})


def ratio(d):
    """Composition up to the size of the formula unit."""
    n = sum(d.values())
    return tuple(sorted((str(k), round(v / n, 6)) for k, v in d.items()))


def formula(d):
    return "".join(f"{k}{v}" for k, v in d.items())


def reduced(d):
    return Composition(formula(d)).reduced_formula


def gibbs(rng, d, T, eid, fe=None, mult=1, vol=None, adjustments=None, data=None, parameters=None):
    c = Composition({k: v * mult for k, v in d.items()})
    return GibbsComputedEntry(
        composition=c,
        formation_energy_per_atom=rng.uniform(-3, 0.3) if fe is None else fe,
        volume_per_atom=rng.uniform(6, 30) if vol is None else vol,
        temperature=T,
        energy_adjustments=adjustments,
        data=dict(data or {}),
        parameters=dict(parameters or {}),
        entry_id=eid,
    )


def element_entry(rng, el, T, eid=None, fe=0.0, mult=None):
    m = mult or rng.choice([1, 1, 2, 4])
    return gibbs(rng, {el: 2 if el in DIATOMIC else 1}, T, eid or f"el-{el}", fe=fe, mult=m)


def temperature(rng, floats=True):
    r = rng.random()
    if r < 0.6 or not floats:
        return rng.choice(range(300, 2001, 100))
    if r > 0.93:
        return rng.randrange(300, 1900) + rng.choice([0.15, 0.5, 0.65])  # e.g. given in degrees centigrade
    return rng.randrange(300, 2000)


def system(rng, n_el=3, n_comp=7, T=None, poly=0.25, el_poly=0.1, cells=True, nist=0.0, interp=0.0, els=None, mx=4,
           unc=False, data=False, ternary=3, frac=0.0, big=0.06):
    """A list of entries with every element present, several polymorphs and cell sizes, mixed entry classes.
    frac: share of non-stoichiometric compounds (Li0.5CoO2), big: share of compounds with large formula units."""
    T = temperature(rng) if T is None else T
    els = els or elements(rng, n_el)
    out, seen, ratios = [], set(), set()
    for e in els:
        out.append(element_entry(rng, e, T, mult=None if cells else 1))
        if rng.random() < el_poly:
            out.append(element_entry(rng, e, T, eid=f"el-{e}-b", fe=rng.uniform(0.01, 0.2), mult=None if cells else 1))
    tries = 0
    while len(seen) < n_comp and tries < 300:
        tries += 1
        d = comp_dict(rng, els, 2, ternary, mx if rng.random() >= big else 14)
        odd = rng.random() < frac
        if odd:
            d[rng.choice(sorted(d))] = rng.choice([0.1, 0.25, 0.5, 0.9, 1.05, 1.5])
        f = reduced(d)
        k = ratio(d)
        if f in seen or len(d) < 2 or k in ratios:
            continue
        seen.add(f)
        ratios.add(k)
        # a mixing-entropy-like envelope makes many phases stable but not all
        tot = sum(d.values())
        x = [v / tot for v in d.values()]
        env = -2.2 * sum(xi * (1 - xi) for xi in x) - 1.0
        nd = {k: v for k, v in d.items()}
        n_poly = 1 + (rng.random() < poly) + (rng.random() < poly * 0.3)
        base = env + rng.uniform(-0.5, 0.45)
        for j in range(n_poly):
            adj = None
            if unc and rng.random() < 0.5:
                adj = [ConstantEnergyAdjustment(rng.uniform(-0.1, 0.1), uncertainty=rng.uniform(0.01, 0.3), name=f"adj{j}")]
            dd = {}
            if data:
                if rng.random() < 0.6:
                    dd["theoretical"] = rng.random() < 0.5
                if rng.random() < 0.4:
                    dd["icsd_ids"] = [1, 2][: rng.randint(0, 2)]
            out.append(gibbs(rng, nd, T, f"mp-{len(out)}-{f}", fe=base + j * rng.uniform(0.0, 0.15),
                             mult=rng.choice([1, 1, 2, 3]) if cells and not odd else 1, adjustments=adj, data=dd))
        if interp and rng.random() < interp:
            c = Composition(formula(nd))
            out.append(InterpolatedEntry(c, c.num_atoms * (base + rng.uniform(-0.1, 0.3)), entry_id=f"interp-{f}"))
    if nist:
        have = {e.composition.reduced_formula for e in out}
        cands = [f for f in NISTReferenceEntry.REFERENCES if f not in NISTReferenceEntry.DEPRECATED
                 and set(map(str, Composition(f).elements)) <= set(els) and len(Composition(f).elements) > 1]
        for f in sorted(cands):
            if rng.random() < nist and f not in have:
                try:
                    out.append(NISTReferenceEntry(Composition(f), T))
                except ValueError:
                    pass
    rng.shuffle(out)
    return out, els, T


def uid(e):
    return f"{type(e).__name__}|{e.entry_id}|{getattr(e, 'temperature', '')}|{e.composition.formula}"


def desc(e):
    return f"{e.entry_id}:{e.composition.formula.replace(' ', '')}@{e.energy_per_atom:.4f}"


def El(x):
    return Element(x)


def phases_with_nullity(rng, els, nullity=1, mx=4, tries=25, extra=None):
    """Distinct reduced compositions (dicts) over els whose exact balance has the given null-space dimension,
    and the basis. None if unlucky."""
    from rnv import oracle

    if len(els) < 2:
        return None
    for _ in range(tries):
        n = len(els) + nullity if rng.random() < 0.8 else rng.randint(2, len(els) + nullity)
        ph, seen = [], set()
        for _ in range(n * 6):
            if len(ph) == n:
                break
            if rng.random() < 0.15:
                e = rng.choice(els)
                d = {e: 2 if e in DIATOMIC else 1}
            else:
                d = comp_dict(rng, els, 1, min(4, len(els)), mx)
                if len(d) == 1:
                    e = next(iter(d))
                    d = {e: 2 if e in DIATOMIC else 1}
            f = tuple(sorted(d.items()))
            if f not in seen:
                seen.add(f)
                ph.append(d)
        if len(ph) < 2:
            continue
        comps = [Composition(d).reduced_composition for d in ph]
        ns = oracle.nullspace(oracle.matrix(comps)[1])
        if len(ns) == nullity:
            return [{str(e): int(round(a)) for e, a in c.items()} for c in comps], ns
    return None


def balanced_coeffs(rng, els, nullity=1, mx=4, drop_zero=True):
    """-> (list of composition dicts, float coefficients) of an exactly balanced reaction, no zero coefficients."""
    from fractions import Fraction

    for _ in range(20):
        r = phases_with_nullity(rng, els, nullity, mx)
        if r is None:
            continue
        ph, ns = r
        v = [sum(Fraction(w) * b[i] for w, b in zip(ws, ns)) for ws in [[rng.choice([1, -1, 2, 3]) for _ in ns]] for i in range(len(ph))]
        keep = [i for i in range(len(ph)) if v[i] != 0]
        if len(keep) < 2 or not (any(v[i] < 0 for i in keep) and any(v[i] > 0 for i in keep)):
            continue
        a = [abs(v[i]) for i in keep]
        if max(a) / min(a) > 500:
            continue
        s = rng.choice([1, -1])
        k = [float(s * v[i]) for i in keep]
        m = max(map(abs, k))
        sc = rng.choice([1.0, 1.0 / m, 1.0 / abs(k[0]), 7.3 / m, 0.5])
        return [ph[i] for i in keep], [x * sc for x in k]
    return None
