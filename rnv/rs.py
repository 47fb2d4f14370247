"""Helpers for reaction sets: random reactions over an entry pool, canonical views."""
import numpy as np

from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction


def filler(rng, els, n, T):
    """n further computed entries (all kinds of formulas of the elements, many polymorphs)."""
    out = []
    for j in range(n):
        sub = rng.sample(els, rng.randint(1, min(3, len(els))))
        comp = Composition({x: rng.randint(1, 6) for x in sub})
        out.append(gen.GibbsComputedEntry(comp, rng.uniform(-2, 0.5), rng.uniform(5, 40), T, entry_id=f"fill-{j}"))
    return out


def pool(rng, n_el=None, n_comp=None, temps=1, big=0.0, **kw):
    """Entries at one or several temperatures; the same materials re-created at each temperature.
    With probability big there are several hundred of them."""
    kw.setdefault("poly", 0.4)
    kw.setdefault("interp", 0.3)
    kw.setdefault("nist", 0.3)
    kw.setdefault("unc", True)
    kw.setdefault("data", True)
    ents, els, T = gen.system(rng, n_el or rng.randint(2, 4), n_comp or rng.randint(4, 12), **kw)
    out = list(ents)
    if rng.random() < big:
        out += filler(rng, [str(x) for x in els], rng.choice([130, 260, 300, 520]), T)
    T2s = []
    for _ in range(temps - 1):
        T2 = rng.choice([t for t in range(300, 2001, 100) if t != T and t not in T2s])
        T2s.append(T2)
        for e in ents:
            if isinstance(e, InterpolatedEntry):
                out.append(InterpolatedEntry(e.composition, e.energy + rng.uniform(-0.5, 0.5), entry_id=e.entry_id))
                continue
            try:
                out.append(e.get_new_temperature(T2))
            except (ValueError, TypeError):
                pass
    return out, els, [T] + T2s


def at_one_T(ents):
    d = {}
    for e in ents:
        d.setdefault(getattr(e, "temperature", None), []).append(e)
    return d


def random_rxn(rng, ents, balanced=False, kmax=5, data=None):
    """A ComputedReaction over distinct compositions. Balanced (exactly) if requested, else arbitrary coefficients."""
    for _ in range(40):
        k = rng.randint(2, kmax)
        sub, seen = [], set()
        for e in rng.sample(ents, min(len(ents), k * 3)):
            f = e.composition.reduced_formula
            if f not in seen:
                seen.add(f)
                sub.append(e)
            if len(sub) == k:
                break
        if len(sub) < 2:
            continue
        if balanced:
            _, M = oracle.matrix([e.composition.reduced_composition for e in sub])
            ns = oracle.nullspace(M)
            if len(ns) != 1:
                continue
            v = ns[0]
            keep = [i for i in range(len(sub)) if v[i] != 0]
            if len(keep) < 2 or not (any(v[i] < 0 for i in keep) and any(v[i] > 0 for i in keep)):
                continue
            s = rng.choice([1, -1])
            c = [float(s * v[i]) * 1.0 for i in keep]
            m = rng.choice([1.0, max(abs(x) for x in c), abs(c[0])])
            sub, c = [sub[i] for i in keep], [x / m for x in c]
        else:
            c = [rng.choice([-1, 1]) * rng.choice([1.0, 2.0, 0.5, 1 / 3, rng.uniform(0.01, 20)]) for _ in sub]
            c[0], c[-1] = -abs(c[0]), abs(c[-1])
        o = rng.sample(range(len(sub)), len(sub))
        return ComputedReaction([sub[i] for i in o], np.array([c[i] for i in o]), data=data)
    return None


def dev(x):
    """Comparable view of nested data (numpy scalars -> python)."""
    if isinstance(x, dict):
        return {str(k): dev(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [dev(v) for v in x]
    if isinstance(x, np.ndarray):
        return dev(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def ent_view(e):
    return (gen.uid(e), round(float(e.energy), 7), repr(sorted(dev(e.data or {}).items())))


def rxn_view(r, data=True):
    """Order-free exact-ish identity of a reaction: class, phases (with energies), coefficients, data."""
    mu = sorted((str(k), round(float(v), 9)) for k, v in r.chempots.items()) if isinstance(r, OpenComputedReaction) else None
    return (type(r).__name__, tuple(sorted((ent_view(e), float(f"{float(c):.10g}")) for e, c in zip(r.entries, r.coefficients))),
            tuple(mu) if mu is not None else None, repr(sorted(dev(r.data or {}).items())) if data else "")


def ident(r):
    """Identity by phases only (entry ids, formulas) and coefficients."""
    return tuple(sorted((gen.uid(e), float(f"{float(c):.8g}")) for e, c in zip(r.entries, r.coefficients)))


def scale_class(r, by="uid"):
    """Canonical key of a reaction up to a positive factor, over entry identity."""
    key = gen.uid if by == "uid" else (lambda e: e.composition.reduced_formula)
    p = sorted((key(e), float(c)) for e, c in zip(r.entries, r.coefficients))
    s = abs(p[0][1])
    return tuple((k, oracle.snap(c / s)) for k, c in p)


def to_open(rng, rxns, el, mu):
    return [OpenComputedReaction(r.entries, r.coefficients, {gen.El(el): mu}, data=r.data) for r in rxns]
