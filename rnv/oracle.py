"""Independent reference computations (exact rational linear algebra, LP, brute force)."""
from collections import defaultdict
from fractions import Fraction

import numpy as np
from scipy.optimize import linprog


STEP = 1.7390851332e-5


def snap(x):
    """x on a grid whose boundaries no small fraction lies on, so that noise does not decide a comparison"""
    return float(f"{round(float(x) / STEP) * STEP:.7g}")


def comp_amounts(comp):
    """{symbol: Fraction} of a pymatgen composition with rational amounts."""
    return {str(el): Fraction(amt).limit_denominator(10**6) for el, amt in comp.items()}


def nullspace(M):
    """Exact rational nullspace basis (list of vectors) of a list-of-rows matrix."""
    M = [[Fraction(x) for x in row] for row in M]
    rows, cols = len(M), len(M[0]) if M else 0
    piv, r = [], 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        pv = M[r][c]
        M[r] = [x / pv for x in M[r]]
        for i in range(rows):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    basis = []
    for fcol in [c for c in range(cols) if c not in piv]:
        v = [Fraction(0)] * cols
        v[fcol] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -M[i][fcol]
        basis.append(v)
    return basis


def matrix(comps):
    am = [comp_amounts(c) for c in comps]
    els = sorted({e for a in am for e in a})
    return els, [[a.get(e, Fraction(0)) for a in am] for e in els]


def balance_exact(reactants, products):
    """-> (nullity, coeffs or None): with nullity 1, coefficients (signed, products > 0) if a reaction with every
    phase strictly on its own side exists."""
    comps = list(reactants) + list(products)
    _, M = matrix(comps)
    ns = nullspace(M)
    if len(ns) != 1:
        return len(ns), None
    v = ns[0]
    nr = len(reactants)
    for s in (1, -1):
        w = [s * x for x in v]
        if all(x < 0 for x in w[:nr]) and all(x > 0 for x in w[nr:]):
            return 1, w
    return 1, None


def element_sums(comps, coeffs):
    out = defaultdict(float)
    for c, k in zip(comps, coeffs):
        for el, a in c.items():
            out[str(el)] += float(a) * float(k)
    return dict(out)


def hull_energy(target, entries, skip=(), energies=None):
    """Minimum energy per atom of any mixture of entries at the composition (dict symbol->amt). LP."""
    tot = sum(target.values())
    els = sorted(target)
    use = [i for i, e in enumerate(entries) if i not in skip and {str(x) for x in e.composition.elements} <= set(els)]
    A = np.array([[entries[i].composition.get_atomic_fraction(el) for i in use] for el in els])
    b = np.array([target[el] / tot for el in els])
    c = np.array([entries[i].energy_per_atom if energies is None else energies[i] for i in use])
    r = linprog(c, A_eq=A, b_eq=b, bounds=[(0, None)] * len(use), method="highs")
    if r.status != 0:
        return None
    return r.fun


def match(a, b, key, vec, tol=1e-6):
    """Compare two collections as multisets up to tolerance. Returns (missing_from_a, extra_in_a)."""
    ga, gb = defaultdict(list), defaultdict(list)
    for x in a:
        ga[key(x)].append(x)
    for x in b:
        gb[key(x)].append(x)
    missing, extra = [], []
    for k in set(ga) | set(gb):
        rest = list(gb.get(k, []))
        for x in ga.get(k, []):
            vx = np.asarray(vec(x), float)
            for j, y in enumerate(rest):
                vy = np.asarray(vec(y), float)
                if vx.shape == vy.shape and np.allclose(vx, vy, rtol=tol, atol=tol):
                    rest.pop(j)
                    break
            else:
                extra.append(x)
        missing += rest
    return missing, extra
