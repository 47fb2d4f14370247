"""C16: interface reaction hulls and competition scores against their definitions."""
from fractions import Fraction
from functools import lru_cache
from math import comb

import numpy as np

from checks import c09
from rnv import gen
from rxn_network.core import Composition
from rxn_network.costs.calculators import (
    PrimaryCompetitionCalculator,
    SecondaryCompetitionAreaCalculator,
    SecondaryCompetitionCalculator,
    SecondaryCompetitionMaxCalculator,
    SecondaryCompetitionWithEhullCalculator,
)
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction

ID = "C16"
RAY = "none"
CASES = {"quick": 2000, "thorough": 60000}
CHUNK = 16
RULE = ("sets of reactions between two phases: synthetic (prescribed fractions and energies, ties, repeats, decompositions of either phase, up to 25 "
        "hull vertices) and enumerated from random entry sets, closed and open; non-trivial if some reaction is below zero energy; distinct by points")
TECHNIQUE = ("runtime monitoring: hull energies, lookups and scores observed on the real objects are compared with an independent lower envelope and a "
             "direct recursion over orders of forming hull phases, and across permutations of the reactions and exchange of the two phases")
NEED = ["oracle_decisions", "synthetic", "enumerated", "open", "decomposition_left", "decomposition_right", "many_vertices", "fast_vs_recursive",
        "c2_defined", "same_fraction", "swapped", "large_counts", "areas"]
ASSUMPTIONS = ["distinct fractions differ by at least 1e-4 (the lookups identify fractions within a relative 1e-5)",
               "the unreacted phases themselves (energy zero at fractions 0 and 1) count as competitors, as in the code's endpoints",
               "secondary competition is compared with its definition only where the set of hull vertices is unambiguous (depth above 1e-7 eV/atom)"]


def envelope(pts):
    """Lower envelope of points: sorted vertices (monotone chain, exact comparisons in floats)."""
    best = {}
    for x, y in pts:
        if x not in best or y < best[x]:
            best[x] = y
    P = sorted(best.items())
    out = []
    for p in P:
        while len(out) >= 2:
            (x1, y1), (x2, y2) = out[-2], out[-1]
            if (x2 - x1) * (p[1] - y1) - (y2 - y1) * (p[0] - x1) <= 0:
                out.pop()
            else:
                break
        out.append(p)
    return out


def at(env, x):
    for (x1, y1), (x2, y2) in zip(env, env[1:]):
        if x1 <= x <= x2:
            return y1 if x2 == x1 else y1 + (y2 - y1) * (x - x1) / (x2 - x1)
    raise ValueError(x)


def depth(env, i):
    (x1, y1), (x2, y2), (x3, y3) = env[i - 1: i + 2]
    return y1 + (y3 - y1) * (x2 - x1) / (x3 - x1) - y2


def average_release(seq):
    """Mean over all orders (binary trees) of the summed altitudes; seq = left point, intermediates..., right point."""
    n = len(seq)

    @lru_cache(None)
    def f(i, j):
        if j - i < 2:
            return 0.0, 1
        val, tot = 0.0, 0
        for k in range(i + 1, j):
            (x1, y1), (x2, y2), (x3, y3) = seq[i], seq[k], seq[j]
            h = y2 - (y1 + (y3 - y1) * (x2 - x1) / (x3 - x1))
            lv, ln = f(i, k)
            rv, rn = f(k, j)
            val += h * ln * rn + lv * rn + rv * ln
            tot += ln * rn
        return val, tot

    v, t = f(0, n - 1)
    return v / t, v, t


def max_release(seq):
    m = 0.0
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            for k in range(j + 1, len(seq)):
                (x1, y1), (x2, y2), (x3, y3) = seq[i], seq[j], seq[k]
                m = min(m, y2 - (y1 + (y3 - y1) * (x2 - x1) / (x3 - x1)))
    return m


def side(env, lo, hi, x, yx):
    """Points on one side of x: unreacted phase, its decomposition if lower, hull vertices, the hull at x."""
    if lo == 0:
        seq = [(0.0, 0.0)] + ([env[0]] if env[0][1] < -1e-7 else []) + [p for p in env if 0 < p[0] < x] + [(x, yx)]
    else:
        seq = [(x, yx)] + [p for p in env if x < p[0] < 1] + ([env[-1]] if env[-1][1] < -1e-7 else []) + [(1.0, 0.0)]
    return seq


def hull_area(seq):
    """area of the convex hull of points"""
    up = [(x, -y) for x, y in envelope([(x, -y) for x, y in seq])]
    low = envelope(seq)
    area = lambda c: sum((x2 - x1) * (y1 + y2) / 2 for (x1, y1), (x2, y2) in zip(c, c[1:]))
    return area(up) - area(low)


def entry(comp, e_pa, name):
    c = Composition(comp)
    return InterpolatedEntry(c, c.num_atoms * e_pa, entry_id=name)


def synthetic(rng, ctx):
    """Reactions A + B -> product(s) with prescribed energies."""
    els = gen.elements(rng, 4, anion=False)
    A = {els[0]: rng.randint(1, 2), els[1]: rng.randint(1, 3)}
    B = {els[2]: rng.randint(1, 2), els[3]: rng.randint(1, 3)}
    A, B = gen.gcd_reduce(A), gen.gcd_reduce(B)
    ea, eb = rng.uniform(-2, 0), rng.uniform(-2, 0)
    EA, EB = entry(A, ea, "A"), entry(B, eb, "B")
    na, nb = sum(A.values()), sum(B.values())
    c1, c2 = Composition(A).reduced_composition, Composition(B).reduced_composition
    rx, k = [], 0
    nmax = rng.choice([1, 2, 4, 8, 14, 30])
    shape = rng.choice(["random", "convex", "mixed", "positive", "ties"])
    dup = []
    for _ in range(nmax):
        p, q = rng.choice([(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (rng.randint(1, 9), rng.randint(1, 9)), (rng.randint(1, 40), rng.randint(1, 40))])
        if dup and rng.random() < 0.15:
            p, q = rng.choice(dup)
            ctx.count("same_fraction")
        dup.append((p, q))
        x = q * nb / (p * na + q * nb)
        y = {"random": rng.uniform(-1, 0.3), "convex": -2.0 * x * (1 - x) + rng.uniform(0, 0.002), "mixed": -1.0 * x * (1 - x) * rng.choice([1, 1, 0.3, -0.5]),
             "positive": rng.uniform(-0.05, 1.0), "ties": rng.choice([-0.5, -0.25, 0.0, 0.1, -0.1])}[shape]
        k += 1
        prod = {**{e: p * v for e, v in A.items()}, **{e: q * v for e, v in B.items()}}
        nat = p * na + q * nb
        P = entry(prod, (p * na * ea + q * nb * eb) / nat + y, f"P{k}")
        f = rng.choice([1.0, 0.5, 2.0, 1 / p])
        m = P.composition.num_atoms / P.composition.reduced_composition.num_atoms
        ents, co = [EA, EB, P], [-p * f, -q * f, m * f]
        o = rng.sample(range(3), 3)
        rx.append(ComputedReaction([ents[i] for i in o], np.array([co[i] for i in o])))
    for X, E, e, nm in ((A, EA, ea, "left"), (B, EB, eb, "right")):
        if rng.random() < 0.3 and len(X) == 2:
            # decomposition of the phase into two other phases
            (s1, v1), (s2, v2) = X.items()
            y = rng.choice([rng.uniform(-0.6, 0), rng.uniform(-0.6, 0), rng.uniform(0, 0.5)])
            n = v1 + v2
            T = (e + y) * n
            w = rng.random()
            P1, P2 = entry({s1: 1}, w * T / v1, f"D1{nm}"), entry({s2: 1}, (1 - w) * T / v2, f"D2{nm}")
            rf = lambda s: Composition(s).reduced_composition.num_atoms
            rx.append(ComputedReaction([E, P1, P2], np.array([-1.0, v1 / rf(s1), v2 / rf(s2)])))
    rng.shuffle(rx)
    return c1, c2, rx


def enumerated(rng, ctx, open_):
    els = gen.elements(rng, 3)
    if open_ and "O" not in els:
        els[0] = "O"
    ents, els, T = gen.system(rng, 3, rng.randint(3, 6), els=els, poly=0.1, el_poly=0, mx=3)
    oe = [e for e in ents if e.composition.reduced_formula == "O2"][:1] if open_ else []
    rest = [e for e in ents if e.composition.reduced_formula != "O2" or not open_][:9]
    if len(rest) < 3:
        return None
    cols = c09.brute(rest, 2, oe) + (c09.brute(rest, 2, []) if open_ else [])
    if not cols:
        return None
    pick = rng.choice(cols)
    R = [e for e in pick[0] if e not in oe]
    if len(R) < 2:
        R = R + [rng.choice([e for e in rest if e is not R[0]])]
    fs = [e.composition.reduced_formula for e in R[:2]]
    if len(set(fs)) < 2 or any(Composition(f).elements == [gen.El("O")] and open_ for f in fs):
        return None
    A, B = R[:2]
    mu = rng.uniform(-2.5, 0)
    rx = []
    for a, b, w in cols:
        if all(e is A or e is B or e in oe for e in a) and any(e is A or e is B for e in a):
            c = np.array([float(v) for v in w])
            if open_:
                # both phases must hold closed atoms
                if all(set(e.composition.elements) == {gen.El("O")} for e in b):
                    continue
                rx.append(OpenComputedReaction(list(a) + list(b), c, {gen.El("O"): mu}))
            else:
                rx.append(ComputedReaction(list(a) + list(b), c))
    if not any(A in r.reactant_entries for r in rx) or not any(B in r.reactant_entries for r in rx):
        return None
    return Composition(fs[0]), Composition(fs[1]), rx


def coordinate(r, c1, c2):
    mu = getattr(r, "chempots", None) or {}
    open_els = {str(k) for k in mu}
    amt = {}
    for e, c in zip(r.entries, r.coefficients):
        if c < 0:
            rc = e.composition.reduced_composition
            amt[rc.reduced_formula] = amt.get(rc.reduced_formula, 0) - float(c) * sum(v for k, v in rc.items() if str(k) not in open_els)
    a, b = amt.get(c1.reduced_formula, 0), amt.get(c2.reduced_formula, 0)
    return b / (a + b)


def case(ctx):
    rng = ctx.rng
    if ctx.index % 200 == 0:
        irh = object.__new__(InterfaceReactionHull)
        for n in range(0, 25):
            ctx.check(InterfaceReactionHull.count(irh, n) == comb(2 * n, n) // (n + 1), "count", f"number of orders for {n} phases")
            ctx.count("large_counts")
    r = rng.random()
    got = synthetic(rng, ctx) if r < 0.65 else enumerated(rng, ctx, r > 0.85)
    if not got:
        return
    c1, c2, rx = got
    is_open = any(isinstance(x, OpenComputedReaction) for x in rx)
    ctx.count("synthetic" if r < 0.65 else "open" if is_open else "enumerated")
    pts = [(coordinate(x, c1, c2), float(x.energy_per_atom)) for x in rx]
    # identical fractions up to rounding are one fraction
    pts = [(round(x, 12), y) for x, y in pts]
    if all(abs(y) < 1e-9 for _, y in pts):
        return  # no area: nothing defined
    full = pts + [(0.0, 0.0), (1.0, 0.0)]
    fr = sorted({x for x, _ in full})
    if any(b - a < 1e-4 for a, b in zip(fr, fr[1:])):
        return  # the lookups treat fractions that differ by less than 1e-5 (relative) as equal
    if any(rx[i] == rx[j] and abs(pts[i][1] - pts[j][1]) > 1e-9 for i in range(len(rx)) for j in range(i)):
        return  # equal within the tolerance of reaction equality yet different energies: lookups by reaction are ambiguous
    env = envelope(full)
    ctx.note(c1, c2, [(str(x), p) for x, p in zip(rx, pts)])
    order = rng.sample(range(len(rx)), len(rx))
    hulls = [(InterfaceReactionHull(c1, c2, list(rx)), False, "as given"), (InterfaceReactionHull(c1, c2, [rx[i] for i in order]), False, "permuted"),
             (InterfaceReactionHull(c2, c1, list(rx)), True, "exchanged")]
    ctx.count("swapped")
    if env[0][1] < -1e-7:
        ctx.count("decomposition_left")
    if env[-1][1] < -1e-7:
        ctx.count("decomposition_right")
    if len(env) > 8:
        ctx.count("many_vertices")
    clear = all(depth(env, i) > 1e-7 for i in range(1, len(env) - 1)) and all(abs(p[1]) < 1e-12 or p[1] < -1e-7 for p in (env[0], env[-1]))
    # a point that nearly but not exactly touches the hull makes the vertex set ambiguous
    for x, y in full:
        if y - at(env, x) < 1e-7 and (x, y) not in env and not any(abs(x - q[0]) < 1e-12 and abs(y - q[1]) < 1e-12 for q in env):
            clear = False
    xs = [p[0] for p in env]
    queries = [rng.random() for _ in range(4)] + [0.0, 1.0] + [rng.choice(pts)[0] for _ in range(2)]
    queries = [q for q in queries if all(q == v or abs(q - v) > 1e-4 for v in xs)]
    sample_rx = rng.sample(range(len(rx)), min(len(rx), 4))
    for h, swap, name in hulls:
        fx = (lambda v: 1 - v) if swap else (lambda v: v)
        for q in queries:
            ref = at(env, q)
            g = h.get_hull_energy(fx(q))
            ctx.check(abs(g - ref) < 1e-7 + 1e-6 * abs(ref), "hull-energy", lambda: f"{name}: hull at {q}: {g}, expected {ref}; points {full}")
            rr = h.get_reactions_by_coordinate(fx(q))
            ctx.check(abs(sum(rr.values()) - 1) < 1e-9 and all(w >= 0 for w in rr.values()), "weights", f"{name}: {list(rr.values())}")
            xx = sum(w * coordinate_any(k, c1, c2, h, swap) for k, w in rr.items())
            ctx.check(abs(xx - q) < 1e-6, "weights-fraction", lambda: f"{name}: at {q}: {[(str(k), w) for k, w in rr.items()]} mixes to {xx}")
            ctx.check(abs(sum(w * k.energy_per_atom for k, w in rr.items()) - ref) < 1e-6, "reactions-at-fraction", f"{name} at {q}")
            st = list(h.stable_reactions)
            ctx.check(all(k in st for k in rr), "not-stable", f"{name} at {q}")
        ctx.check(len(h.reactions) == len(rx) + 2 and all(x in h.reactions for x in rx), "reactions", f"{name}: {len(h.reactions)} of {len(rx)} + 2")
        stable = list(h.stable_reactions)
        ctx.check(len(stable) + len(h.unstable_reactions) == len(rx) + 2, "partition", name)
        sv = [(coordinate_any(s, c1, c2, h, swap), float(s.energy_per_atom)) for s in stable]
        for x, y in sv:
            ctx.check(abs(y - at(env, min(max(x, 0), 1))) < 1e-7, "stable-above-hull", lambda: f"{name}: stable reaction at ({x},{y}), hull {at(env, x)}; {full}")
        for i, (x, y) in enumerate(env):
            if 0 < i < len(env) - 1 and depth(env, i) < 1e-7:
                continue
            ctx.check(any(abs(x - sx) < 1e-9 and abs(y - sy) < 1e-7 for sx, sy in sv), "vertex-not-stable", lambda: f"{name}: vertex ({x},{y}) not among stable {sv}")
        # lists are sorted by fraction
        cs = [float(v) for v in h.coords[:, 0]]
        ctx.check(cs == sorted(cs), "coords-sorted", name)
        for i in sample_rx:
            x, y = pts[i]
            gx = h.get_coordinate(rx[i])
            ctx.check(abs(fx(gx) - x) < 1e-9, "coordinate", lambda: f"{name}: {rx[i]}: {gx}, expected {x}")
            e = h.get_energy_above_hull(rx[i])
            ctx.check(abs(e - (y - at(env, x))) < 1e-6, "above-hull", lambda: f"{name}: {rx[i]} {e}, expected {y - at(env, x)}")
            others = [v for u, v in full if abs(u - x) > 1e-11]
            c1s = PrimaryCompetitionCalculator(h).calculate(rx[i])
            ctx.check(abs(c1s - (y - min(others))) < 1e-9, "primary", lambda: f"{name}: {rx[i]} C1 {c1s}, expected {y - min(others)}")
            fast = SecondaryCompetitionCalculator(h).calculate(rx[i])
            nv = len(env)
            if nv <= 12:
                slow = h.get_secondary_competition(rx[i], recursive=True)
                ctx.count("fast_vs_recursive")
                ctx.check(abs(fast - slow) < 1e-8 + 1e-7 * abs(fast), "fast-vs-recursive", lambda: f"{name}: {rx[i]} at {x}: {fast} by the fast, {slow} by the recursive method; hull {env}")
            if clear and 1e-6 < x < 1 - 1e-6:
                yx = at(env, x)
                L, R = side(env, 0, 1, x, yx), side(env, 1, 0, x, yx)
                # the reaction's own vertex is not an intermediate phase
                lv, lt, ln = average_release(tuple(L))
                rv, rt, rn = average_release(tuple(R))
                ctx.count("c2_defined")
                ctx.check(abs(fast + lv + rv) < 1e-7 + 1e-6 * abs(fast), "secondary", lambda: f"{name}: {rx[i]} at {x}: C2 {fast}, expected {-(lv + rv)}; hull {env}")
                wh = SecondaryCompetitionWithEhullCalculator(h).calculate(rx[i])
                ctx.check(abs(wh - (-(lv + rv) + (y - yx))) < 1e-6 + 1e-6 * abs(wh), "secondary-ehull", lambda: f"{name}: {rx[i]} {wh}, expected {-(lv + rv) + y - yx}")
                if nv <= 14:
                    mx = SecondaryCompetitionMaxCalculator(h).calculate(rx[i])
                    ref = -(max_release(L) + max_release(R))
                    ctx.check(abs(mx - ref) < 1e-7 + 1e-6 * abs(mx), "secondary-max", lambda: f"{name}: {rx[i]} {mx}, expected {ref}")
                ctx.count("areas")
                area = SecondaryCompetitionAreaCalculator(h).calculate(rx[i])
                ref = hull_area(L) + hull_area(R)
                ctx.check(abs(area - ref) < 1e-5 * (1 + abs(ref)), "secondary-area", lambda: f"{name}: {rx[i]} area {area}, expected {ref}")
                un = h.get_secondary_competition(rx[i], normalize=False)
                ref = -(lt * rn + rt * ln)
                ctx.check(abs(un - ref) < 1e-6 * (1 + abs(ref)), "secondary-sum", lambda: f"{name}: {rx[i]} unnormalised {un}, expected {ref}")
    if any(y < 0 for _, y in pts):
        ctx.sig(sorted((round(x, 8), round(y, 8)) for x, y in pts))
    ctx.sample(dict(c1=str(c1), c2=str(c2), points=[(round(x, 4), round(y, 4)) for x, y in pts][:8], vertices=len(env)))


def coordinate_any(r, c1, c2, h, swap):
    if r in h.endpoint_reactions:
        i = h.endpoint_reactions.index(r)
        return float(1 - i if swap else i)
    return coordinate(r, c1, c2)
