"""C01: balancing is sound, complete where the reaction is unique, and the flag tells the truth."""
from fractions import Fraction

import numpy as np

from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

ID = "C01"
RAY = "none"
CASES = {"quick": 50000, "thorough": 1500000}
CHUNK = 50
RULE = ("phase lists over 1-6 elements: unconstrained random lists, lists with a one-dimensional exact rational null space whose "
        "sides follow its signs (feasible) or have a phase moved, added or repeated, and explicit coefficient vectors exact or "
        "perturbed; distinct = (matrix shape, nullity, feasibility, outcome, phases)")
ASSUMPTIONS = ["completeness is asserted for exact null spaces of dimension <= 1 with coefficient ratios below 1e4 (the code's "
               "numerical tolerance is 1e-6); for larger null spaces only soundness is asserted"]
NEED = ["oracle_decisions", "feasible_unique", "infeasible_unique", "no_solution", "multi", "flag_true", "flag_false"]


def sane(v):
    a = [abs(x) for x in v if x != 0]
    return a and max(a) / min(a) < 10**4


def rand_phase(rng, els, mx):
    k = rng.randint(1, min(4, len(els)))
    d = {e: rng.randint(1, mx) for e in rng.sample(els, k)}
    return Composition(d)


def make(rng):
    """-> (reactants, products, tag)"""
    ne = rng.randint(1, 6)
    els = gen.elements(rng, ne)
    mx = rng.choice([2, 3, 4, 6, 12])
    mode = rng.random()
    if mode < 0.25:
        R = [rand_phase(rng, els, mx) for _ in range(rng.randint(1, 4))]
        P = [rand_phase(rng, els, mx) for _ in range(rng.randint(1, 4))]
        return R, P, "free"
    for _ in range(30):
        n = ne + 1 if rng.random() < 0.75 else rng.randint(2, ne + 1)
        ph = []
        while len(ph) < n:
            c = rand_phase(rng, els, mx)
            if c.reduced_formula not in {x.reduced_formula for x in ph}:
                ph.append(c)
            elif rng.random() < 0.2:
                break
        if len(ph) < 2:
            continue
        _, M = oracle.matrix(ph)
        ns = oracle.nullspace(M)
        if len(ns) != 1 or not sane(ns[0]):
            continue
        v = ns[0]
        R = [c for c, x in zip(ph, v) if x < 0]
        P = [c for c, x in zip(ph, v) if x > 0]
        Z = [c for c, x in zip(ph, v) if x == 0]
        if not R or not P:
            if rng.random() < 0.8:
                continue
            R, P = ph[:1], ph[1:]
        if rng.random() < 0.5:
            R, P = P, R
        m = rng.random()
        tag = "signs"
        if m < 0.2 and len(R) + len(P) > 2:  # move one phase to the wrong side
            if len(R) > 1 and (rng.random() < 0.5 or len(P) == 1):
                P.append(R.pop(rng.randrange(len(R))))
            elif len(P) > 1:
                R.append(P.pop(rng.randrange(len(P))))
            tag = "moved"
        elif m < 0.3 and Z:
            (R if rng.random() < 0.5 else P).extend(Z)
            tag = "idle"
        elif m < 0.4:
            (R if rng.random() < 0.5 else P).append(rand_phase(rng, gen.elements(rng, 2), mx))
            tag = "added"
        elif m < 0.45:
            (R if rng.random() < 0.5 else P).append(rng.choice(R + P))
            tag = "repeated"
        rng.shuffle(R)
        rng.shuffle(P)
        return R, P, tag
    return [Composition("Fe"), Composition("O2")], [Composition("Fe2O3")], "fallback"


def conserves(comps, coeffs, tol=1e-6):
    s = oracle.element_sums(comps, coeffs)
    m = max([1.0] + [abs(float(k)) * float(c.num_atoms) for c, k in zip(comps, coeffs)])
    return all(abs(x) <= tol * m for x in s.values())


def judge(ctx, rxn, R, P, label):
    ctx.note(label, [c.formula for c in R], "->", [c.formula for c in P], "=>", list(np.round(rxn.coefficients, 6)),
             "errors", rxn.lowest_num_errors, "balanced", rxn.balanced)
    comps = list(R) + list(P)
    ctx.check(len(rxn.coefficients) == len(comps), "coefficient-count", lambda: f"{rxn.coefficients} for {comps}")
    ctx.check([c.reduced_formula for c in rxn.compositions] == [c.reduced_formula for c in comps], "phases-reordered",
              lambda: f"{rxn.compositions} vs {comps}")
    if rxn.balanced:
        ctx.check(conserves(rxn.compositions, rxn.coefficients), f"unsound-balanced:{label}",
                  lambda: f"flagged balanced but {oracle.element_sums(rxn.compositions, rxn.coefficients)} for {rxn.compositions} {rxn.coefficients}")
    zero = rxn.lowest_num_errors == 0
    if zero:
        nr = len(R)
        ctx.check(bool(rxn.balanced), f"zero-errors-unbalanced:{label}", str(rxn.coefficients))
        ctx.check(all(k < 0 for k in rxn.coefficients[:nr]) and all(k > 0 for k in rxn.coefficients[nr:]),
                  f"zero-errors-wrong-side:{label}", lambda: f"{R} {P} {rxn.coefficients}")
        ctx.check(conserves(rxn.compositions, rxn.coefficients), f"zero-errors-not-conserving:{label}", lambda: f"{R} {P} {rxn.coefficients}")
    nul, exact = oracle.balance_exact(rxn.compositions[:len(R)], rxn.compositions[len(R):])
    if nul == 0:
        ctx.count("no_solution")
        ctx.check(not zero, f"balanced-impossible:{label}", lambda: f"{R} {P} {rxn.coefficients}")
    elif nul == 1:
        _, M = oracle.matrix(rxn.compositions)
        v = oracle.nullspace(M)[0]
        if not sane(v):
            return
        ctx.count("feasible_unique" if exact else "infeasible_unique")
        ctx.check(zero == (exact is not None), f"completeness:{label}",
                  lambda: f"exact solution {exact and [str(x) for x in exact]} but lowest_num_errors={rxn.lowest_num_errors} for {R} -> {P}")
        if exact is not None and zero:
            w = np.array([float(x) for x in exact])
            k = np.asarray(rxn.coefficients, float)
            s = float(np.dot(w, k) / np.dot(w, w))
            ctx.check(s > 0 and np.allclose(k, s * w, rtol=1e-6, atol=1e-7 * max(1, np.abs(k).max())), f"coefficients:{label}",
                      lambda: f"{k} not a multiple of exact {w}")
    else:
        ctx.count("multi")
    return nul, exact is not None, zero


def flags(ctx, rng):
    """Explicit coefficients: the flag must equal conservation."""
    ne = rng.randint(1, 4)
    els = gen.elements(rng, ne)
    n = ne + rng.randint(1, 2)
    ph = []
    while len(ph) < n:
        c = rand_phase(rng, els, rng.choice([2, 4, 8]))
        ph.append(c)
    if rng.random() < 0.75:
        uniq = {}
        for c in ph:
            uniq.setdefault(c.reduced_formula, c)
        ph = list(uniq.values())
    _, M = oracle.matrix(ph)
    ns = oracle.nullspace(M)
    if ns:
        v = [sum(Fraction(rng.randint(-3, 3)) * b[i] for b in ns) for i in range(len(ph))]
    else:
        v = [Fraction(rng.randint(-3, 3)) for _ in ph]
    if not any(v) or not sane(v):
        return
    k = np.array([float(x) for x in v])
    k = k / max(abs(k)) * rng.choice([1, max(abs(k)), 0.37, 12.0])
    truth = bool(ns)
    if rng.random() < 0.5:
        i = rng.randrange(len(k))
        k[i] += rng.choice([-1, 1]) * rng.choice([1e-3, 0.01, 0.1, 1.0, 3.0])
    elif rng.random() < 0.2:
        k[k != 0] *= np.array([rng.choice([1, 1, -1]) for _ in range(int((k != 0).sum()))])
    s = oracle.element_sums(ph, k)
    worst = max([abs(x) for x in s.values()] or [0])
    if 1e-9 < worst < 1e-4:
        return
    truth = worst <= 1e-9
    coeffs = k if rng.random() < 0.5 else list(map(float, k))
    if all(float(x).is_integer() for x in k) and rng.random() < 0.7:
        coeffs = [int(x) for x in k]
        ctx.count("integer_coefficients")
    ctx.note("explicit", [c.formula for c in ph], list(k))
    kinds = [("basic", lambda: BasicReaction(ph, coeffs))]
    red = [c.reduced_composition for c in ph]
    facs = np.array([c.get_reduced_composition_and_factor()[1] for c in ph])
    es = [gen.gibbs(rng, {str(e): float(a) for e, a in c.items()}, 500, f"e{i}") for i, c in enumerate(ph)]
    kinds.append(("computed", lambda: ComputedReaction(es, k * facs)))
    kinds.append(("open", lambda: OpenComputedReaction(es, k * facs, {gen.El(els[0]): -1.0})))
    for label, f in kinds:
        r = f()
        ctx.count("flag_true" if truth else "flag_false")
        ctx.check(bool(r.balanced) == truth, f"flag:{label}",
                  lambda: f"balanced={r.balanced} but element imbalance {s} for {ph} {k}")
    ctx.sig("flag", truth, [c.formula for c in red])


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.25:
        flags(ctx, rng)
        return
    R, P, tag = make(rng)
    ctx.note(tag)
    fr = [c.formula.replace(" ", "") for c in R]
    fp = [c.formula.replace(" ", "") for c in P]
    which = rng.random()
    if which < 0.4:
        rxn = BasicReaction.balance(list(R), list(P))
        label = "balance"
    elif which < 0.6:
        rxn = BasicReaction.from_formulas(fr, fp)
        label = "formulas"
    else:
        es = {}

        def ent(c):
            m = rng.randint(1, 3)
            return gen.gibbs(rng, {str(e): float(a) * m for e, a in c.items()}, 600, f"e{len(es)}-{rng.random()}")

        R = [c.reduced_composition for c in R]
        P = [c.reduced_composition for c in P]
        rt, pt = [ent(c) for c in R], [ent(c) for c in P]
        if which < 0.85:
            rxn = ComputedReaction.balance(rt, pt)
            label = "computed"
        else:
            el = rng.choice([e for c in R + P for e in c.elements])
            rxn = OpenComputedReaction.balance(rt, pt, {el: rng.uniform(-3, 0)})
            label = "open"
    out = judge(ctx, rxn, R, P, label)
    if out:
        ctx.sig(len(R), len(P), out, sorted(fr), sorted(fp))
        if out[1]:
            ctx.sample(f"{label}: {' + '.join(fr)} -> {' + '.join(fp)}: {[round(float(x), 5) for x in rxn.coefficients]}")
        if out[0] == 1 and rng.random() < 0.3:  # the order of the phases does not matter
            i = rng.sample(range(len(R)), len(R))
            j = rng.sample(range(len(P)), len(P))
            r2 = BasicReaction.balance([R[a] for a in i], [P[a] for a in j])
            ctx.count("permuted")
            ctx.check((r2.lowest_num_errors == 0) == (rxn.lowest_num_errors == 0), "order-dependent", lambda: f"{R} {P}")
            # swapping the sides gives the reverse reaction
            r3 = BasicReaction.balance(list(P), list(R))
            ctx.check((r3.lowest_num_errors == 0) == (rxn.lowest_num_errors == 0), "direction-dependent", lambda: f"{R} {P}")
