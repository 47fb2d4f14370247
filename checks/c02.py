"""C02: reaction algebra."""
import numpy as np

from rnv import gen, oracle
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

ID = "C02"
RAY = "none"
CASES = {"quick": 14000, "thorough": 500000}
CHUNK = 40
RULE = ("exactly balanced reactions (null space of dimension 1-3) over 1-5 elements as basic, computed and open reactions; each is "
        "reversed, normalised, copied, compared with re-ordered / noisy / scaled / re-paired variants, printed and parsed; distinct = "
        "(class, phases, coefficients)")
NEED = ["oracle_decisions", "eq_same", "eq_permuted", "eq_scaled", "eq_noise", "open_fractions", "parsed", "big_coefficients", "fraction_values"]


def close(a, b, tol=1e-7):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol)


def percomp(rxn):
    d = {}
    for c, k in zip(rxn.compositions, rxn.coefficients):
        d[c.reduced_formula] = d.get(c.reduced_formula, 0) + float(k) * c.get_reduced_composition_and_factor()[1]
    return d


def same_map(a, b, tol=1e-7):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= tol * max(1, abs(a[k])) for k in a)


def energies_ok(ctx, kind, r, f, factor, label):
    """energy scales with factor, energy per atom does not."""
    if kind == "basic":
        return
    ctx.check(abs(f.energy - factor * r.energy) <= 1e-7 * max(1, abs(factor * r.energy)), f"{label}-energy:{kind}",
              lambda: f"{f.energy} vs {factor} * {r.energy} for {r!r}")
    if r.num_atoms:
        want = r.energy_per_atom * (1 if factor > 0 else -1)
        ctx.check(abs(f.energy_per_atom - want) <= 1e-7 * max(1, abs(want)), f"{label}-energy-per-atom:{kind}",
                  lambda: f"{f.energy_per_atom} vs {want} for {r!r}")


def fractions_ok(ctx, kind, r, label):
    for side in ("reactant", "product"):
        for what in ("atomic", "molar"):
            fr = getattr(r, f"{side}_{what}_fractions")
            if what == "atomic" and not r.num_atoms:
                continue
            ctx.check(abs(sum(fr.values()) - 1) < 1e-6, f"{side}-{what}-fractions-sum:{kind}", lambda: f"{label} {fr} {r!r}")
            ctx.check(all(v >= -1e-12 for v in fr.values()), f"{side}-{what}-fractions-negative:{kind}", lambda: f"{fr} {r!r}")
            if kind == "open":
                ctx.count("open_fractions")


def case(ctx):
    rng = ctx.rng
    ne = rng.randint(2, 5)
    els = gen.elements(rng, ne)
    got = gen.balanced_coeffs(rng, els, rng.choice([1, 1, 2, 2, 3]), rng.choice([2, 3, 5]))
    if got is None:
        return
    ph, k = got
    k = np.array(k)
    kind = rng.choice(["basic", "computed", "computed", "open"])
    if rng.random() < 0.15:
        k = k * rng.choice([1e3, 2e4, 1e5])
        ctx.count("big_coefficients")
    order = rng.sample(range(len(ph)), len(ph))
    ph, k = [ph[i] for i in order], k[order]
    T = gen.temperature(rng)
    mu = {gen.El(rng.choice(els)): rng.uniform(-4, 1)}
    ents = [gen.gibbs(rng, d, T, f"e{i}", mult=rng.choice([1, 1, 2, 3])) for i, d in enumerate(ph)]
    mult = [rng.choice([1, 1, 2]) for _ in ph]

    def build(idx, coeffs, es=None):
        es = es or ents
        if kind == "basic":
            return BasicReaction([Composition({e: a * mult[i] for e, a in ph[i].items()}) for i in idx],
                                 [c / mult[i] for i, c in zip(idx, coeffs)])
        if kind == "computed":
            return ComputedReaction([es[i] for i in idx], list(coeffs))
        return OpenComputedReaction([es[i] for i in idx], list(coeffs), dict(mu))

    ident = list(range(len(ph)))
    r = build(ident, k)
    ctx.note(kind, [gen.formula(d) for d in ph], list(k), "mu", mu if kind == "open" else None)
    ctx.sig(kind, sorted((gen.reduced(d), round(x, 5)) for d, x in zip(ph, k)))
    base = percomp(r)
    has_atoms = bool(r.num_atoms) if kind != "open" else bool(set(els) - {str(e) for e in mu} & set(els)) and bool(r.num_atoms)
    ctx.check(bool(r.balanced), f"balanced:{kind}", str(r))

    # reverse
    v = r.reverse()
    ctx.check(type(v) is type(r), f"reverse-type:{kind}", str(type(v)))
    ctx.check(same_map({f: -x for f, x in base.items()}, percomp(v)), f"reverse-coefficients:{kind}", lambda: f"{r!r} / {v!r}")
    ctx.check(set(v.reactants) == set(r.products) and set(v.products) == set(r.reactants), f"reverse-sides:{kind}", lambda: f"{r!r} / {v!r}")
    ctx.check(bool(v.balanced), f"reverse-balanced:{kind}", str(v))
    energies_ok(ctx, kind, r, v, -1, "reverse")
    vv = v.reverse()
    ctx.check(vv == r and hash(vv) == hash(r), f"reverse-twice:{kind}", lambda: f"{r!r} / {vv!r}")
    ctx.check(not (v == r), f"reverse-equal:{kind}", lambda: f"{r!r} == {v!r}")
    if has_atoms:
        fractions_ok(ctx, kind, r, "original")
        for what in ("atomic", "molar"):
            a, b = getattr(r, f"reactant_{what}_fractions"), getattr(v, f"product_{what}_fractions")
            ctx.check(same_map({c.reduced_formula: x for c, x in a.items()}, {c.reduced_formula: x for c, x in b.items()}),
                      f"reverse-{what}-fractions:{kind}", lambda: f"{a} vs {b} for {r!r}")

    # copy
    c = r.copy()
    ctx.check(type(c) is type(r) and c == r and hash(c) == hash(r) and same_map(base, percomp(c)), f"copy:{kind}", lambda: f"{r!r} / {c!r}")
    energies_ok(ctx, kind, r, c, 1, "copy")

    # normalisation
    fac = rng.choice([1, 1, 2, 0.25, 7.5, 1e-2])
    i = rng.randrange(len(ph))
    f = r.normalize_to(r.compositions[i], fac) if fac != 1 or rng.random() < 0.5 else r.normalize_to(r.compositions[i])
    s = fac / abs(float(r.coefficients[i]))
    ctx.check(abs(abs(float(f.get_coeff(r.compositions[i]))) - fac) < 1e-7 * max(1, fac), f"normalize-amount:{kind}", lambda: f"{f!r} to {ph[i]} x{fac}")
    ctx.check(same_map({a: b * s for a, b in base.items()}, percomp(f)), f"normalize-coefficients:{kind}", lambda: f"{r!r} -> {f!r}")
    energies_ok(ctx, kind, r, f, s, "normalize")
    el = gen.El(rng.choice(els))
    amt = r.get_el_amount(el)
    want = sum(max(0.0, x) * gen_amount(ph, el, fm) for fm, x in base.items())
    ctx.check(abs(amt - want) < 1e-6 * max(1, want), f"element-amount:{kind}", lambda: f"{el} in {r!r}: {amt} vs {want}")
    if want > 1e-9:
        g = r.normalize_to_element(el, fac)
        s = fac / want
        ctx.check(abs(g.get_el_amount(el) - fac) < 1e-7 * max(1, fac), f"normalize-element-amount:{kind}", lambda: f"{g!r} {el} {fac}")
        ctx.check(same_map({a: b * s for a, b in base.items()}, percomp(g), 1e-6), f"normalize-element-coefficients:{kind}", lambda: f"{r!r} -> {g!r}")
        energies_ok(ctx, kind, r, g, s, "normalize-element")
        if has_atoms:
            for side in ("reactant", "product"):
                for what in ("atomic", "molar"):
                    a, b = getattr(r, f"{side}_{what}_fractions"), getattr(g, f"{side}_{what}_fractions")
                    ctx.check(same_map({x.reduced_formula: y for x, y in a.items()}, {x.reduced_formula: y for x, y in b.items()}, 1e-6),
                              f"normalize-{what}-fractions:{kind}", lambda: f"{a} vs {b} for {r!r}")
    # the original is untouched by all of this
    ctx.check(same_map(base, percomp(r)), f"original-changed:{kind}", lambda: f"{base} {percomp(r)}")

    # equality
    o = rng.sample(ident, len(ident))
    q = build(o, k[o])
    ctx.count("eq_same")
    ctx.check(q == r and r == q, f"eq-reordered:{kind}", lambda: f"{r!r} != {q!r} listing {o}")
    ctx.check(hash(q) == hash(r), f"hash-reordered:{kind}", lambda: f"{r!r} {q!r}")
    noise = np.array([1 + rng.uniform(-1, 1) * 3e-15 for _ in k])
    q = build(o, (k * noise)[o])
    ctx.count("eq_noise")
    ctx.check(q == r and r == q, f"eq-noise:{kind}", lambda: f"{list(k)} vs {list(k * noise)}")
    ctx.check(hash(q) == hash(r), f"hash-noise:{kind}", lambda: f"{list(r.coefficients)} {list(q.coefficients)}")
    s = rng.choice([2.0, 0.5, 1.01, 3.0])
    q = build(o, (k * s)[o])
    ctx.count("eq_scaled")
    ctx.check(not (q == r) and not (r == q), f"eq-scaled:{kind}", lambda: f"{r!r} == {q!r}")
    # same phases and sides, coefficients handed to other phases of the side
    for side in (-1, 1):
        idx = [j for j in ident if k[j] * side > 0]
        if len(idx) > 1:
            sh = rng.sample(idx, len(idx))
            k2 = k.copy()
            k2[idx] = k[sh]
            differs = np.abs(k2 - k).max() > 1e-3 * np.abs(k).max()
            if differs:
                q = build(ident, k2)
                if kind == "open" and not r.num_atoms:
                    continue
                ctx.count("eq_permuted")
                if kind == "basic":
                    ctx.check(not (q == r) and not (r == q), "eq-permuted:basic", lambda: f"{list(k)} vs {list(k2)} on {[gen.formula(d) for d in ph]}")
                else:
                    # give every phase the same zero energy, so that only the coefficients can tell them apart
                    zero = [flat(e) for e in ents]
                    a, b = build(ident, k, zero), build(ident, k2, zero)
                    ctx.check(not (a == b) and not (b == a), f"eq-permuted:{kind}", lambda: f"{list(k)} vs {list(k2)} on {[gen.formula(d) for d in ph]}")
    if kind != "basic" and (kind != "open" or has_atoms):
        j = rng.randrange(len(ents))
        hot = [shift(e, 0.05) if i == j else e for i, e in enumerate(ents)]
        q = build(ident, k, hot)
        if abs(q.energy_per_atom - r.energy_per_atom) > 1e-4 * max(1.0, abs(r.energy_per_atom)):
            ctx.count("eq_energy")
            ctx.check(not (q == r), f"eq-energy:{kind}", lambda: f"{q.energy_per_atom} {r.energy_per_atom}")

    # definitions
    ctx.check(not r.is_identity, f"identity:{kind}", lambda: f"{r!r} called an identity")
    per = {gen.reduced(d): sum(d.values()) for d in ph}  # atoms per reduced formula (the phases are given by reduced formulas)
    if kind != "open":
        tot = sum(x * per[f] for f, x in base.items() if x > 0)
        for sgn, side in ((-1, "reactant"), (1, "product")):
            A = {c.reduced_formula: float(x) for c, x in getattr(r, f"{side}_atomic_fractions").items()}
            ctx.count("fraction_values")
            ctx.check(same_map(A, {f: abs(x) * per[f] / tot for f, x in base.items() if x * sgn > 0}), f"{side}-atomic-fractions:{kind}", lambda: f"{A} for {r!r}")
            M = {c.reduced_formula: float(x) for c, x in getattr(r, f"{side}_molar_fractions").items()}
            L = {c.reduced_formula: abs(float(x)) for c, x in zip(r.compositions, r.coefficients) if x * sgn > 0}
            ctx.check(same_map(M, {f: x / sum(L.values()) for f, x in L.items()}), f"{side}-molar-fractions:{kind}", lambda: f"{M} for {r!r}")
    # text
    txt = str(r)
    p = BasicReaction.from_string(txt if rng.random() < 0.7 else txt.replace(" -> ", "->"))
    ctx.count("parsed")
    pm = percomp(p)
    ok = set(pm) == {a for a, b in base.items() if abs(b) > 1e-6} and all(abs(pm[a] - base[a]) <= 6e-4 * abs(base[a]) + 2e-6 for a in pm)
    ctx.check(ok, f"text-roundtrip:{kind}", lambda: f"{txt!r} parsed as {pm}, wanted {base}")
    if rng.random() < 0.01:
        ctx.sample(f"{kind}: {txt}")


def gen_amount(ph, el, fm):
    for d in ph:
        if gen.reduced(d) == fm:
            return d.get(str(el), 0)
    return 0


def flat(e):
    from pymatgen.entries.computed_entries import ComputedEntry

    return ComputedEntry(e.composition, 0.0, entry_id=e.entry_id)


def shift(e, de):
    from pymatgen.entries.computed_entries import ComputedEntry

    return ComputedEntry(e.composition, e.energy + de * e.composition.num_atoms, entry_id=e.entry_id)
