"""C07: duplicate filtering."""
from collections import Counter, defaultdict

import numpy as np

from rnv import fakeray, gen, rs
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

ID = "C07"
TECHNIQUE = ("runtime monitoring under a seeded Ray scheduler simulator (random completion orders, crashes and retries, 1-16 CPUs) against "
             "pairwise scaling-class reference")
CASES = {"quick": 1500, "thorough": 40000}
CHUNK = 8
RULE = ("reaction sets with planted multiples (factors 1e-3..1e3), reversed copies, exact repeats, permuted phases, polymorph twins and near "
        "multiples, ensured subsets; serial and simulated-parallel runs under random schedules, shuffled inputs; distinct = (set, ensured, schedule)")
NEED = ["oracle_decisions", "serial", "parallel", "one_cpu", "multiples", "near_multiples", "reversed", "polymorph_twin", "ensured", "crashes",
        "tasks", "multi_class_group", "open"]


def ratio(a, b):
    """'same' / 'different' / 'unclear' positive multiple of one another (same phases)."""
    q = np.array(b) / np.array(a)
    if (q <= 0).any():
        return "different"
    d = np.max(np.abs(q / q[0] - 1))
    return "same" if d < 1e-7 else "different" if d > 1e-3 else "unclear"


def classes(rxns):
    """Partition into scaling classes, by exhaustive comparison."""
    by = defaultdict(list)
    for i, r in enumerate(rxns):
        p = sorted((gen.uid(e), float(c)) for e, c in zip(r.entries, r.coefficients))
        by[tuple(x for x, _ in p)].append((i, [c for _, c in p]))
    label, n = {}, 0
    for key, items in by.items():
        reps = []
        for i, c in items:
            for l, c0 in reps:
                k = ratio(c0, c)
                if k == "unclear":
                    return None
                if k == "same":
                    label[i] = l
                    break
            else:
                reps.append((n, c))
                label[i] = n
                n += 1
    return label, by


def case(ctx):
    rng = ctx.rng
    ents, els, _ = rs.pool(rng, n_comp=rng.choice([3, 6]), poly=0.7, el_poly=0.2, big=0.02)
    rx = []
    for _ in range(rng.choice([1, 2, 5, 12])):
        b = rs.random_rxn(rng, ents, balanced=rng.random() < 0.6, kmax=rng.choice([2, 3, 5]))
        if not b:
            continue
        rx.append(b)
        for _ in range(rng.choice([0, 1, 2, 4])):
            E, c = list(b.entries), np.array(b.coefficients, float)
            x = rng.random()
            if x < 0.4:
                c = c * rng.choice([2, 3, 0.5, 1 / 3, rng.uniform(0.1, 10), 1e-3, 1e3])
                ctx.count("multiples")
            elif x < 0.55:
                c = -c * rng.choice([1, 1, 2])
                ctx.count("reversed")
            elif x < 0.7:
                c[rng.randrange(len(c))] *= rng.choice([1.01, 1.2, 2, 0.95])
                ctx.count("near_multiples")
            elif x < 0.85:
                i = rng.randrange(len(E))
                tw = [e for e in ents if e.composition.reduced_formula == E[i].composition.reduced_formula and e is not E[i]]
                if tw:
                    E[i] = rng.choice(tw)
                    ctx.count("polymorph_twin")
            o = rng.sample(range(len(E)), len(E))
            if rng.random() < 0.5:
                E, c = [E[i] for i in o], c[o]
            rx.append(ComputedReaction(E, c, data={"n": len(rx)} if rng.random() < 0.3 else None))
    if not rx:
        return
    rng.shuffle(rx)
    kw = {}
    if rng.random() < 0.2:
        ctx.count("open")
        kw = dict(open_elem=rng.choice(els), chempot=-1.0)
    s = ReactionSet.from_rxns(rx, entries=ents if rng.random() < 0.5 else None, **kw)
    stored = list(s)
    cl = classes(stored)
    if cl is None:
        return
    label, groups = cl
    ctx.count("multi_class_group", sum(len({label[i] for i, _ in it}) > 1 and len(it) > len({label[i] for i, _ in it}) for it in groups.values()))
    input_views = Counter(rs.rxn_view(r) for r in stored)
    view_label = {rs.rxn_view(r): label[i] for i, r in enumerate(stored)}
    ensured = rng.sample(stored, rng.randint(1, min(4, len(stored)))) if rng.random() < 0.5 else None
    if ensured and rng.random() < 0.3:
        ensured = ensured + ensured[:1]
    ens_by, ens_n = defaultdict(set), Counter()
    for r in ensured or []:
        ens_by[view_label[rs.rxn_view(r)]].add(rs.rxn_view(r, data=False))
        ens_n[view_label[rs.rxn_view(r)]] += 1
    if ensured:
        ctx.count("ensured")
    ctx.note("rxns", [str(r) for r in stored], "entries", [gen.uid(e) for e in s.entries], "ensured", [str(r) for r in ensured or []])

    def judge(out, lab):
        got = list(out)
        gv = Counter(rs.rxn_view(r) for r in got)
        ctx.check(not (gv - input_views), f"{lab}:survivor-altered", lambda: str(list((gv - input_views).items())[:1])[:700])
        ctx.check(len(out) == len(got), f"{lab}:len", "")
        n = Counter(view_label.get(v) for v, k in gv.items() for _ in range(k))
        for l in set(label.values()):
            # the same reaction may be insisted on twice, with its phases listed in different orders
            want = max(1, len(ens_by.get(l, ())))
            ctx.check(want <= n.get(l, 0) <= max(1, ens_n[l]), f"{lab}:{'lost' if n.get(l, 0) < want else 'kept-duplicate'}",
                      lambda: f"class of {[str(stored[i]) for i in label if label[i] == l]} kept {n.get(l, 0)} times, expected {want}")
        nodata = {rs.rxn_view(r, data=False) for r in got}
        for l, vs in ens_by.items():
            ctx.check(vs <= nodata, f"{lab}:ensured-lost", lambda: f"{str(vs - nodata)[:700]}")
        out = Counter(rs.rxn_view(r, data=False) for r in got)
        return Counter(set(out)) if ensured else out

    ctx.count("serial")
    ref = judge(s.filter_duplicates(ensure_rxns=ensured, parallelize=False), "serial")
    for _ in range(2):
        ncpu = rng.choice([1, 2, 3, 8, 16])
        st = fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=ncpu, order=rng.choice(["random", "lifo", "fifo"]),
                                 crash_prob=rng.choice([0, 0, 0.3]), eager=rng.choice([0, 0.5, 1]))
        ctx.count("parallel")
        ctx.count("one_cpu", ncpu == 1)
        got = judge(s.filter_duplicates(ensure_rxns=ensured), "parallel")
        ctx.count("tasks", st.tasks)
        ctx.count("crashes", st.crashes)
        ctx.check(got == ref, "parallel-differs", lambda: f"cpus={ncpu} {st.completion}: {str(list((ref - got).items())[:1])[:500]} / {str(list((got - ref).items())[:1])[:500]}")
        ctx.sig(sorted(input_views), sorted(map(str, ens_by)), tuple(st.completion))
    # another order of the same reactions
    sh = list(stored)
    rng.shuffle(sh)
    s2 = ReactionSet.from_rxns(sh, **kw)
    fakeray.S.configure(seed=rng.randrange(2**31))
    ens2 = None
    if ensured:
        by = defaultdict(list)
        for r in s2:
            by[rs.rxn_view(r)].append(r)
        ens2 = [by[rs.rxn_view(r)][0] for r in ensured]
    got = judge(s2.filter_duplicates(ensure_rxns=ens2, parallelize=rng.random() < 0.5), "shuffled")
    ctx.check(got == ref, "order-dependent", lambda: f"{str(list((ref - got).items())[:1])[:500]} / {str(list((got - ref).items())[:1])[:500]}")
    if not ensured and rng.random() < 0.3:
        fakeray.S.configure(seed=rng.randrange(2**31))
        s3 = ReactionSet.from_rxns(stored, filter_duplicates=True, **kw)
        ctx.check(judge(s3, "from_rxns") == ref, "from_rxns-differs", "")
    ctx.check(Counter(rs.rxn_view(r) for r in s) == input_views, "input-changed", "the filtered set was modified")
    if rng.random() < 0.01:
        ctx.sample(f"{len(stored)} reactions -> {sum(ref.values())} classes, ensured {len(ensured or [])}")
