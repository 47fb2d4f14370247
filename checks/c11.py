"""C11: enumeration under many schedules, chunkings, faults, entry orders; unions of enumerators; the real Ray with worker kills."""
import json
import os
import subprocess
import sys
import tempfile
from collections import Counter

from rnv import core, fakeray, gen, oracle, rs
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.enumerators.utils import run_enumerators
from rxn_network.utils.ray import to_iterator

ID = "C11"
CASES = {"quick": 170, "thorough": 4000}
CHUNK = 1
CASE_SECONDS = {"quick": 240, "thorough": 400}
RULE = ("a case is one system and enumerator run under a reference schedule and several perturbed ones; non-trivial if it yields reactions; "
        "distinct by (system, options, completion orders observed)")
TECHNIQUE = ("runtime monitoring under a seeded Ray scheduler simulator (random task start and completion orders, task crashes with retry, 1-16 CPUs, "
             "random chunking) with entry reordering and relabelling, plus real Ray runs whose workers are killed, comparing result multisets")
NEED = ["oracle_decisions", "runs", "tasks", "crashes", "relabelled", "unions", "mixed_unions", "multi_chunk_runs", "Basic", "BasicOpen", "MinGibbs",
        "MinGrand"]
ASSUMPTIONS = ["results are compared as multisets of (phases, coefficients up to one positive factor)",
               "the simulated scheduler provides what Ray guarantees: pickled arguments, any order, at-least-once execution of tasks"]


def make(kind, rng, els, forms, openf, o=None):
    o = dict(o or {})
    if kind == "Basic":
        return BasicEnumerator(quiet=True, **o)
    if kind == "BasicOpen":
        return BasicOpenEnumerator([openf], quiet=True, **o)
    if kind == "MinGibbs":
        return MinimizeGibbsEnumerator(quiet=True, **o)
    oe = str(gen.Composition(openf).elements[0])
    return MinimizeGrandPotentialEnumerator(open_elem=gen.El(oe), mu=-1.0, quiet=True, **o)


def key(e, back):
    f = e.composition.reduced_formula
    return f"{type(e).__name__}|{back.get(e.entry_id, e.entry_id)}|{f}|{e.energy_per_atom:.6f}"


def classes(rxns, back={}):
    out = Counter()
    for r in rxns:
        p = sorted((key(e, back), float(c)) for e, c in zip(r.entries, r.coefficients))
        s = abs(p[0][1])
        out[tuple((k, oracle.snap(c / s)) for k, c in p)] += 1
    return out


def relabel(rng, ents):
    """The same entries under other names: another iteration order of every set of entries."""
    back, out = {}, []
    for e in ents:
        if type(e).__name__ == "GibbsComputedEntry":
            d = e.as_dict()
            new = f"m{rng.randrange(10**9)}"
            back[new] = e.entry_id
            d["entry_id"] = new
            out.append(type(e).from_dict(d))
        else:
            out.append(e)
    rng.shuffle(out)
    return out, back


def real_ray(ctx):
    """A few systems under the real Ray in a subprocess, some with workers killed in the middle of a task."""
    n = 3 if ctx.tier == "quick" else 12
    env = {k: v for k, v in os.environ.items()}
    env["RNV_REAL_RAY"] = "1"
    p = subprocess.Popen([sys.executable, os.path.join(core.VERIF, "tools", "real_ray_enum.py"), str(ctx.rng.randrange(10**6)), str(n)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=200 if ctx.tier == "quick" else 380)
    except subprocess.TimeoutExpired:
        import signal

        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        ctx.count("real_ray_timeouts")
        return
    lines = [json.loads(x[4:]) for x in out.splitlines() if x.startswith("RNV ")]
    if not lines:
        ctx.count("real_ray_unavailable")
        return
    for d in lines:
        ctx.count("real_ray_" + d["what"])
        if d["what"] == "run":
            ctx.count("real_ray_worker_kills", d["kills"])
            # reference: the same system under the simulator
            ref = reference(d["seed"])
            ctx.check(sorted(ref) == sorted(map(tuple, d["classes"])), "real-ray", lambda: f"real Ray gave {len(d['classes'])} reactions, the simulator {len(ref)}: {d['options']}")
        elif d["what"] == "crash":
            ctx.fail("real-ray-crash", d["error"])
    ctx.sig("real", len(lines))


def system(seed):
    import random

    rng = random.Random(seed)
    ents, els, T = gen.system(rng, 3, 5, poly=0.3, nist=0.2, mx=3)
    kind = ["Basic", "MinGibbs", "BasicOpen", "MinGrand"][seed % 4]
    forms = sorted({e.composition.reduced_formula for e in ents})
    openf = gen.el_formula(els[0])
    return GibbsEntrySet(ents), make(kind, rng, els, forms, openf, dict(chunk_size=rng.choice([2, 7, 30]), max_num_jobs=200)), kind


def flat(rxns):
    return sorted((repr(k), n) for k, n in classes(rxns).items())


def reference(seed):
    es, enum, kind = system(seed)
    fakeray.S.configure(seed=seed, num_cpus=4)
    return flat(enum.enumerate(es).get_rxns())


def case(ctx):
    rng = ctx.rng
    if ctx.index == 0:
        return real_ray(ctx)
    if ctx.index % 8 == 1:
        return iterator_case(ctx)
    union = rng.random() < 0.3
    kind = rng.choice(["Basic", "BasicOpen", "MinGibbs", "MinGrand"])
    n_el = rng.choice([2, 3, 3, 4])
    ents, els, T = gen.system(rng, n_el, rng.randint(2, 5), poly=0.35, el_poly=0.1, nist=0.15, mx=4)
    ents = ents[:11]
    # every element must stay present for phase diagrams
    for e in els:
        if gen.el_formula(e) not in {x.composition.reduced_formula for x in ents}:
            ents.append(gen.element_entry(rng, e, T))
    forms = sorted({e.composition.reduced_formula for e in ents})
    openf = gen.el_formula(rng.choice(els))
    if gen.el_formula("O") in forms and rng.random() < 0.6:
        openf = "O2"
    rest = [f for f in forms if f != openf]

    def options():
        o = {}
        if rng.random() < 0.3:
            o["precursors"] = rng.sample(rest, min(len(rest), rng.randint(1, 3)))
            o["exclusive_precursors"] = rng.random() < 0.5
        if rng.random() < 0.25:
            o["targets"] = rng.sample(rest, min(len(rest), rng.randint(1, 2)))
            o["exclusive_targets"] = rng.random() < 0.2
        return o

    if union:
        return union_case(ctx, ents, els, forms, openf, options)
    o = options()
    ctx.count(kind)
    es = GibbsEntrySet(ents)
    before = sorted(map(rs.ent_view, es))
    ctx.note([gen.desc(e) for e in ents], kind, o, openf)
    fakeray.S.configure(seed=1, num_cpus=4, order="fifo", eager=0.0)
    base_set = make(kind, rng, els, forms, openf, o).enumerate(es)
    ref = classes(base_set.get_rxns())
    total = sum(ref.values())
    schedules = []
    ctx.check(sorted(map(rs.ent_view, es)) == before, "entries-modified", "enumerate() changed the caller's entries")
    for _ in range(3 if ctx.tier == "quick" else 6):
        kw = dict(chunk_size=rng.choice([1, 1, 2, 3, 5, 8, 13, 50, 2500]), max_num_jobs=rng.choice([1, 2, 5, 40, 5000]))
        back = {}
        e2 = list(ents)
        if rng.random() < 0.6:
            e2, back = relabel(rng, ents)
            ctx.count("relabelled")
        else:
            rng.shuffle(e2)
        crash = rng.choice([0, 0, 0.1, 0.35])
        st = fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 2, 3, 8, 16]), order=rng.choice(["random", "random", "lifo", "fifo"]),
                                 crash_prob=crash, eager=rng.choice([0, 0.3, 1.0]))
        es2 = GibbsEntrySet(e2)
        got_set = make(kind, rng, els, forms, openf, {**o, **kw}).enumerate(es2)
        got = classes(got_set.get_rxns(), back)
        ctx.count("runs")
        ctx.count("tasks", st.tasks)
        ctx.count("crashes", st.crashes)
        ctx.count("multi_chunk_runs", st.tasks > 2)
        schedules.append(tuple(st.completion))
        ctx.check(got == ref, "differs",
                  lambda: f"{kind} {o} {kw} cpus={st.num_cpus} crashes={st.crashes} relabelled={bool(back)}: missing {list((ref - got).items())[:3]}, extra {list((got - ref).items())[:3]}")
        ctx.check(type(got_set).__name__ == type(base_set).__name__ and (not total or got_set.open_elem == base_set.open_elem), "set-kind", f"{got_set.open_elem} {base_set.open_elem}")
    if total:
        ctx.sig(before, kind, o, schedules)
    ctx.sample(dict(kind=kind, options=str(o), entries=len(ents), reactions=total, schedule=list(schedules[0])[:12]))


def union_case(ctx, ents, els, forms, openf, options):
    rng = ctx.rng
    kinds = [rng.choice(["Basic", "BasicOpen", "MinGibbs", "MinGrand"]) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:  # all closed
        kinds = [rng.choice(["Basic", "BasicOpen", "MinGibbs"]) for _ in kinds]
    opts = [options() for _ in kinds]
    ctx.note([gen.desc(e) for e in ents], kinds, opts, openf)
    es = GibbsEntrySet(ents)
    before = sorted(map(rs.ent_view, es))
    union = set()
    for k, o in zip(kinds, opts):
        fakeray.S.configure(seed=2, num_cpus=4)
        union |= set(classes(make(k, rng, els, forms, openf, o).enumerate(es).get_rxns()))
    st = fakeray.S.configure(seed=rng.randrange(2**31), num_cpus=rng.choice([1, 2, 8]), crash_prob=rng.choice([0, 0.2]))
    both = run_enumerators([make(k, rng, els, forms, openf, o) for k, o in zip(kinds, opts)], es)
    got = classes(both.get_rxns())
    ctx.count("unions")
    ctx.count("mixed_unions", len(set(kinds)) > 1)
    ctx.count("tasks", st.tasks)
    ctx.count("crashes", st.crashes)
    ctx.check(set(got) == union, "union", lambda: f"{kinds} {opts}: missing {list(union - set(got))[:3]}, extra {list(set(got) - union)[:3]}")
    ctx.check(all(v == 1 for v in got.values()), "union-duplicates", lambda: f"{kinds}: {[k for k, v in got.items() if v > 1][:3]}")
    ctx.check(sorted(map(rs.ent_view, es)) == before, "entries-modified", "run_enumerators changed the caller's entries")
    if union:
        ctx.sig(before, kinds, opts)


def iterator_case(ctx):
    """Gathering: every task's result exactly once, whatever the completion order."""
    rng = ctx.rng
    import ray

    @ray.remote
    def work(i):
        return i * i

    for _ in range(20):
        st = fakeray.S.configure(seed=rng.randrange(2**31), order=rng.choice(["random", "lifo", "fifo"]), crash_prob=rng.choice([0, 0.3]), eager=rng.choice([0, 0.5]))
        n = rng.randint(0, 12)
        ids = rng.random() < 0.5
        refs = [work.remote(i) for i in range(n)]
        idx = {r: i for i, r in enumerate(refs)}
        out = list(to_iterator(list(refs), get_obj_ids=True)) if ids else list(to_iterator(list(refs)))
        if ids:
            ctx.check(sorted((idx[r], v) for r, v in out) == [(i, i * i) for i in range(n)], "gather", str(out))
        else:
            ctx.check(sorted(out) == [i * i for i in range(n)], "gather", str(out))
        ctx.count("tasks", n)
        ctx.count("gathered", n)
        ctx.sig("gather", n, tuple(st.completion))
