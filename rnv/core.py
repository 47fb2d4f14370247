"""Shared machinery: case runner, verdicts, evidence, known findings, replay."""
import collections
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = "/repo"
SRC = os.path.join(REPO, "src")
NPROC = min(8, os.cpu_count() or 1)


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one case reports: violations, event counters, signatures of distinct cases, samples."""

    def __init__(self, rng, tier, index):
        self.rng, self.tier, self.index = rng, tier, index
        self.violations, self.counters, self.sigs, self.samples = [], collections.Counter(), set(), []
        self._trail = []

    def count(self, name, n=1):
        self.counters[name] += n

    def sig(self, *parts):
        """Register a distinct non-trivial case."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if isinstance(s, (str, dict, list)) else str(s))

    def note(self, *a):
        self._trail.append(" ".join(str(x) for x in a)[:2000])
        del self._trail[:-40]

    def check(self, ok, key, msg=""):
        """One oracle decision. `key` names the mechanism (used for known findings)."""
        self.counters["oracle_decisions"] += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(ok)

    def fail(self, key, msg=""):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, msg=str(msg)[:3000], trail=list(self._trail[-12:])))


def case_rng(seed, pid, index):
    h = hashlib.sha256(f"{seed}|{pid}|{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def blame(exc):
    """'code' if the exception was raised in (or below a call from) the code under test, else 'harness'."""
    frames = traceback.extract_tb(exc.__traceback__)
    for f in reversed(frames):
        fn = os.path.realpath(f.filename)
        if fn.startswith(SRC):
            return "code"
        if fn.startswith(VERIF):
            return "harness"
    return "harness"


def tb_text(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3500:]


def where(exc):
    """Innermost repository function: identifies the mechanism of a crash."""
    for f in reversed(traceback.extract_tb(exc.__traceback__)):
        if os.path.realpath(f.filename).startswith(SRC):
            return f"{os.path.basename(f.filename)}:{f.name}"
    return "?"


_check = None


def run_one(args):
    seed, tier, index, limit = args
    mod = _check
    ctx = Ctx(case_rng(seed, mod.ID, index), tier, index)
    import numpy as np

    np.random.seed(ctx.rng.randrange(2**31))
    random.seed(ctx.rng.randrange(2**31))
    err = None

    def on_alarm(*_):
        raise CaseTimeout()

    t0 = time.time()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.case(ctx)
    except CaseTimeout:
        err = "timeout"
    except Exception as e:  # noqa: BLE001
        if blame(e) == "code":
            ctx.fail(f"crash:{where(e)}:{type(e).__name__}", tb_text(e))
        else:
            err = tb_text(e)
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ == "Unsupported":
            err = "unsupported-ray: " + str(e) + "\n" + tb_text(e)
        elif isinstance(e, (SystemExit, KeyboardInterrupt)):
            if isinstance(e, KeyboardInterrupt):
                raise
            err = tb_text(e)
        else:
            err = tb_text(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(index=index, violations=ctx.violations, counters=dict(ctx.counters), sigs=list(ctx.sigs),
                samples=ctx.samples, err=err, dt=time.time() - t0)


def known_findings(pid):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in d.get("known", []) if e["property"] == pid}


def run(mod, tier, seed, replay=None, only=None, ncases=None):
    global _check
    _check = mod
    pid = mod.ID
    t0 = time.time()
    limit = getattr(mod, "CASE_SECONDS", {"quick": 120, "thorough": 300})[tier]
    budget = getattr(mod, "BUDGET", {"quick": 420, "thorough": 3300})[tier]
    n = ncases or mod.CASES[tier]
    indices = list(range(n))
    if replay is not None:
        d = json.load(open(replay))
        seed, tier, indices = d["seed"], d["tier"], [d["case"]]
    elif only is not None:
        indices = only
    scratch = tempfile.mkdtemp(prefix=f"rnv-{pid}-", dir="/tmp")
    os.environ["RNV_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    results, errors, skipped = [], [], 0
    try:
        if hasattr(mod, "prepare"):
            try:
                mod.prepare(tier)
            except Exception as e:  # noqa: BLE001
                if blame(e) != "code":
                    raise
                results.append(dict(index=-1, violations=[dict(key=f"crash:{where(e)}:{type(e).__name__}", msg=tb_text(e), trail=[])],
                                    counters={}, sigs=[], samples=[], err=None, dt=0))
        if not results:
            nproc = min(getattr(mod, "PROCS", NPROC), len(indices))
            jobs = [(seed, tier, i, limit) for i in indices]
            if nproc <= 1:
                for j in jobs:
                    if time.time() - t0 > budget:
                        skipped += 1
                        continue
                    results.append(run_one(j))
            else:
                ctxm = mp.get_context("fork")
                with cf.ProcessPoolExecutor(nproc, mp_context=ctxm) as ex:
                    it = iter(jobs)
                    live = set()
                    chunk = max(1, min(getattr(mod, "CHUNK", 4), len(jobs) // (nproc * 4) or 1))
                    more = True
                    nviol = 0
                    while True:
                        while more and len(live) < nproc * 2 and time.time() - t0 <= budget and nviol < 200:
                            batch = [j for _, j in zip(range(chunk), it)]
                            if not batch:
                                more = False
                                break
                            live.add(ex.submit(_run_batch, batch))
                        if not live:
                            break
                        done, live = cf.wait(live, return_when=cf.FIRST_COMPLETED)
                        for f in done:
                            for r in f.result():
                                results.append(r)
                                nviol += len(r["violations"])
                    skipped = len(list(it))
        if hasattr(mod, "finish"):
            mod.finish()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    results.sort(key=lambda r: r["index"])
    counters, sigs, samples, viols = collections.Counter(), set(), [], []
    for r in results:
        counters.update(r["counters"])
        sigs.update(r["sigs"])
        if len(samples) < 4:
            samples += r["samples"][:2]
        if r["err"]:
            errors.append((r["index"], r["err"]))
        for v in r["violations"]:
            viols.append({**v, "case": r["index"]})
    known = known_findings(pid)
    new = [v for v in viols if v["key"] not in known]
    hit = collections.Counter(v["key"] for v in viols if v["key"] in known)
    unreached = [k for k in getattr(mod, "NEED", ["oracle_decisions"]) if not counters.get(k)]
    if replay is None and only is None:
        ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
                  coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE,
                                samples=samples or ["(none)"], observed=dict(sorted(counters.items())),
                                planned_cases=n, skipped_for_time=skipped,
                                ray="real" if os.environ.get("RNV_REAL_RAY") or getattr(mod, "RAY", "sim") == "real" else "simulated"
                                if getattr(mod, "RAY", "sim") == "sim" else "none",
                                known_findings_seen=dict(hit)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    for k, c in hit.items():
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']} [{c}x]")
    print(f"{pid} {tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct, {sum(counters.values())} events, "
          f"{counters.get('oracle_decisions', 0)} oracle decisions, {len(new)} violations, {len(errors)} errors, "
          f"{skipped} skipped, {time.time() - t0:.1f}s")
    if new:
        seen = set()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            name = f"{pid}-{hashlib.md5((v['key'] + str(seed) + str(v['case'])).encode()).hexdigest()[:8]}.json"
            path = os.path.join(VERIF, "replays", name)
            json.dump(dict(property=pid, seed=seed, tier=tier, case=v["case"], key=v["key"], msg=v["msg"], trail=v["trail"],
                           rerun=f"./check {pid} --replay replays/{name}"), open(path, "w"), indent=1)
            if len(seen) <= 8:
                print(f"VIOLATION property={pid} replay=replays/{name}")
                print(f"  key={v['key']} case={v['case']} ({sum(1 for w in new if w['key'] == v['key'])}x)")
                print("  " + v["msg"].replace("\n", "\n  ")[-1800:])
        return 1
    if errors:
        print(f"INCONCLUSIVE property={pid}: {len(errors)} case(s) without a verdict")
        for i, e in errors[:3]:
            print(f"  case {i}: {e[-1500:]}")
        if any(e.startswith("unsupported-ray") for _, e in errors):
            return 75
        return 3
    if replay is None and only is None and (unreached or len(sigs) < getattr(mod, "MIN_DISTINCT", 2)):
        print(f"INCONCLUSIVE property={pid}: monitors never reached: {unreached}; distinct={len(sigs)}")
        return 4
    return 0


def _run_batch(batch):
    return [run_one(j) for j in batch]
