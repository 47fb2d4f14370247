#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies of /repo (never in /repo itself).

usage: plant.py ID...            for each /verif/seeded/ID: apply the patch to a copy that a private
                                 mount namespace shows as /repo, build, run the stable tests and the
                                 demonstration with and without it, then the check of its property.
       plant.py --checks-only ID...
"""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

SEED = "/verif/seeded"
BASE = "134f555"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def originals(patch):
    """removed lines of the patch that are lines of the original repository"""
    f = None; n = 0; tot = orig = 0
    blame = {}
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            n += 1; tot += 1
            if f not in blame:
                out = sh(f"git -C /repo blame -s --abbrev=12 HEAD -- {f}").stdout.splitlines()
                blame[f] = out
            if blame[f][n - 1].startswith("^" + BASE) or blame[f][n - 1].startswith(BASE):
                orig += 1
        elif l.startswith(" "):
            n += 1
    return orig, tot


def run(bid, checks_only=False, props=None):
    d = f"{SEED}/{bid}"
    meta = json.load(open(f"{d}/meta.json"))
    res = {"id": bid}
    res["orig"] = "%d/%d" % originals(f"{d}/patch.diff")
    w = tempfile.mkdtemp(prefix="pl.", dir="/tmp/plant")
    try:
        shutil.copytree("/repo", f"{w}/repo", symlinks=True)
        shutil.copytree(d, f"{w}/demo"); os.remove(f"{w}/demo/patch.diff"); os.remove(f"{w}/demo/meta.json")
        shutil.copytree("/verif", f"{w}/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        def ns(cmd, t=1000):
            full = f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount -t tmpfs tmpfs /mnt && cd /repo && {cmd}"
            try:
                return subprocess.run(["unshare", "-m", "bash", "-c", full], capture_output=True, text=True, timeout=t)
            except subprocess.TimeoutExpired as e:
                class R: returncode = 124; stdout = str(e.stdout)[-500:]; stderr = ""
                return R
        if not checks_only:
            r = ns(f"bash {w}/demo/demo.sh", 300); res["demo_clean"] = r.returncode
            if r.returncode: res["demo_out"] = (r.stdout + r.stderr)[-600:]
        shutil.copy(f"{d}/patch.diff", f"{w}/p.diff")
        r = ns(f"git apply {w}/p.diff"); res["apply"] = r.returncode
        if r.returncode: res["err"] = r.stderr; return res
        if not checks_only:
            r = ns("bash /opt/vp/build.sh"); res["build"] = r.returncode
            r = ns(f"bash {w}/demo/demo.sh", 300); res["demo_bug"] = r.returncode
            res["demo_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:] 
            r = ns(f"bash /opt/vp/test.sh {w}/t.json", 900); res["tests"] = r.stdout.strip().splitlines()[-1:]
            res["failed"] = [l for l in r.stdout.splitlines() if l.startswith("FAILED") and "test_entry_job" not in l][:5]
        man = json.load(open("/verif/MANIFEST.json"))
        for p in props or [meta["property"]]:
            r = ns(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check {p}", 900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res["check_" + p] = (r.returncode, len(v), (r.stdout + r.stderr).strip().splitlines()[-3:] if r.returncode not in (0,) else "QUIET")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == "__main__":
    a = sys.argv[1:]; co = "--checks-only" in a
    j = 3
    props = None
    for x in list(a):
        if x.startswith("-j"): j = int(x[2:])
        if x.startswith("-p"): props = x[2:].split(",")
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(SEED))
    os.makedirs("/tmp/plant", exist_ok=True)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(run, i, co, props) for i in ids]):
            try: r = f.result()
            except Exception as e: r = {"EXC": repr(e)}
            print(json.dumps(r, indent=1)); sys.stdout.flush()
