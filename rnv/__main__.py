import argparse
import importlib
import os
import sys

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [V, "/repo/src"]
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
ap.add_argument("--case", type=int, action="append")
ap.add_argument("--n", type=int)
a = ap.parse_args()

import ast

src = open(os.path.join(V, "checks", a.property.lower() + ".py")).read()
ray_mode = "sim"
for node in ast.parse(src).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RAY":
        ray_mode = ast.literal_eval(node.value)
if ray_mode == "sim" and not os.environ.get("RNV_REAL_RAY"):
    from rnv import fakeray

    fakeray.install()
from rnv import core  # noqa: E402


def load():
    import logging

    logging.disable(logging.CRITICAL)
    # progress bars: keep the code path, drop the output
    os.environ.setdefault("TQDM_DISABLE", "1")
    return importlib.import_module("checks." + a.property.lower())


try:
    mod = load()
except Exception as e:  # noqa: BLE001
    if core.blame(e) == "code":
        # the library cannot be imported: the build itself is broken, nothing was observed
        print(core.tb_text(e))
    raise
rc = core.run(mod, a.tier, a.seed, replay=a.replay, only=a.case, ncases=a.n)
sys.stdout.flush()
if rc == 75 and not os.environ.get("RNV_REAL_RAY"):
    print("falling back to the real Ray")
    sys.stdout.flush()
    os.environ["RNV_REAL_RAY"] = "1"
    os.execv(sys.executable, [sys.executable, "-m", "rnv"] + sys.argv[1:])
os._exit(rc) if mod.__dict__.get("HARD_EXIT") else sys.exit(rc)
