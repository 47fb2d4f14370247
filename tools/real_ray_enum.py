"""Enumerations under the real Ray; every second one kills a worker in the middle of a task. Prints one JSON line per run."""
import json
import logging
import os
import sys
import tempfile
import time

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [V, "/repo/src"]
os.environ["PYTHONPATH"] = V + ":/repo/src"
os.environ.setdefault("TQDM_DISABLE", "1")
logging.disable(logging.CRITICAL)
seed0, n = int(sys.argv[1]), int(sys.argv[2])


def say(**k):
    print("RNV " + json.dumps(k), flush=True)


import ray

scratch = tempfile.mkdtemp(prefix="rnvray-", dir=os.environ.get("RNV_SCRATCH", "/tmp"))
try:
    ray.init(num_cpus=4, include_dashboard=False, logging_level="ERROR", log_to_driver=False, _temp_dir="/tmp/rnvray" if len(scratch) > 60 else scratch,
             object_store_memory=200 * 1024**2)
except Exception as e:  # noqa: BLE001
    say(what="unavailable", error=str(e)[:300])
    sys.exit(0)

from checks import c11


def killer(fn, flag):
    def wrapped(*a, **k):
        if not os.path.exists(flag):
            open(flag, "w").close()
            os._exit(1)
        return fn(*a, **k)

    return wrapped


try:
    for i in range(n):
        seed = seed0 * 16 + i
        es, enum, kind = c11.system(seed)
        kills = 0
        if i % 2 == 0:
            flag = os.path.join(scratch, f"flag{i}")
            enum._react_function = killer(type(enum)._react_function, flag)
            kills = 1
        rx = c11.flat(enum.enumerate(es).get_rxns())
        if kills:
            kills = int(os.path.exists(flag))
        say(what="run", seed=seed, kills=kills, classes=rx, options=[kind, enum.chunk_size])
except Exception as e:  # noqa: BLE001
    import traceback

    say(what="crash", error=traceback.format_exc()[-2500:])
ray.shutdown()
