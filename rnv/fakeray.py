"""In-process stand-in for the parts of Ray the library uses.

It models what a Ray cluster guarantees and nothing more: every argument, put
object and result crosses a process boundary (it is pickled; arrays come back
read-only), tasks run at any moment before their result is needed, in any order,
complete in any order, and a task whose worker dies is run again from scratch.
All nondeterminism is drawn from one seeded generator, so a schedule replays.

Anything outside this subset raises Unsupported, and the runner then repeats the
check on the real Ray.
"""
import pickle
import random
import sys
import types

import cloudpickle


class Unsupported(BaseException):
    pass


class State:
    def __init__(self):
        self.configure()

    def configure(self, seed=0, num_cpus=4, order="random", crash_prob=0.0, eager=0.3, memory=8e9):
        self.rng = random.Random(seed)
        self.num_cpus, self.order, self.crash_prob, self.eager, self.memory = num_cpus, order, crash_prob, eager, memory
        self.initialized = True
        self.store, self.pending, self.next_id = {}, {}, 0
        self.puts = self.tasks = self.crashes = self.waits = self.timeouts = 0
        self.completion = []  # completion order (relative task numbers) = the schedule observed
        return self


S = State()


def _ser(x):
    bufs = []
    data = cloudpickle.dumps(x, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]


def _de(p):
    return pickle.loads(p[0], buffers=p[1])


class ObjectRef:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("ref", self.id))

    def __eq__(self, o):
        return isinstance(o, ObjectRef) and o.id == self.id

    def __reduce__(self):
        return ObjectRef, (self.id,)

    def hex(self):
        return f"{self.id:040x}"

    def __repr__(self):
        return f"ObjectRef({self.id})"


def _new():
    S.next_id += 1
    return ObjectRef(S.next_id)


def put(x, **kw):
    if isinstance(x, ObjectRef):
        raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed.")
    ref = _new()
    S.store[ref.id] = ("ok", _ser(x))
    S.puts += 1
    return ref


def _run(ref):
    n, fn, payload, opts = S.pending.pop(ref.id)
    retries = opts.get("max_retries", 3)

    def once():
        args, kwargs = _de(payload)
        args = [_value(a) if isinstance(a, ObjectRef) else a for a in args]
        kwargs = {k: _value(v) if isinstance(v, ObjectRef) else v for k, v in kwargs.items()}
        return fn(*args, **kwargs)

    try:
        while S.crash_prob and S.rng.random() < S.crash_prob:
            S.crashes += 1
            if retries == 0:
                raise sys.modules["ray.exceptions"].WorkerCrashedError("worker died and the task may not be retried")
            if S.rng.random() < 0.5:
                once()  # died after the work, before the result was stored
        res = ("ok", _ser(once()))
    except Exception as e:  # noqa: BLE001
        res = ("err", e)
    S.store[ref.id] = res
    S.completion.append(n)


def _value(ref):
    if ref.id in S.pending:
        _run(ref)
    if ref.id not in S.store:
        raise Unsupported(f"unknown object {ref}")
    kind, v = S.store[ref.id]
    if kind == "err":
        raise v
    return _de(v)


def get(refs, *, timeout=None, **kw):
    if timeout is not None and _late([refs] if isinstance(refs, ObjectRef) else refs):
        raise sys.modules["ray.exceptions"].GetTimeoutError("Get timed out: some object(s) not ready.")
    if isinstance(refs, ObjectRef):
        return _value(refs)
    if isinstance(refs, (list, tuple)):
        _progress(refs)
        return [get(r) for r in refs]
    raise ValueError("Invalid type of object refs")


def _progress(refs):
    """Run the unfinished tasks among refs in scheduler order."""
    todo = [r for r in refs if r.id in S.pending]
    if S.order == "random":
        S.rng.shuffle(todo)
    elif S.order == "lifo":
        todo.reverse()
    for r in todo:
        if r.id in S.pending:
            _run(r)


def _late(refs):
    """A time limit may pass before unfinished tasks end: no limit is long enough for every load."""
    if any(r.id in S.pending for r in refs) and S.rng.random() < 0.5:
        S.timeouts += 1
        return True
    return False


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True, **kw):
    if not isinstance(refs, list):
        raise TypeError("wait() expected a list of ray.ObjectRef")
    if not refs:
        raise ValueError("wait() expected a non-empty list")
    if len(set(refs)) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    S.waits += 1
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of objects")
    order = list(refs)
    if S.order == "random":
        S.rng.shuffle(order)
    elif S.order == "lifo":
        order.reverse()
    take = order[:num_returns]
    if timeout is not None and _late(take):
        take = [r for r in order if r.id not in S.pending][:num_returns]
    ready = set(take)
    for r in take:
        if r.id in S.pending:
            _run(r)
    return [r for r in order if r in ready], [r for r in refs if r not in ready]


class RemoteFunction:
    def __init__(self, fn, opts=None):
        self._function, self._opts = fn, opts or {}
        self.__name__ = getattr(fn, "__name__", "remote")
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__

    def remote(self, *args, **kwargs):
        ref = _new()
        S.tasks += 1
        S.pending[ref.id] = (S.tasks, self._function, _ser((args, kwargs)), self._opts)
        if S.rng.random() < S.eager:  # some tasks run at once, some only when needed
            _run(ref)
        nr = self._opts.get("num_returns", 1)
        if nr != 1:
            raise Unsupported("num_returns")
        return ref

    def options(self, **kw):
        return RemoteFunction(self._function, {**self._opts, **kw})

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly.")


def remote(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw:
        if isinstance(args[0], type):
            return _Actor(args[0])
        return RemoteFunction(args[0])

    def deco(f):
        return _Actor(f) if isinstance(f, type) else RemoteFunction(f, kw)

    return deco


class _Actor:
    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        raise Unsupported("actors")


def is_initialized():
    return S.initialized


def init(*a, **k):
    S.initialized = True


def shutdown(*a, **k):
    S.initialized = False


def cluster_resources():
    return {"CPU": float(S.num_cpus), "memory": float(S.memory), "object_store_memory": float(S.memory) / 2,
            "node:127.0.0.1": 1.0}


available_resources = cluster_resources


def nodes():
    return [{"NodeManagerHostname": "sim", "Alive": True, "Resources": cluster_resources()}]


def cancel(*a, **k):
    return None


def install():
    """Make `import ray` give this module (call before importing rxn_network)."""
    me = sys.modules[__name__]

    class Mod(types.ModuleType):
        def __getattr__(self, n):
            if hasattr(me, n):
                return getattr(me, n)
            if n.startswith("__"):
                raise AttributeError(n)
            raise Unsupported(f"ray.{n}")

    m = Mod("ray")
    m.__version__ = "sim"
    m.__path__ = []
    sys.modules["ray"] = m
    for sub in ("exceptions",):
        sm = types.ModuleType("ray." + sub)

        class RayError(Exception):
            pass

        for n in ("RayError", "RayTaskError", "GetTimeoutError", "WorkerCrashedError", "RayActorError", "TaskCancelledError"):
            setattr(sm, n, type(n, (RayError,), {}))
        sys.modules["ray." + sub] = sm
        setattr(m, sub, sm)
    return S
