"""A deterministic stand-in for the `ray` module.

Tasks run on pickled copies of their arguments (as they would in a worker process) and their results come
back as pickled copies.  *When* a task executes and *which* finished task `wait` reports is decided by the
installed scheduler, so every completion order can be enumerated.  The API surface is the part of ray that a
library like this one can reasonably use (init/put/get/wait/remote/options/timeline/...).
"""
import sys, types, itertools

import cloudpickle as _pk


class RayError(Exception):
    pass


class ObjectRef:
    _n = itertools.count()

    def __init__(self, task=None, value=None):
        self.i = next(ObjectRef._n)
        self.task = task
        self.blob = value
        self.done = task is None

    def __hash__(self):
        return self.i

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"ObjectRef({self.i})"


class Scheduler:
    """choice(n, what) -> index in range(n); the default answers 0 everywhere (FIFO)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # (n, chosen)

    def choice(self, n, what=""):
        if n <= 1:
            return 0
        k = len(self.points)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RayError(f"replay diverged: choice {c} of {n} at point {k}")
        self.points.append((n, c))
        return c


class World:
    def __init__(self):
        self.sched = Scheduler()
        self.inflight = []
        self.max_inflight = 0
        self.tasks = 0
        self.initialized = False
        self.eager = True


W = World()


def reset(sched=None, eager=True):
    W.__init__()
    if sched is not None:
        W.sched = sched
    W.eager = eager
    return W


def _run(ref):
    if ref.done:
        return
    f, blob = ref.task
    args, kw = _pk.loads(blob)
    args = [get(a) if isinstance(a, _RefToken) else a for a in args]
    kw = {k: get(v) if isinstance(v, _RefToken) else v for k, v in kw.items()}
    try:
        ref.blob = _pk.dumps((True, f(*args, **kw)))
    except Exception as e:  # delivered at get(), as ray does
        ref.blob = _pk.dumps((False, e))
    ref.done = True
    if ref in W.inflight:
        W.inflight.remove(ref)


_store = {}


class _RefToken:
    def __init__(self, i):
        self.i = i


def _tok(a):
    if isinstance(a, ObjectRef):
        _store[a.i] = a
        return _RefToken(a.i)
    return a


class RemoteFunction:
    def __init__(self, f, **opts):
        self._function = f
        self.__name__ = getattr(f, "__name__", "f")

    def options(self, **kw):
        return self

    def remote(self, *args, **kw):
        blob = _pk.dumps(([_tok(a) for a in args], {k: _tok(v) for k, v in kw.items()}))
        ref = ObjectRef((self._function, blob))
        W.tasks += 1
        W.inflight.append(ref)
        W.max_inflight = max(W.max_inflight, len(W.inflight))
        return ref

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly.")


def remote(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not kw:
        return RemoteFunction(a[0])
    return lambda f: RemoteFunction(f)


def put(v):
    r = ObjectRef(value=_pk.dumps((True, v)))
    return r


def get(x, timeout=None):
    if isinstance(x, _RefToken):
        x = _store[x.i]
    if isinstance(x, (list, tuple)):
        return [get(e) for e in x]
    _run(x)
    ok, v = _pk.loads(x.blob)
    if not ok:
        raise v
    return v


def wait(refs, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of objects")
    rest, ready = list(refs), []
    for _ in range(num_returns):
        i = W.sched.choice(len(rest), "wait")
        r = rest.pop(i)
        _run(r)
        ready.append(r)
    return ready, rest


def init(*a, **k):
    W.initialized = True
    return types.SimpleNamespace(address_info={})


def is_initialized():
    return W.initialized


def shutdown(*a, **k):
    W.initialized = False


def timeline(*a, **k):
    return []


def cancel(*a, **k):
    return None


def cluster_resources():
    return {"CPU": 8.0}


available_resources = cluster_resources


def install():
    sys.modules["ray"] = sys.modules[__name__]
