"""Building scenarios around generated controllers and reading back analysis trees in a canonical form."""
import math, enum, tempfile
import numpy as np
from .core import draw
from verse import BaseAgent, Scenario, ScenarioConfig
from verse.parser.parser import ControllerIR


def times(T, dt):
    n = int(round(T / dt))
    return np.array([round(i * dt, 8) for i in range(n + 1)])


class RateAgent(BaseAgent):
    """x_i(t) = x_i(0) + rate[mode][i] * t, exactly."""

    def __init__(self, id, code=None, rates=None, key=0):
        if code is None:
            self.decision_logic = ControllerIR.empty()
            self.id = id
            self.init_cont = self.init_disc = None
            self.static_parameters = self.uncertain_parameters = None
        else:
            # the controller as text, in a file, or as text with a file's name
            how = draw((id, code), 3)
            if how == 1:
                with tempfile.NamedTemporaryFile("w", suffix=".py") as f:
                    f.write(code)
                    f.flush()
                    super().__init__(id, file_name=f.name)
            else:
                super().__init__(id, code=code, **({"file_name": "controller.py"} if how else {}))
        self.rates = rates
        self.key = key
        self.calls = 0

    def rate(self, mode):
        if self.rates is None:
            return None
        k = mode[self.key] if not isinstance(mode, str) else mode
        return self.rates.get(k)

    def TC_simulate(self, mode, init, T, dt, lane_map=None):
        self.calls += 1
        t = times(T, dt)
        x0 = np.array(init, dtype=float)
        r = self.rate(mode)
        r = np.zeros(len(x0)) if r is None else np.array(r, dtype=float)
        return np.hstack([t.reshape(-1, 1), x0 + np.outer(t, r)])


def cfg(**k):
    d = dict(parallel=False, print_level=0)
    d.update(k)
    return ScenarioConfig(**d)


def enums(ctl, disc, fields=None):
    """disc names -> Enum members carrying these names (what a user passes to set_init)."""
    fields = fields or ctl.fields
    types_ = [t for f, t in fields if "mode" in f]
    return tuple(ctl.ns[t][d] for t, d in zip(types_, disc))


def rnd(v, nd=6):
    v = float(v)
    if v != v:
        return "nan"
    r = round(v, nd)
    return 0.0 if r == 0 else r


def rvec(v, nd=6):
    return tuple(rnd(e, nd) for e in v)


def norm_asserts(h):
    """assert hits of a node as {agent: frozenset(labels)}"""
    if not h:
        return {}
    if isinstance(h, tuple):
        h = h[0]
    out = {}
    for a, ls in (h or {}).items():
        if not ls:
            continue
        if isinstance(ls, str):
            ls = [ls]
        out[a] = frozenset(str(x) for x in ls)
    return out


def mode_t(m):
    m = (m,) if isinstance(m, str) else m
    return tuple(e if isinstance(e, str) else e.name for e in m)


def canon_sim(node, explored, with_asserts=True, nd=6):
    """Canonical form of a simulation (sub)tree; children form a set."""
    tr = None
    ex = explored(node)
    if ex:
        tr = tuple((a, tuple(rvec(r, nd) for r in node.trace[a])) for a in sorted(node.trace))
    modes = tuple((a, mode_t(node.mode[a])) for a in sorted(node.mode))
    init = tuple((a, rvec(node.init[a], nd)) for a in sorted(node.init))
    hits = tuple(sorted((a, tuple(sorted(s))) for a, s in norm_asserts(node.assert_hits).items())) if with_asserts else ()
    ch = tuple(sorted(set(canon_sim(c, explored, with_asserts, nd) for c in node.child), key=repr))
    return (rnd(node.start_time, nd), modes, init, tr, hits, ch)


def explored_by(horizon, max_height):
    mh = float("inf") if max_height is None else max_height

    def f(node):
        return node.height < mh - 1 and round(horizon - node.start_time, 8) > 0

    return f


def first_diff(a, b, path="root"):
    """Where two canonical trees differ, for the message."""
    names = ["start_time", "modes", "init", "trace", "assert_hits", "children"]
    for i, n in enumerate(names[:5]):
        if a[i] != b[i]:
            return f"{path}.{n}: got {str(a[i])[:400]} expected {str(b[i])[:400]}"
    if len(a[5]) != len(b[5]):
        ga = [(c[0], c[1], c[2]) for c in a[5] if c not in b[5]]
        gb = [(c[0], c[1], c[2]) for c in b[5] if c not in a[5]]
        return f"{path}: {len(a[5])} children, expected {len(b[5])}; extra {str(ga)[:300]} missing {str(gb)[:300]}"
    for i, (x, y) in enumerate(zip(a[5], b[5])):
        if x != y:
            return first_diff(x, y, f"{path}.child[{i}]")
    return "no difference"


def count(c):
    return 1 + sum(count(k) for k in c[5])


def canon_ver(node, explored, nd=5):
    """Canonical form of a verification (sub)tree; children form a set."""
    ex = explored(node)
    tr = tuple((a, tuple(rvec(r, nd) for r in node.trace[a])) for a in sorted(node.trace)) if ex else None
    modes = tuple((a, mode_t(node.mode[a])) for a in sorted(node.mode))
    init = tuple((a, tuple(tuple(rvec(b, nd) for b in rect) for rect in node.init[a])) for a in sorted(node.init))
    hits = tuple(sorted((a, tuple(sorted(s))) for a, s in norm_asserts(node.assert_hits).items()))
    ch = tuple(sorted(set(canon_ver(c, explored, nd) for c in node.child), key=repr))
    return (rnd(node.start_time, nd), modes, init, tr, hits, ch)


def approx_eq(a, b, tol=1e-5):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(approx_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol
    return a == b
