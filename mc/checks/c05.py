"""C05: incremental runs give the result of a run without a cache, after every history of runs and changes.

Histories of operations on one scenario (incremental=True) are enumerated: change an initial set, swap a controller,
change horizon or time step, simulate or verify.  Every run in a history is compared with a fresh, cache-free run of
the same scenario state.
"""
import itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH
from ..prog import Ctl
from ..world import RateAgent, cfg, enums, canon_sim, canon_ver, explored_by, first_diff, approx_eq, count
from ..refsim import RAgent, ref_tree
from . import c02, c08
from verse import Scenario
from verse.parser.parser import ControllerIR

RATES = ({"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.25, -0.5)}, {"A": (0.5, 1.0), "B": (1.0, 0.5), "C": (0.0, 0.25)})
ASSERT = [("assert", "ego.x < 2.3", "far")]
CTL = {
    "0": c02.prog(("A", "ego.x >= 1", "B", ())),
    "g": c02.prog(("A", "ego.x >= 0.5", "B", ())),  # guard of the transition changed (earlier)
    "G": c02.prog(("A", "ego.x >= 1.25", "B", ())),  # later
    "d": c02.prog(("A", "ego.x >= 1", "C", ())),  # destination changed
    "+": c02.prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.y >= 0.75", "C", ())),  # added
    "p": c02.prog(("A", "ego.x >= 1", "B", ()), ("B", "ego.y >= 1", "C", (("set", "y", "0"),))),
    "r": c02.prog(("A", "ego.x >= 1", "B", ()), ("B", "ego.y >= 1", "C", (("set", "y", "ego.y - 1"),))),  # reset changed
    "-": [],
    "a": c02.prog(("A", "ego.x >= 1", "B", ())) + [("assert", "ego.x < 0.75", "far")],
    "b": c02.prog(("A", "ego.x >= 1", "B", ())) + [("assert", "ego.y < 0.6", "high")],
    "o": c02.prog(("A", "any(o.x >= 1.5 for o in others)", "B", ())),
    "O": c02.prog(("A", "any(o.mode == AMode.B for o in others)", "C", ())),
    "n": c02.prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.x >= 1", "C", ())),
}
INITS = {"0": ((0.013, 0.017), (0.213, 0.117)), "1": ((0.113, 0.067), (0.163, 0.067)), "2": ((0.413, 0.317), (0.563, 0.367)), "3": ((-0.3, 0.517), (-0.1, 0.617))}
OPS_INITS = [k for k in INITS if k != "0"]
# boxes reaching over the base box at one or both ends, in one or both dimensions
_AX = {"-": (0.013, 0.213), "u": (0.013, 1.313), "d": (-0.987, 0.213), "w": (-0.987, 1.313), "h": (0.763, 1.313), "l": (-0.987, -0.287)}
BOXES = {i + j: tuple(zip(_AX[i], _AX[j])) for i in _AX for j in _AX}
INITS.update(BOXES)
CTL["x"] = c02.prog(("A", "ego.y <= -1.5", "B", ()), ("A", "ego.x >= 2.5", "C", (("set", "y", "0.1"),)))
CTL["X"] = c02.prog(("A", "ego.y <= -1.5", "B", ())) + [("assert", "ego.x < 2.5", "far")]
DOWN = ({"A": (1.0, -0.5), "B": (0.5, 1.0), "C": (0.25, -0.5)},) * 2  # every guard of x, X stays enabled once it is
OPS_CTL = [k for k in CTL if k not in "xX"]
RUNS = {"0": (2.0, 0.25), "T": (1.0, 0.25), "L": (3.0, 0.25), "s": (2.0, 0.5)}


class State:
    """What a user sees of the scenario: controllers, initial sets, the run parameters."""

    def __init__(self, n):
        self.ctl = ["0"] * n
        self.init = ["0"] * n
        self.run = "0"
        self.rates = RATES

    def key(self):
        return (tuple(self.ctl), tuple(self.init), self.run, self.rates is RATES)


_ctl = {}


def ctl(k):
    if k not in _ctl:
        _ctl[k] = Ctl(CTL[k])
    return _ctl[k]


def set_init(s, st):
    n = len(st.init)
    s.set_init([[list(e) for e in INITS[k]] for k in st.init], [enums(ctl("0"), ("A",))] * n)


def build(st, **k):
    s = Scenario(cfg(**k))
    for i, c in enumerate(st.ctl):
        s.add_agent(RateAgent(f"a{i}", code=ctl(c).source(), rates=st.rates[i % 2]))
    set_init(s, st)
    return s


def run(s, st, what, opts):
    T, dt = RUNS[st.run]
    if what == "S":
        t = s.simulate(T, dt, seed=7)
        return canon_sim(t.root, explored_by(T, None)), t
    t = s.verify(T, dt)
    return canon_ver(t.root, explored_by(T, None)), t


_ref = {}


def executions(st, opts):
    """Executions of the reference from a grid of the initial sets which verification without a cache covers"""
    k = (st.key(), opts)
    if k not in _ref:
        T, dt = RUNS[st.run]
        _ref[k] = []
        V = c08.VNode(run(build(st, **dict(opts)), st, "V", opts)[1].root, explored_by(T, None))
        for p in itertools.product(*[c08.pts(INITS[i]) for i in st.init]):
            ags = [RAgent(f"a{i}", ctl(c), st.rates[i % 2], x, ("A",)) for i, (c, x) in enumerate(zip(st.ctl, p))]
            r = ref_tree(ags, T, dt, None, False, None, None)
            if c08.match(r, V, len(st.init), False, core.Stats()) is None:
                _ref[k].append((p, r))
    return _ref[k]


_fresh = {}


def fresh(st, what, opts):
    k = (st.key(), what, opts)
    if k not in _fresh:
        _fresh[k] = run(build(st, **dict(opts)), st, what, opts)[0]
    return _fresh[k]


def apply_op(s, st, op):
    kind, i, v = op
    if kind == "init":
        st.init[i] = v
        set_init(s, st)
    elif kind == "ctl":
        st.ctl[i] = v
        s.agent_dict[f"a{i}"].decision_logic = ControllerIR.parse(code=ctl(v).source())
    elif kind == "run":
        st.run = v


def history(case, st):
    what, start, ops, opts = case
    h = State(len(start))
    h.ctl = list(start)
    if ops[0] == "from":
        h.init = list(ops[1])
        h.rates = DOWN
        ops = ops[2:]
    s = build(h, incremental=True, **dict(opts))
    seen = []
    for op in ((None,),) + ops:
        if op[0]:
            apply_op(s, h, op)
        st.add("runs")
        got, tree = run(s, h, what, opts)
        exp = fresh(h, what, opts)
        st.add("nodes", count(exp))
        seen.append((op, h.key()))
        if what == "V" and not approx_eq(got, exp) and (len({k for _, k in seen}) > 1 or h.rates is DOWN):
            # tubes of larger cached sets may be used: the result has to cover all executions
            V = c08.VNode(tree.root, explored_by(RUNS[h.run][0], None))
            for p, r in executions(h, opts):
                st.add("executions")
                w = c08.match(r, V, len(h.init), False, st)
                if w is not None:
                    raise Violation("an incremental verification run misses an execution", start=p, why=w, history=seen, controllers={c: ctl(c).source() for c in h.ctl})
        elif not approx_eq(got, exp):
            raise Violation("an incremental run differs from a run without cache", history=seen, diff=first_diff(got, exp), controllers={c: ctl(c).source() for c in h.ctl})
        st.outcome(exp)


SAME = ("run", 0, "0")


def ops1(n):
    out = [("run", 0, v) for v in RUNS]
    out += [("init", i, v) for i in range(n) for v in OPS_INITS]
    out += [("ctl", i, v) for i in range(n) for v in OPS_CTL]
    return out


def cases():
    out = []
    for what in "SV":
        for start in (("0",), ("p",), ("n",), ("0", "0"), ("0", "o"), ("p", "O"), ("n", "-")):
            n = len(start)
            one = ops1(n)
            for a in one:
                out.append((what, start, (a,), ()))
            for j, (a, b) in enumerate(itertools.product(one, one)):
                if a == b or not (THOROUGH or j % 7 == len(start[0]) % 7):
                    continue
                out.append((what, start, (a, b), ()))
    two = list(BOXES)
    three = [k for k in two if k in ("--", "-u", "u-", "-h", "-w", "w-", "d-", "-d", "uu", "wl", "hd")]
    for what in "SV":
        for c in "xX":
            for a, b in itertools.permutations(two, 2):
                if what == "S" and not THOROUGH and "u" not in a + b:
                    continue
                out.append((what, (c,), ("from", (a,), ("init", 0, b)), ()))
            if THOROUGH or c == "x":
                for a, b, d in itertools.permutations(three, 3):
                    if THOROUGH or (what == "V" and "w" not in a + b + d):
                        out.append((what, (c,), ("from", (a,), ("init", 0, b), ("init", 0, d)), ()))
        for a, b in itertools.permutations(three, 2):
            out.append((what, ("x", "o"), ("from", (a, "--"), ("init", 0, b)), ()))
            out.append((what, ("o", "x"), ("from", ("--", a), ("init", 1, b)), ()))
    return out


CASES = {"history": history}


def main():
    ck = core.Check("C05")
    ck.bounds = {"sets": "all ordered pairs of 36 boxes (nested, overlapping at either end, disjoint) and triples of a sub-family, two controllers with guards beyond one side of each dimension",
                 "history": f"all histories of one and two changes (quick: every 7th pair) out of {len(ops1(2))} for two agents, 7 starting scenarios, simulate and verify"}
    ck.assumptions = ["the map, agent dynamics and sensor do not change (documented as undefined)"]
    ck.explore("history", history, cases())
    c = ck.stats.c
    return ck.finish(c.get("nodes", 0), c.get("runs", 0), c.get("runs", 0))
