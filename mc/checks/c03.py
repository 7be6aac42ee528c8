"""C03: simulation reports exactly the assertion violations of the execution, and stops there.

All controllers of a bounded family with labelled assertions (bare, under conditions, in else branches, in helper
functions, over other agents), with and without transitions, one to three agents, both continuation modes; sequential
and task-parallel execution.  Oracle: mc.refsim.
"""
import itertools
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent
from . import c02

CONDS = ("ego.x < 1", "ego.y < 0.75", "ego.x > -1", "not any(o.x > ego.x + 1 for o in others)", "all(o.y < 1 for o in others)", "ego.mode != AMode.B", "small(ego)")
TESTS = ("ego.mode == AMode.A", "ego.y >= 0.5", "ego.x + ego.y > 1")
PRE = """
def small(e):
    return e.x + e.y < 2
"""
EDGE = ("if", "ego.mode == AMode.A", [("if", "ego.x >= 1", [("set", "mode", "AMode.B")], [])], [])
EDGE2 = ("if", "ego.mode == AMode.A", [("if", "ego.y >= 1", [("set", "mode", "AMode.B"), ("set", "x", "ego.x - 2")], [])], [])


def A(c, l):
    return ("assert", c, l)


def forms(c1, c2, t1):
    """Assertion placements."""
    yield [A(c1, "L1")]
    yield [A(c1, "L1"), A(c2, "L2")]
    yield [("if", t1, [A(c1, "L1")], [])]
    yield [("if", t1, [A(c1, "L1")], [A(c2, "L2")])]
    yield [A(c2, "L2"), ("if", t1, [A(c1, "L1")], [])]
    yield [("if", t1, [("if", "ego.x > 0", [A(c1, "L1")], [A(c2, "L2")])], [A(c1, "L3")])]
    yield [A(f"not ({t1}) or {c1}", "L1"), A(f"{c1} and {c2}", "L2")]
    yield [("if", t1, [A(c1, "L1"), ("set", "mode", "AMode.C")], [A(c2, "L2")])]


def cases():
    out = []
    for c1, c2 in itertools.product(range(len(CONDS)), repeat=2):
        for t in range(len(TESTS)):
            for f in range(8):
                if f in (0, 2) and c2 != c1:
                    continue
                for e in (0, 1, 2, 3):
                    if not (THOROUGH or pick((c1, c2, t, f, e), 2)):
                        continue
                    out.append((c1, c2, t, f, e))
    return out


def stmts(case):
    c1, c2, t, f, e = case
    a = list(forms(CONDS[c1], CONDS[c2], TESTS[t]))[f]
    ed = [[], [EDGE], [EDGE2], [EDGE, EDGE2]][e]
    return (ed + a) if (c1 + t) % 2 else (a + ed)


def one(case, st):
    ctl = Ctl(stmts(case), preamble=PRE)
    other = RAgent("b", Ctl([]), c02.RATES[1], (0.25, 0.0), ("A",))
    for k, uc in ((0, False), (0, True), (2, False)):
        c02.run([RAgent("a", ctl, c02.RATES[k], (0.0, 0.0), ("A",)), other], 2.5, 0.5, 4, st, unsafe_continue=uc)


def multi_cases():
    base = [(c, c, t, f, e) for c in range(len(CONDS)) for t in (1, 2) for f in (0, 2, 3) for e in (0, 1)]
    n = len(base)
    out = []
    for i in range(n):
        for j in range(n):
            for uc in (0, 1):
                if THOROUGH or pick((i, j, uc), 3):
                    out.append((base[i], base[j], uc))
    return out


def multi(case, st):
    p, q, uc = case
    ags = [RAgent("a", Ctl(stmts(p), preamble=PRE), c02.RATES[0], (0.0, 0.0), ("A",)), RAgent("b", Ctl(stmts(q), preamble=PRE), c02.RATES[1], (0.5, -0.5), ("A",))]
    c02.run(ags, 2.5, 0.5, 4, st, unsafe_continue=bool(uc))


def par_cases():
    return [c + (uc,) for c in cases() if (c[0] * 3 + c[1] + c[3]) % 3 == 0 or c[4] == 3 for uc in (0, 1)]


def par(case, st):
    uc = case[-1]
    ctl = Ctl(stmts(case[:-1]), preamble=PRE)
    other = RAgent("b", Ctl([]), c02.RATES[1], (0.25, 0.0), ("A",))
    c02.run([RAgent("a", ctl, c02.RATES[0], (0.0, 0.0), ("A",)), other], 2.5, 0.5, 4, st, unsafe_continue=bool(uc), conf={"parallel": True})


def unlabelled(case, st):
    c, t = case
    ctl = Ctl([("if", TESTS[t], [A(CONDS[c], None)], [])], preamble=PRE)
    c02.run([RAgent("a", ctl, c02.RATES[0], (0.0, 0.0), ("A",)), RAgent("b", Ctl([]), c02.RATES[1], (0.25, 0.0), ("A",))], 2.5, 0.5, 4, st)


def fn_assert(case, st):
    """assertions inside helper functions count for the caller"""
    c, t, nested = case
    pre = PRE + f"def chk(e, os):\n    assert {CONDS[c].replace('ego', 'e').replace('others', 'os')}, 'L1'\n    return e.x > 1\n"
    ref = [A(CONDS[c], "L1"), ("if", "ego.x > 1", [("set", "mode", "AMode.C")], [])]
    src = [("if", "chk(ego, others)", [("set", "mode", "AMode.C")], [])]
    if nested:
        ref = [("if", TESTS[t], ref, [])]
        src = [("if", TESTS[t], src, [])]

    class C(Ctl):
        def source(self):
            return Ctl(src, preamble=pre).source()

    c02.run([RAgent("a", C(ref, preamble=PRE), c02.RATES[0], (0.0, 0.0), ("A",)), RAgent("b", Ctl([]), c02.RATES[1], (0.25, 0.0), ("A",))], 2.5, 0.5, 4, st)


def horizon_cases():
    return [(c, t, f, e, n, dt, uc) for c in range(len(CONDS)) for t in range(len(TESTS)) for f in (0, 2, 3, 7) for e in range(4) for n in range(1, 7) for dt in (0.5, 0.25) for uc in (0, 1)]


def horizon(case, st):
    """Violations wherever they fall: on the first sample, in between, on the last one."""
    c, t, f, e, n, dt, uc = case
    ctl = Ctl(stmts((c, (c + t + 1) % len(CONDS), t, f, e)), preamble=PRE)
    c02.run([RAgent("a", ctl, c02.RATES[draw(case, 3)], (0.0, 0.0), ("A",)), RAgent("b", Ctl([]), c02.RATES[1], (0.25, 0.0), ("A",))], n * dt, dt, 4, st, unsafe_continue=bool(uc))


CASES = {"horizon": horizon, "one": one, "multi": multi, "parallel": par, "unlabelled": unlabelled, "functions": fn_assert}


def main():
    ck = core.Check("C03")
    ck.bounds = {
        "one": "7 conditions (pairs) x 3 enclosing tests x 8 placements x 4 transition sets, 2 flow tables, both continuation modes",
        "multi": "pairs of controllers of the same family on two agents",
        "horizon": "one condition under each test and transition set x every horizon from 1 to 6 steps of two sizes",
        "parallel": "the same controllers with task-parallel execution (results cross a process boundary)",
    }
    ck.explore("one", one, cases())
    ck.explore("horizon", horizon, [c for c in horizon_cases() if THOROUGH or pick(c, 2)])
    ck.explore("multi", multi, multi_cases())
    ck.explore("parallel", par, par_cases())
    ck.explore("unlabelled", unlabelled, list(itertools.product(range(len(CONDS)), range(3))))
    ck.explore("functions", fn_assert, list(itertools.product((0, 1, 2, 3, 4, 5), range(3), (0, 1))))
    c = ck.stats.c
    return ck.finish(c.get("nodes", 0), c.get("ref_steps", 0), c.get("trees", 0))
