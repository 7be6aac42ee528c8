"""C07: the verifier's assertion verdict over a reachable box is sound, and precise where the box decides it.

All assertion programs of a bounded family x boxes; oracle: the assertions interpreted at every point of a grid with a
representative of every cell.  A violation at some point must be reported; an assertion that holds at every point, or
whose path condition holds nowhere, must not be.
"""
import itertools
from .. import core
from ..core import Violation, THOROUGH
from ..prog import Ctl
from ..refsim import label_of
from ..world import RateAgent, cfg, enums, norm_asserts, mode_t, rnd
from . import c03, c06
from .c06 import B, rbox
from verse import Scenario

CONDS = c03.CONDS + ("ego.x + ego.y * 2 <= 4", "not (ego.x > 1 and ego.y > 1)", "ego.x < 1 or ego.mode == AMode.B", "all(o.x - ego.x > -0.5 for o in others if o.mode == AMode.B)")
TESTS = c03.TESTS + ("any(o.x > ego.x for o in others)", "ego.x != 1")
EDGES = ([], [c03.EDGE], [c03.EDGE2])
EBOXES = c06.EBOXES + [(B(0.0, 0.5, 0.0, 0.25), ("B",)), (B(0.75, 1.0, 0.5, 0.75), ("A",))]
OTHERS = (((B(0.0, 1.0, 0.5, 0.5), ("A",)),), ((B(0.5, 0.75, 0.0, 0.0), ("B",)), (B(2.5, 3.0, 0.5, 1.5), ("B",))))


def cases():
    out = []
    for c1, c2 in itertools.product(range(len(CONDS)), repeat=2):
        for t in range(len(TESTS)):
            for f in range(8):
                if f in (0, 2) and c2 != c1:
                    continue
                if not THOROUGH and f not in (0, 2) and (c1 * 3 + c2 + t + f) % 4:
                    continue
                for e in range(3):
                    if not THOROUGH and (c1 + c2 + t + e + f) % 3:
                        continue
                    out.append((c1, c2, t, f, e, (c1 + t + f) % 2))
    return out


def ctl_of(case):
    c1, c2, t, f, e, o = case
    a = list(c03.forms(CONDS[c1], CONDS[c2], TESTS[t]))[f]
    return Ctl((EDGES[e] + a) if (c1 + t) % 2 else (a + EDGES[e]), preamble=c03.PRE)


def one(case, st):
    ctl = ctl_of(case)
    others = OTHERS[case[5]]
    s = c06.impl_step(ctl, None, None, others)
    n = len(EBOXES)
    pick = range(n) if THOROUGH else [(case[0] + case[2] + k) % n for k in (0, 2, 5)]
    for ebox, disc in (EBOXES[i] for i in pick):
        judge(s, ctl, ebox, disc, others, st)


def judge(s, ctl, ebox, disc, others, st):
    root = c06.run_impl(s, ctl, ebox, disc, others)
    st.add("verify_steps")
    got = norm_asserts(root.assert_hits).get("ego1", frozenset())
    extra = {a for a in norm_asserts(root.assert_hits) if a != "ego1"}
    if extra:
        raise Violation("an agent without assertions is reported", agents=sorted(extra))
    hits, enabled, hull = c06.box_step(ctl, ebox, disc, others)
    must = {label_of(i, h[0]) for i, h in hits.items() if h[1]}
    may = {label_of(i, h[0]) for i, h in hits.items() if h[2] and h[3]}
    st.add("asserts", len(hits))
    st.outcome((sorted(must), sorted(may), sorted(got)))
    kw = dict(box=ebox, mode=disc, others=others, got=sorted(got), violated_somewhere=sorted(must), source=ctl.source())
    if not must <= set(got):
        raise Violation("an assertion violated inside the reachable set is not reported", **kw)
    if not set(got) <= may:
        # a finer grid, before calling it spurious
        hits, _, _ = c06.box_step(ctl, ebox, disc, others, k=2)
        may = {label_of(i, h[0]) for i, h in hits.items() if h[2] and h[3]}
        if not set(got) <= may:
            raise Violation("an assertion that cannot fail in the reachable set is reported", **kw)
    if got:
        st.add("reported")
        if root.child:
            raise Violation("an unsafe node is continued", **kw)
        for a in root.trace:
            if len(root.trace[a]) != 2:
                raise Violation("trace of an unsafe node not cut after the violating segment", **kw)
    else:
        exp = c06.expected(ctl, ebox, disc, enabled, hull)
        succ = {(mode_t(c.mode["ego1"]), rbox(r)) for c in root.child for r in c.init["ego1"]}
        if not exp <= succ:
            raise Violation("assertions hide a transition of a safe node", missing=sorted(exp - succ), **kw)


# ---- along a tube ----------------------------------------------------------------------------------------
RATES = {"A": (1.0, 0.5), "B": (-0.5, 1.0), "C": (0.0, 0.0)}


def tube_cases():
    out = []
    for c1, t, f in itertools.product(range(len(c03.CONDS)), range(len(c03.TESTS)), (0, 2, 3, 5, 6)):
        for e in range(3):
            for uc in (False, True):
                for dt in (0.5, 0.25):
                    if THOROUGH or (c1 + t + f + e + uc + (dt < 0.5)) % 2:
                        out.append(((c1, (c1 + t + 1) % len(c03.CONDS), t, f, e, 0), uc, dt))
    return out


def tube(case, st):
    """The first segment of the tube in which an assertion can fail is the one reported, in every continuation mode."""
    cs, uc, dt = case
    ctl = ctl_of(cs)
    T = 2.0
    # offsets of 1/32: no segment boundary touches a threshold (multiples of 1/4), and a 1/32 grid hits all of them
    ebox = ((0.03125, 0.03125), (0.28125, 0.53125))
    opt = (1.78125, 0.53125) if (cs[0] + cs[2]) % 2 else (0.53125, 1.28125)
    s = Scenario(cfg(init_seg_length=1, unsafe_continue=uc))
    s.add_agent(RateAgent("ego1", code=ctl.source(), rates=RATES))
    s.add_agent(RateAgent("o0", code=None, rates=RATES))
    s.set_init([[list(e) for e in ebox], [list(opt)]], [enums(ctl, ("A",)), enums(ctl, ("C",))])
    root = s.verify(T, dt, max_height=2).root
    st.add("verify_steps")
    got = norm_asserts(root.assert_hits).get("ego1", frozenset())
    n = int(round(T / dt))
    first, must_first, hard = None, None, None
    r = RATES["A"]
    contained = False
    for i in range(n):
        seg = tuple(tuple(b[e][k] + r[k] * dt * (i + e) for k in range(2)) for b in (ebox,) for e in (0, 1))
        hits, enabled, hull = c06.box_step(ctl, seg, ("A",), [((opt, opt), ("C",))], k=4)
        must = {label_of(j, h[0]) for j, h in hits.items() if h[1]}
        may = {label_of(j, h[0]) for j, h in hits.items() if h[2] and h[3]}
        if may and first is None:
            first = (i, may)
        if must and must_first is None:
            must_first = (i, must)
        if enabled and must_first is None and not may:
            contained = True  # executions may have left before a later violation
    st.outcome((first, must_first, sorted(got)))
    kw = dict(first_possible=first, first_certain=must_first, got=sorted(got), source=ctl.source())
    if must_first and not contained and not got:
        raise Violation("an assertion violated along the reach tube is not reported", **kw)
    if got and not first:
        raise Violation("an assertion that cannot fail along the reach tube is reported", **kw)
    if got and first and must_first and first[0] == must_first[0]:
        if not must_first[1] <= set(got) <= first[1]:
            raise Violation("labels reported differ from those violated in the first violating segment", **kw)
        want = first[0] + 1
        if not uc and any(len(root.trace[a]) != 2 * want for a in root.trace):
            raise Violation("trace of an unsafe node is not cut after the first violating segment", rows={a: len(v) for a, v in root.trace.items()}, **kw)
    if got and uc and not contained and any(len(root.trace[a]) != 2 * n for a in root.trace) and not root.child:
        raise Violation("continuing past an unsafe state lost part of the reach tube", rows={a: len(v) for a, v in root.trace.items()}, **kw)


CASES = {"one": one, "tube": tube}


def main():
    ck = core.Check("C07")
    ck.bounds = {
        "one": f"{len(CONDS)} conditions pairwise x {len(TESTS)} path conditions x 8 placements x 3 transition structures (quick: about a tenth), {len(EBOXES)} ego boxes x 2 environments",
        "tube": "the same assertions along 4- and 8-segment tubes, both continuation modes",
    }
    ck.assumptions = ["joint correlation between path condition and condition is not claimed exact: a report is spurious only if one of them cannot happen anywhere in the box"]
    ck.explore("one", one, cases())
    ck.explore("tube", tube, tube_cases())
    c = ck.stats.c
    return ck.finish(c.get("verify_steps", 0), c.get("asserts", 0), c.get("cases", 0))
