"""C04: task-parallel execution gives the sequential result, whatever order tasks complete in.

Stateless model checking: `ray` is replaced by mc.fakeray; every point at which the engine waits for outstanding tasks
is a scheduling decision, and all decision sequences are enumerated (DFS by replay).  Oracle: the tree computed
sequentially (which C02/C03/C08 compare with references), node ids unique, every node listed once.
"""
import heapq
import itertools
from .. import core, fakeray
from ..core import Violation, HarnessError, THOROUGH
from ..prog import Ctl
from ..refsim import RAgent
from ..world import RateAgent, cfg, enums, canon_sim, canon_ver, explored_by, first_diff, count, approx_eq
from . import c02
from verse import Scenario


def mk(body):
    return Ctl(body)


def E(src, g, dst, *r):
    return ("if", f"ego.mode == AMode.{src}", [("if", g, [("set", "mode", f"AMode.{dst}")] + list(r), [])], [])


R0 = ("set", "x", "0")
RY = ("set", "y", "ego.y - 3")
# branching controllers: several alternatives from one step, then different histories
PROGS = (
    ([E("A", "ego.x >= 1", "B"), E("A", "ego.x >= 1", "C"), E("B", "ego.y >= 1", "C", R0), E("B", "ego.y >= 1", "A", R0)], {"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.0, 0.0)}),
    ([E("A", "ego.x >= 1", "B", R0), E("A", "ego.x >= 1", "C"), E("B", "ego.x >= 0.5", "A"), E("C", "ego.y >= 2", "B", RY)], {"A": (1.0, 1.0), "B": (1.0, 0.0), "C": (0.5, 1.0)}),
    ([E("A", "ego.x >= 1", "B"), E("A", "ego.y >= 1", "C"), ("assert", "ego.y < 2.2", "high"), ("if", "ego.mode == AMode.C", [("assert", "ego.x < 1.7", "far")], [])], {"A": (1.0, 1.0), "B": (0.0, 1.0), "C": (0.5, 0.5)}),
    ([E("A", "ego.x >= 1", "B"), E("A", "ego.x >= 1", "C"), E("A", "ego.x >= 1", "D"), E("B", "ego.y >= 1", "A", R0), E("D", "ego.y >= 1", "B")], {"A": (1.0, 0.25), "B": (0.0, 1.0), "C": (0.0, -1.0), "D": (0.5, 1.0)}),
)
MODES = (("AMode", ("A", "B", "C", "D")),)


def scen(p, n2, conf, box):
    body, rates = PROGS[p]
    s = Scenario(cfg(**conf))
    ctl = Ctl(body, modes=MODES)
    s.add_agent(RateAgent("a", code=ctl.source(), rates=rates))
    inits = [[[0.0, 0.0], [0.25, 0.25]] if box else [[0.0, 0.0]]]
    modes = [enums(ctl, ("A",))]
    if n2:
        q = (p + n2) % len(PROGS)
        c2 = Ctl([E("A", "ego.x >= 1.4", "B"), E("A", "ego.x >= 1.4", "C")] if n2 == 1 else PROGS[q][0], modes=MODES)
        s.add_agent(RateAgent("b", code=c2.source(), rates=PROGS[q][1]))
        inits.append([[0.1, 0.0], [0.3, 0.2]] if box else [[0.125, 0.0]])
        modes.append(enums(c2, ("A",)))
    s.set_init(inits, modes)
    return s


def execute(case, conf, sched=None):
    kind, p, n2, T, dt, mh, ahead, extra = case
    fakeray.reset(sched)
    conf = dict(conf, parallel_sim_ahead=ahead, parallel_ver_ahead=ahead, **dict(extra))
    s = scen(p, n2, conf, kind == "verify")
    if kind == "sim":
        tree = s.simulate(T, dt, max_height=mh)
        return canon_sim(tree.root, explored_by(T, mh)), tree
    tree = s.verify(T, dt, max_height=mh)
    return canon_ver(tree.root, explored_by(T, mh)), tree


def cases():
    out = []
    for p, n2, mh in itertools.product(range(len(PROGS)), (0, 1, 2), (2, 3, 4, None)):
        if mh is None and n2:
            continue
        for ahead in (1, 2, 3, 8):
            out.append(("sim", p, n2, 3.0, 0.5, mh, ahead, ()))
    for p, n2, mh in itertools.product(range(len(PROGS)), (0, 1), (2, 3, 4)):
        if n2 and mh > 2:
            continue
        for ahead in (1, 2, 8):
            out.append(("verify", p, n2, 2.5, 0.5, mh, ahead, ()))
    for p in range(len(PROGS)):
        for ex in ((("unsafe_continue", True),), (("try_local", True),)):
            out.append(("sim", p, 0, 3.0, 0.5, 4, 2, ex))
            if ex[0][0] == "try_local":
                out.append(("verify", p, 0, 2.5, 0.5, 3, 2, ex))
    return out


LIMIT = 4000 if THOROUGH else 220


def schedules(case, st):
    base, btree = execute(case, {"parallel": False})
    st.add("nodes", count(base))
    st.outcome(base)
    n_base = len(btree.nodes)
    # schedules in order of the number of deviations from the default (take the first ready task)
    heap, runs = [(0, [])], 0
    while heap:
        dev, pre = heapq.heappop(heap)
        if runs >= LIMIT:
            st.add("capped_cases")
            st.add(f"capped_after_all_schedules_with_deviations<{dev}")
            break
        sch = fakeray.Scheduler(pre)
        got, tree = execute(case, {"parallel": True}, sch)
        if [c for _, c in sch.points[: len(pre)]] != pre:
            raise Violation("replaying a schedule prefix diverged: parallel execution depends on more than the schedule", schedule=pre)
        runs += 1
        st.add("schedules")
        st.add("waits", len(sch.points))
        st.add("nodes_compared", n_base)
        if fakeray.W.tasks == 0:
            raise Violation("parallel execution dispatched no task")
        if not approx_eq(got, base):
            raise Violation("parallel result differs from the sequential one", schedule=[c for _, c in sch.points], where=first_diff(got, base))
        ids = [n.id for n in tree.nodes]
        if len(set(ids)) != len(ids) or len(ids) != n_base:
            raise Violation("node ids collide or nodes are lost", ids=ids, schedule=[c for _, c in sch.points])
        for i in range(len(sch.points) - 1, len(pre) - 1, -1):
            n, c = sch.points[i]
            for alt in range(1, n):
                heapq.heappush(heap, (dev + 1, [x for _, x in sch.points[:i]] + [alt]))
    else:
        st.add("fully_explored_cases")
    if runs > 1:
        st.add("cases_with_choice")


CASES = {"schedules": schedules}


def main():
    ck = core.Check("C04")
    ck.bounds = {
        "schedules": f"4 branching controllers, 1-2 agents, depth limits 2..4/unlimited, look-ahead 1,2,3,8; every completion order at every wait (DFS), up to {LIMIT} schedules per case",
    }
    ck.assumptions = ["task results and arguments cross process boundaries as copies; a task's computation is atomic with respect to the dispatcher"]
    core.CASE_TIMEOUT = 300
    ck.explore("schedules", schedules, cases(), chunk=1)
    c = ck.stats.c
    return ck.finish(c.get("nodes_compared", 0), c.get("waits", 0), c.get("schedules", 0), exhaustive=not c.get("capped_cases"))
