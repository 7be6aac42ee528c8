"""C15: results depend only on the scenario as it is configured, not on what was done before.

All sequences of operations on a scenario (configuration and analysis calls) up to a depth; each analysis has to give
what a fresh scenario with the same configuration gives, and to leave earlier results, inputs and other scenarios alone
(and to not depend on what the caller does with the lists passed).
"""
import copy, itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH
from ..prog import Ctl
from ..world import RateAgent, cfg, enums, canon_sim, canon_ver, explored_by, norm_asserts, mode_t, approx_eq, rvec, first_diff
from . import c02
from verse import Scenario, ScenarioConfig
from verse.analysis import AnalysisTreeNodeType as NT, ReachabilityMethod as RM
from verse.map import LaneMap, Lane, StraightLane
from verse.sensor.base_sensor import BaseSensor

MODES = (("AMode", ("A", "B", "C")), ("TrackMode", ("T0", "T1", "T2")))
FIELDS = (("x", "float"), ("y", "float"), ("mode", "AMode"), ("track_mode", "TrackMode"))
CTL = {
    "a": Ctl(c02.prog(("A", "ego.x >= 1", "B", (("set", "x", "0"),)), ("B", "any(o.x > 1.4 for o in others)", "C", ())) + [("assert", "ego.y < 1.15", "high")], MODES, FIELDS),
    "b": Ctl(c02.prog(("A", "any(o.x > ego.x + 0.31 for o in others)", "B", ()), ("B", "ego.y >= 1.3", "A", (("set", "y", "0"),))), MODES, FIELDS),
    "c": Ctl([("assert", "ego.x < 1.27", None)] + c02.prog(("A", "ego.y >= 0.7", "C", ())), MODES, FIELDS),
}
RATES = {"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.0, 0.25)}
BOX = {0: [[0.0131, 0.0173], [0.2131, 0.1173]], 1: [[0.6171, 0.3319], [0.7171, 0.3319]], 2: [[-0.4083, 0.2177], [-0.3083, 0.4177]], 3: [[0.1037, 0.0541], [0.2037, 0.0541]]}
DISC = {0: ("A", "T0"), 1: ("B", "T1")}


class Map(LaneMap):
    def __init__(self, k):
        super().__init__()
        self.k = k
        self.add_lanes([Lane("T0", [StraightLane("s", [-50, 0], [50, 0], 3)]), Lane("T1" if k else "T2", [StraightLane("t", [-50, 3], [50, 3], 3)])])

    def h(self, lane, src, dest):
        lane, src, dest = (e if isinstance(e, str) else e.name for e in (lane, src, dest))
        return lane if self.k == 1 or (self.k == 2 and dest != "C") else None

    def h_exist(self, *a):
        return self.h(*a) is not None


class Near(BaseSensor):
    """everybody seems further ahead than they are"""

    def sense(self, agent, state_dict, lane_map, simulate=True):
        cont, disc, n = super().sense(agent, state_dict, lane_map, simulate)
        if "others.x" in cont:
            cont["others.x"] = [np.array(x) + 0.4 if not simulate else x + 0.4 for x in cont["others.x"]]
        return cont, disc, n


T, DT, MH = 2.0, 0.25, 5
START = dict(agents=("a", "b"), init={"a": 0, "b": 2}, disc={"a": 0, "b": 0}, map=0, sensor=0, unsafe=False, seg=False)


def agent(i, given=None):
    if given is None:
        return RateAgent(i, code=CTL[i].source(), rates=RATES)
    ag = RateAgent(i, code=CTL[i].source(), rates=RATES)
    ag.set_initial(given[0], given[1])
    return ag


def fresh(m):
    s = Scenario(ScenarioConfig(parallel=False, print_level=0, unsafe_continue=m["unsafe"], init_seg_length=1 if m["seg"] else 1000))
    for i in m["agents"]:
        s.add_agent(agent(i))
    if m["map"]:
        s.set_map(Map(m["map"]))
    if m["sensor"]:
        s.set_sensor(Near())
    s.set_init([copy.deepcopy(BOX[m["init"][i]]) for i in m["agents"]], [enums(CTL[i], DISC[m["disc"][i]]) for i in m["agents"]])
    return s


def canon(tree):
    if tree.type == NT.SIM_TRACE:
        return canon_sim(tree.root, lambda n: bool(n.trace))
    return canon_ver(tree.root, lambda n: bool(n.trace), 6)


def points(m):
    return [{i: [x + d for x in BOX[m["init"][i]][k]] for i in m["agents"]} for k, d in ((0, 0.05), (1, -0.01))]


ANALYSES = {
    "verify": lambda s, m: [s.verify(T, DT, max_height=MH)],
    "verify short": lambda s, m: [s.verify(T / 2, DT / 2, max_height=3)],
    "simulate 1": lambda s, m: [s.simulate(T, DT, max_height=MH, seed=1)],
    "simulate 2": lambda s, m: [s.simulate(T, DT / 2, max_height=MH, seed=2)],
    "simulate_simple": lambda s, m: [s.simulate_simple(T, DT, max_height=MH, seed=1)],
    "simulate_multi": lambda s, m: s.simulate_multi(T, DT, max_height=MH, seed=1, num_sims=2),
    "simulate points": lambda s, m: s.simulate_multi(T, DT, init_dict_list=points(m), max_height=MH),
}
CONFIG = ("init", "single a", "single b", "map 1", "map 2", "sensor", "unsafe", "segments", "third", "cleanup", "elsewhere", "default", "edit")
OPS = CONFIG + tuple(ANALYSES)
MEMO = {}


def expected(m, name):
    k = (repr(sorted(m.items(), key=str)), name)
    if k not in MEMO:
        MEMO[k] = [canon(t) for t in ANALYSES[name](fresh(m), m)]
    return MEMO[k]


def apply(op, s, m, own, keep):
    if op == "init":
        m["init"] = {i: k for i, k in zip(m["agents"], (1, 0, 3))}
        m["disc"] = {i: 0 for i in m["agents"]}
        arg = [copy.deepcopy(BOX[m["init"][i]]) for i in m["agents"]]
        keep.append((arg, copy.deepcopy(arg)))
        s.set_init(arg, [enums(CTL[i], DISC[0]) for i in m["agents"]])
    elif op == "single a":
        m["init"]["a"], m["disc"]["a"] = 2, 1
        arg = copy.deepcopy(BOX[2])
        keep.append((arg, copy.deepcopy(arg)))
        s.set_init_single("a", arg, enums(CTL["a"], DISC[1]))
    elif op == "single b":
        m["init"]["b"], m["disc"]["b"] = 3, 0
        arg = copy.deepcopy(BOX[3])
        keep.append((arg, copy.deepcopy(arg)))
        s.set_init_single("b", arg, enums(CTL["b"], DISC[0]))
    elif op in ("map 1", "map 2"):
        m["map"] = int(op[-1])
        s.set_map(Map(m["map"]))
    elif op == "sensor":
        m["sensor"] = 1
        s.set_sensor(Near())
    elif op == "unsafe":
        m["unsafe"] = True
        s.update_config(ScenarioConfig(parallel=False, print_level=0, unsafe_continue=True, init_seg_length=1 if m["seg"] else 1000))
    elif op == "segments":
        m["seg"] = True
        s.update_config(ScenarioConfig(parallel=False, print_level=0, unsafe_continue=m["unsafe"], init_seg_length=1))
    elif op == "third":
        if "c" in m["agents"]:
            return
        m["agents"] += ("c",)
        m["init"]["c"], m["disc"]["c"] = 3, 0
        own["c"] = agent("c", (copy.deepcopy(BOX[3]), enums(CTL["c"], DISC[0])))
        s.add_agent(own["c"])
    elif op == "cleanup":
        s.cleanup_cache()
    elif op == "edit":  # the caller goes on to use the lists for something else
        for arg, was in keep:
            for box in arg if isinstance(arg[0][0], list) else [arg]:
                box[0][0] -= 50
                box[1][:] = [9, 9]
                box.append([1, 2])
            was[:] = copy.deepcopy(arg)
    elif op == "elsewhere":  # the same agents in another scenario
        o = Scenario(cfg())
        for i in m["agents"]:
            o.add_agent(own[i])
        o.set_map(Map(1))
        o.set_init([copy.deepcopy(BOX[1]) for _ in m["agents"]], [enums(CTL[i], DISC[1]) for i in m["agents"]])
        o.verify(T / 2, DT, max_height=3)
        o.simulate(T / 2, DT, max_height=3, seed=5)
    elif op == "default":  # another scenario with the default configuration, which is then changed
        o = Scenario()
        o.config.unsafe_continue = True
        o.config.init_seg_length = 2
        o.config.reachability_method = RM.DRYVR_DISC


def sequence(case, st):
    m = copy.deepcopy(START)
    for k, v in vars(ScenarioConfig()).items():
        setattr(Scenario().config, k, v)  # whatever the cases before did to a shared one
    s = Scenario()
    s.config.parallel, s.config.print_level = False, 0
    own = {}
    for i in m["agents"]:
        own[i] = agent(i)
        s.add_agent(own[i])
    keep, seen = [], []
    arg = [copy.deepcopy(BOX[m["init"][i]]) for i in m["agents"]]
    keep.append((arg, copy.deepcopy(arg)))
    s.set_init(arg, [enums(CTL[i], DISC[m["disc"][i]]) for i in m["agents"]])
    for k, op in enumerate(tuple(case) + ("verify", "simulate 1")):
        if op in ANALYSES:
            exp = expected(m, op)
            trees = ANALYSES[op](s, m)
            got = [canon(t) for t in trees]
            st.add("analyses")
            if len(got) != len(exp):
                raise Violation(f"{op}: number of results", got=len(got), expected=len(exp), sequence=case)
            for g, e in zip(got, exp):
                if not approx_eq(g, e):
                    raise Violation(f"{op} gives another result than a fresh scenario with the same configuration", step=k, sequence=case, where=first_diff(g, e))
                st.outcome(e)
            seen += zip(trees, got)
        else:
            apply(op, s, m, own, keep)
        st.add("operations")
        for t, g in seen:
            if canon(t) != g:
                raise Violation("an operation changed the result of an earlier analysis", operation=op, step=k, sequence=case)
        for arg, was in keep:
            if arg != was:
                raise Violation("an operation changed a list the user passed", operation=op, step=k, sequence=case, got=arg, was=was)
    if len(s.past_runs) == 0:
        raise Violation("past runs are not kept")


def cases():
    P, A, C = itertools.product, tuple(ANALYSES), CONFIG
    if THOROUGH:
        return list(P(OPS, repeat=2)) + list(P(OPS, repeat=3)) + list(P(C, A, C, A))
    return list(P(OPS, repeat=2)) + list(P(A, C, A)) + list(P(C, A, C)) + [c for k, c in enumerate(itertools.permutations(C, 3)) if k % 3 == 0]


# ---- initial states are drawn from the initial set, reproducibly --------------------------------------------------
def draw(case, st):
    b0, b1, seed, how = case
    m = copy.deepcopy(START)
    s = Scenario(cfg())
    for i in ("a", "b"):
        s.add_agent(agent(i) if how != "agent" else agent(i, (copy.deepcopy(BOX[(b0, b1)[i == "b"]]), enums(CTL[i], DISC[0]))))
    if how == "set":
        s.set_init([copy.deepcopy(BOX[b0]), copy.deepcopy(BOX[b1])], [enums(CTL[i], DISC[0]) for i in "ab"])
    elif how == "point":
        s.set_init([copy.deepcopy(BOX[b0][:1]), copy.deepcopy(BOX[b1][1:])], [enums(CTL[i], DISC[0]) for i in "ab"])
    elif how == "late":
        for i, b in (("a", b0), ("b", b1)):
            s.agent_dict[i].set_initial(copy.deepcopy(BOX[b]), enums(CTL[i], DISC[0]))
    box = {"a": BOX[b0], "b": BOX[b1]}
    if how == "point":
        box = {"a": [BOX[b0][0]] * 2, "b": [BOX[b1][1]] * 2}
    if how == "late":  # known to the scenario at the first analysis
        v = s.verify(DT, DT, max_height=2)
        s.init_dict.clear(), s.init_mode_dict.clear()
    runs = []
    for f in (s.simulate, s.simulate, s.simulate_simple):
        t = f(DT, DT, max_height=2, seed=seed)
        runs.append(rvec(np.r_[t.root.init["a"], t.root.init["b"]], 9))
        for i in "ab":
            x = t.root.init[i]
            if any(v < lo - 1e-9 or v > hi + 1e-9 for v, lo, hi in zip(x, *box[i])):
                raise Violation("a simulation starts outside the initial set", got=x, initial=box[i])
            if rvec(t.root.trace[i][0][1:]) != rvec(x):
                raise Violation("a trace does not start at the initial state", got=t.root.trace[i][0], initial=x)
        st.add("analyses")
    if seed is not None and len(set(runs)) != 1:
        raise Violation("the same seed gives different initial states", got=runs)
    ts = s.simulate_multi(DT, DT, max_height=2, seed=seed, num_sims=3)
    if len(ts) != 3:
        raise Violation("number of simulations", got=len(ts))
    if seed is not None and rvec(np.r_[ts[0].root.init["a"], ts[0].root.init["b"]], 9) != runs[0]:
        raise Violation("the first of several simulations does not start as a single one with its seed")
    v = s.verify(DT, DT, max_height=2)
    for i in "ab":
        got = np.array(v.root.init[i][0], dtype=float)
        if np.max(np.abs(got - np.array(box[i]))) > 1e-9:
            raise Violation("verification starts from another set", got=got, expected=box[i])
    st.outcome(runs[0] if seed is not None else case)


CASES = {"sequence": sequence, "draw": draw}


def main():
    ck = core.Check("C15")
    ck.bounds = {"sequence": f"all sequences of 2 of {len(OPS)} operations; of 3 (quick: alternating configuration and analysis, and a third of the configuration triples); thorough: of 4, alternating; each followed by verify and simulate", "draw": "initial sets x seeds x ways to set them"}
    ck.assumptions = ["incremental off (C05 covers it)"]
    ck.explore("sequence", sequence, cases())
    ck.explore("draw", draw, list(itertools.product(BOX, BOX, (None, 0, 1, 17), ("set", "point", "agent", "late"))))
    c = ck.stats.c
    return ck.finish(c.get("operations", 0), c.get("operations", 0), c.get("analyses", 0))
