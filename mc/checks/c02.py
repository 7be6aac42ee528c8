"""C02: the simulation tree is exactly the tree of the documented hybrid semantics.

All automata of a bounded family x dynamics x initial states x horizons x depth limits, one to three agents, with and
without a lane map; oracle: mc.refsim.ref_tree.
"""
import itertools
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent, ref_tree
from ..world import RateAgent, cfg, enums, canon_sim, explored_by, first_diff, count
from verse import Scenario
from verse.map import LaneMap, Lane, StraightLane


def run(ragents, horizon, dt, mh, st, unsafe_continue=False, map_=None, allowed=None, extra=None, with_asserts=True, conf=None, sensor=None, view=None):
    s = Scenario(cfg(unsafe_continue=unsafe_continue, **(conf or {})))
    for a in ragents:
        s.add_agent(RateAgent(a.id, code=a.ctl.source() if a.ctl else None, rates=a.rates))
    if map_ is not None:
        s.set_map(map_)
    if sensor is not None:
        s.set_sensor(sensor)
    s.set_init([[list(a.init)] for a in ragents], [enums(a.ctl or ragents[0].ctl, a.disc) for a in ragents])
    tree = s.simulate(horizon, dt, max_height=mh)
    return judge(tree, ragents, horizon, dt, mh, st, unsafe_continue, allowed, extra, with_asserts, view)


def judge(tree, ragents, horizon, dt, mh, st, unsafe_continue=False, allowed=None, extra=None, with_asserts=True, view=None):
    exp = ref_tree(ragents, horizon, dt, mh, unsafe_continue, allowed, extra, stats=st, view=view)
    got = canon_sim(tree.root, explored_by(horizon, mh), with_asserts)
    if not with_asserts:
        exp = strip(exp)
    st.add("trees")
    st.add("nodes", count(exp))
    st.outcome(exp)
    if exp[5]:
        st.add("trees_with_transitions")
    if got != exp:
        raise Violation("simulation tree differs from the reference", where=first_diff(got, exp), source=[a.ctl.source() if a.ctl else None for a in ragents])
    ids = [n.id for n in tree.nodes]
    if len(set(ids)) != len(ids):
        raise Violation("node ids are not unique", ids=ids)
    for n in tree.nodes:
        for c in n.child:
            if c.height != n.height + 1:
                raise Violation("child height is not parent height + 1", node=n.id)
    if len(tree.nodes) != count_nodes(tree.root):
        raise Violation("tree.nodes does not list every node of the tree exactly once")
    return tree


def count_nodes(n):
    return 1 + sum(count_nodes(c) for c in n.child)


def strip(t):
    return t[:4] + ((), tuple(sorted((strip(c) for c in t[5]), key=repr)))


# ---- one agent -----------------------------------------------------------------------------------------
GUARDS = ("ego.x >= 1", "ego.x <= -1", "ego.y >= 1", "ego.x > 0.25 and ego.y <= 1.5", "not ego.x > 0.75")
RESETS = ((), (("set", "x", "0"),), (("set", "y", "ego.y + 1"),), (("set", "x", "ego.y"), ("set", "y", "-ego.x")))
RATES = (
    {"A": (1.0, 0.5), "B": (-1.0, 1.0), "C": (0.0, 0.0)},
    {"A": (0.5, 1.0), "B": (0.5, -1.0), "C": (2.0, 0.0)},
    {"A": (-1.0, 2.0), "B": (1.0, 0.0), "C": (-0.5, 1.0)},
)


def edges():
    for src, g, dst, r in itertools.product("AB", GUARDS, "ABC", RESETS):
        if src == dst and not r:
            continue
        yield (src, g, dst, r)


def edge_stmts(es):
    out = []
    for src, g, dst, r in es:
        body = ([("set", "mode", f"AMode.{dst}")] if src != dst else []) + list(r)
        out.append(("if", f"ego.mode == AMode.{src}", [("if", g, body, [])], []))
    return out


def single_cases():
    E = list(edges())
    A = [e for e in E if e[0] == "A"]
    c = []
    inits = ((0.0, 0.0), (0.5, 1.0), (-0.5, 1.5))
    for i, e1 in enumerate(A):
        for j, e2 in enumerate(E):
            if e2 in A and E.index(e1) > j:
                continue
            for k in range(len(RATES)):
                if not (THOROUGH or pick((e1, e2, k), 2)):
                    continue
                init = inits[draw((e1, e2, k, 1), 3)]
                c.append(((e1, e2), k, init, 3.0, 0.5, (None, 4, 3, 2, 1)[draw((e1, e2, k, 2), 5)] if e1 and True else None))
    return c


def zeno_safe(mh):
    return 5 if mh is None else mh


def single(case, st):
    es, k, init, T, dt, mh = case
    ctl = Ctl(edge_stmts(es))
    run([RAgent("a", ctl, RATES[k], init, ("A",))], T, dt, zeno_safe(mh), st)


# ---- horizons, steps, and depth limits --------------------------------------------------------------------
def timing_cases():
    out = []
    progs = [
        (("A", "ego.x >= 1", "B", ()), ("B", "ego.y >= 1", "A", RESETS[1])),
        (("A", "ego.x >= 1", "B", RESETS[1]), ("B", "ego.x <= -1", "C", ())),
        (("A", "ego.y >= 1", "C", ()), ("A", "ego.x >= 1", "B", RESETS[2])),
        (("A", "ego.x >= 1", "A", RESETS[1]), ("A", "ego.y >= 1", "B", RESETS[2])),
    ]
    for p, k, dt, n, mh in itertools.product(progs, range(3), (0.1, 0.25, 0.5, 1.0, 0.05), range(1, 9), (None, 1, 2, 3, 4)):
        for x0 in (0.0, 0.55):
            out.append((p, k, (x0, 0.05), round(n * dt, 8), dt, mh))
    return out


def timing(case, st):
    es, k, init, T, dt, mh = case
    ctl = Ctl(edge_stmts(es))
    run([RAgent("a", ctl, RATES[k], (init[0] + 0.013, init[1] + 0.0171), ("A",))], T, dt, 7 if mh is None else mh, st)


# ---- several agents ----------------------------------------------------------------------------------------
def prog(*edges_):
    return [("if", f"ego.mode == AMode.{s}", [("if", g, [("set", "mode", f"AMode.{d}")] + list(r), [])], []) for s, g, d, r in edges_]


MULTI = (
    prog(("A", "ego.x >= 1", "B", ())),
    prog(("A", "any(o.x > ego.x for o in others)", "B", ())),
    prog(("A", "all(o.x <= ego.x for o in others)", "C", RESETS[1])),
    prog(("A", "any(o.mode == AMode.B for o in others)", "B", RESETS[2]), ("B", "ego.y >= 1", "C", ())),
    prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.x >= 1", "C", ())),
    prog(("A", "ego.x >= 1", "B", RESETS[1]), ("B", "all(o.mode == AMode.B for o in others)", "A", ())),
    prog(("B", "any(o.x - ego.x > 0.75 and o.mode == AMode.A for o in others)", "A", ()), ("A", "ego.y >= 1", "B", ())),
    [],
)


def multi_cases():
    c = []
    for p, q in itertools.product(range(len(MULTI)), repeat=2):
        for k1, k2 in itertools.product(range(3), repeat=2):
            for i1, i2, m2 in (((0.0, 0.0), (0.5, 0.0), "A"), ((0.5, 0.5), (0.0, 1.0), "B"), ((0.0, 0.0), (0.0, 0.0), "A")):
                c.append(((p, k1, i1, "A"), (q, k2, i2, m2)))
    for p, q, r in itertools.product(range(len(MULTI)), repeat=3):
        if not (THOROUGH or pick((p, q, r), 2)):
            continue
        c.append(((p, 0, (0.0, 0.0), "A"), (q, 1, (0.5, 0.5), "A"), (r, 2, (1.5, 0.0), "B")))
    return c


def multi(case, st):
    run([RAgent(f"a{i}", Ctl(MULTI[p]), RATES[k], init, (m,)) for i, (p, k, init, m) in enumerate(case)], 2.0, 0.5, 4, st)


# ---- lane maps ------------------------------------------------------------------------------------------------
class TableMap(LaneMap):
    """Total transition table; anything not listed is forbidden."""

    def __init__(self, table):
        super().__init__()
        self.add_lanes([Lane(t, [StraightLane("s" + t, [0, 3 * i], [100, 3 * i], 3)]) for i, t in enumerate(("T0", "T1", "T2"))])
        self.table = dict(table)

    def h_exist(self, lane, src, dst):
        return self.h(lane, src, dst) is not None

    def h(self, lane, src, dst):
        return self.table.get((lane, src, dst))


TABLES = (
    {("T0", "Normal", "SwitchLeft"): "M01", ("M01", "SwitchLeft", "Normal"): "T1", ("T1", "Normal", "Brake"): "T1", ("T0", "Normal", "Brake"): "T0"},
    {("T0", "Normal", "Brake"): "T0", ("T0", "Brake", "Normal"): "T0"},
    {("T0", "Normal", "SwitchLeft"): "M01"},
    {("T0", "Normal", "Normal"): "T1", ("T1", "Normal", "Brake"): "T1", ("M01", "SwitchLeft", "SwitchLeft"): "T1", ("T0", "Normal", "SwitchLeft"): "M01"},
)
LMODES = (("AgentMode", ("Normal", "SwitchLeft", "Brake")), ("TrackMode", ("T0", "T1", "M01", "M10")))
LFIELDS = (("x", "float"), ("y", "float"), ("agent_mode", "AgentMode"), ("track_mode", "TrackMode"))
LRATES = {"Normal": (1.0, 0.5), "SwitchLeft": (0.5, 1.0), "Brake": (0.0, 0.5)}


def lane_edges():
    for src, dst in (("Normal", "SwitchLeft"), ("Normal", "Brake"), ("SwitchLeft", "Normal"), ("Brake", "Normal"), ("Normal", "Normal"), ("SwitchLeft", "SwitchLeft")):
        for how in ("T0", "T1", "M01", "h", "keep"):
            if src == dst and how == "keep":
                continue
            for g in ("ego.x >= 1", "ego.y >= 1", "ego.x >= 0.25 and ego.y < 0.9"):
                yield (src, dst, how, g)


def lane_cases():
    E = list(lane_edges())
    return [(e1, e2, t) for e1 in E if e1[0] == "Normal" for e2 in E for t in range(len(TABLES))]


def lane_ctl(es):
    st = []
    for src, dst, how, g in es:
        # changes of the track alone need the map's permission, too
        body = [("set", "agent_mode", f"AgentMode.{dst}")] if src != dst else []
        if how == "h":
            body.append(("set", "track_mode", f"track_map.h(ego.track_mode, ego.agent_mode, AgentMode.{dst})"))
            body = [("if", f"track_map.h_exist(ego.track_mode, ego.agent_mode, AgentMode.{dst})", body, [])]
        elif how != "keep":
            body.append(("set", "track_mode", f"TrackMode.{how}"))
        st.append(("if", f"ego.agent_mode == AgentMode.{src}", [("if", g, body, [])], []))
    return Ctl(st, modes=LMODES, fields=LFIELDS, sig="ego: State, others: List[State], track_map")


class RefMap:
    def __init__(self, table):
        self.table = table

    def h_exist(self, lane, src, dst):
        return self.h(lane, src, dst) is not None

    def h(self, lane, src, dst):
        n = lambda v: getattr(v, "name", v)
        return self.table.get((n(lane), n(src), n(dst)))


def lane(case, st):
    e1, e2, t = case
    ctl = lane_ctl((e1, e2))
    rm = RefMap(TABLES[t])

    def allowed(a, src, dst):
        # a change of agent mode or track is taken only if it is the one the map prescribes
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    m = TableMap(TABLES[t])
    try:
        run([RAgent("a", ctl, LRATES, (0.0, 0.0), ("Normal", "T0"))], 3.0, 0.5, 5, st, map_=m, allowed=allowed, extra={"track_map": rm})
    except Violation:
        raise


def mixed_cases():
    """An agent with lane tracking next to one without, on the same map."""
    return [(p, e, t) for p in range(len(MULTI)) for e in lane_edges() if e[0] == "Normal" for t in range(len(TABLES))]


def mixed(case, st):
    p, e, t = case
    # both controllers see objects with both mode fields absent/present only through `ego`
    free = [s for s in MULTI[p] if "others" not in repr(s)]
    rm = RefMap(TABLES[t])

    def allowed(a, src, dst):
        if len(src) < 2:
            return True
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    lctl = lane_ctl((e,))
    lctl.sig = "ego: State, track_map"
    pctl = Ctl(free, sig="ego: State")
    s = Scenario(cfg())
    ags = [RAgent("car", lctl, LRATES, (0.0, 0.0), ("Normal", "T0")), RAgent("ped", pctl, RATES[0], (0.0, 0.0), ("A",))]
    for a in ags:
        s.add_agent(RateAgent(a.id, code=a.ctl.source(), rates=a.rates))
    s.set_map(TableMap(TABLES[t]))
    s.set_init([[list(a.init)] for a in ags], [enums(a.ctl, a.disc) for a in ags])
    tree = s.simulate(2.5, 0.5, max_height=5)
    for a in ags:
        a.ctl.obj_other = None
    judge(tree, [Solo(a) for a in ags], 2.5, 0.5, 5, st, allowed=allowed, extra={"track_map": rm})


class Solo(RAgent):
    """An agent whose controller looks only at itself."""

    def __init__(self, a):
        super().__init__(a.id, SoloCtl(a.ctl), a.rates, a.init, a.disc)


class SoloCtl:
    def __init__(self, c):
        self.c = c

    def obj(self, cont, disc, fields=None):
        if len(disc) != len(self.c.disc()):
            return None
        return self.c.obj(cont, disc)

    def __getattr__(self, n):
        return getattr(self.c, n)


CASES = {"single": single, "timing": timing, "multi": multi, "lane": lane, "mixed": mixed}


def main():
    ck = core.Check("C02")
    ck.bounds = {
        "single": "automata with two edges from an alphabet of 5 guards x 3 targets x 4 resets per source mode, 3 flow tables, 6 steps",
        "timing": "4 automata x 3 flows x 5 step sizes x 1..8 steps x 5 depth limits",
        "multi": "8 controllers, all pairs x 9 flow pairs x 3 initial configurations; triples (quick: half)",
        "lane": "lane-change edges (changes of mode, of track, of both) x all pairs x 4 lane tables; and mixed scenarios of a lane-tracking and a free agent",
    }
    ck.assumptions = ["agents' flows are exactly integrable (constant rate per mode)"]
    for n, f, c in (("single", single, single_cases()), ("timing", timing, timing_cases()), ("multi", multi, multi_cases()), ("lane", lane, lane_cases()), ("mixed", mixed, mixed_cases())):
        ck.explore(n, f, c)
    c = ck.stats.c
    return ck.finish(c.get("nodes", 0), c.get("ref_steps", 0), c.get("trees", 0))
