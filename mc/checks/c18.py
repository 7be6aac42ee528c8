"""C18: controllers and assertions see what the scenario's sensor reports, in simulation and in verification.

A controller c under a sensor S behaves like the reference executor whose decision step is given S's view, and like the
real code with the default sensor and the controller c o S written out (o.x replaced by o.x + 0.3, ...).
"""
import itertools, re
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent, envs
from ..world import RateAgent, cfg, enums, canon_sim, explored_by, first_diff
from . import c02, c08, c14, c16
from verse import Scenario
from verse.sensor.base_sensor import BaseSensor
from verse.sensor.example_sensor.single_sensor import SingleSensor
from verse.sensor.example_sensor.thermo_sensor import ThermoSensor
from verse.sensor.example_sensor.craft_sensor import CraftSensor
from verse.sensor.example_sensor.quadrotor_sensor import QuadrotorSensor

# ---- sensors: (on the own state, on the states of others, on modes of others, hidden agents, replacement in the source)
SENSORS = {
    "base": (None, None, None, (), {}),
    "bias": (None, lambda x: (x[0] + 0.3, x[1]), None, (), {"o.x": "(o.x + 0.3)"}),
    "own": (lambda x: (x[0] - 0.2, x[1]), None, None, (), {"ego.x": "(ego.x - 0.2)"}),
    "scale": (lambda x: (x[0], 2 * x[1]), lambda x: (2 * x[0], x[1] + 0.1), None, (), {"o.x": "(o.x * 2)", "o.y": "(o.y + 0.1)", "ego.y": "(ego.y * 2)"}),
    "modes": (None, None, {"B": "C"}, (), None),
    "single": (None, None, None, (), None),
    "hide": (None, None, None, ("a1",), None),
}


class View(BaseSensor):
    """What a user writes: transforms the states, and leaves the rest to the default sensor."""

    def __init__(self, kind, noise=0.0):
        self.own, self.oth, self.modes, self.hidden, _ = SENSORS[kind]
        self.noise = noise

    def sense(self, agent, state_dict, lane_map, simulate=True):
        d = {}
        for aid, (state, mode, static) in state_dict.items():
            if aid in self.hidden and aid != agent.id:
                continue
            f = self.own if aid == agent.id else self.oth
            rows = [state] if simulate else list(state)
            rows = [list(r) for r in rows]
            for k, r in enumerate(rows):
                if f is not None:
                    r[1:3] = f(r[1:3])
                if self.noise and not simulate and aid != agent.id:
                    r[1] += self.noise if k else -self.noise
            if self.modes and aid != agent.id:
                mode = tuple(self.modes.get(m, m) for m in mode)
            d[aid] = (rows[0] if simulate else rows, mode, static)
        return super().sense(agent, d, lane_map, simulate)


def sensor_of(kind):
    return None if kind == "base" else SingleSensor() if kind == "single" else View(kind)


class Dist:
    """A sensor that gives the other agent as a distance that is no state of it."""

    def __init__(self, noise=0.0):
        self.noise = noise

    def sense(self, agent, state_dict, lane_map, simulate=True):
        (me, my_mode, _), = [v for k, v in state_dict.items() if k == agent.id]
        cont, disc = {}, {"ego.mode": my_mode[0]}
        others = [v for k, v in state_dict.items() if k != agent.id]
        if simulate:
            cont["ego.x"], cont["ego.y"] = me[1], me[2]
        else:
            cont["ego.x"], cont["ego.y"] = [me[0][1], me[1][1]], [me[0][2], me[1][2]]
        for o, om, _ in others:
            disc["other.mode"] = om[0]
            if simulate:
                cont["other.dist"] = o[1] - me[1]
            else:
                cont["other.dist"] = [o[0][1] - me[1][1] - self.noise, o[1][1] - me[0][1] + self.noise]
        return cont, disc, {"other": len(others)}


def view_of(kind, arg, is_list):
    own, oth, modes, hidden, _ = SENSORS[kind]

    def view(agents, who, disc, row):
        vis = {a: b for a, b in agents.items() if a == who or a not in hidden}
        r, d = {}, {}
        for a in vis:
            f = own if a == who else oth
            r[a] = f(row[a]) if f else row[a]
            d[a] = tuple(modes.get(m, m) for m in disc[a]) if modes and a != who else disc[a]
        return envs(vis, who, d, r, arg, is_list)

    return view


def dist_view(agents, who, disc, row):
    e = envs(agents, who, disc, row, "other", False)
    (o,) = [a for a in agents if a != who]
    e["other"].dist = row[o][0] - row[who][0]
    return e


SIGS = {"others": "ego: State, others: List[State]", "cars": "ego: State, cars: List[State]", "first": "others: List[State], ego: State", "other": "ego: State, other: State"}
NAME = {"first": "others"}

# tests over ego and the others (o)
TESTS = ["any(o.x >= 1 for o in {O})", "all(o.x >= 0.75 for o in {O})", "any(o.mode == AMode.B for o in {O})", "any(o.x >= 0.5 and o.y >= 0.5 for o in {O} if o.mode != AMode.C)", "ego.x >= 1", "ego.x + ego.y >= 1.5 and not all(o.y < 0.75 for o in {O})", "any(o.mode == AMode.C for o in {O})"]
TESTS1 = ["o.x >= 1", "o.mode == AMode.B", "o.x >= 0.5 and o.y >= 0.5 and o.mode != AMode.C", "ego.x >= 1", "ego.x + o.y >= 1.5", "o.mode == AMode.C"]
RESETS = [(), (("set", "y", "0"),), (("set", "x", "ego.x - 2"),)]
ASSERTS = [None, ("assert", "not any(o.x >= 1.4 for o in {O})", "far"), ("assert", "ego.x < 1.3", None), ("assert", "all(o.mode != AMode.B or ego.y < 1 for o in {O})", "b")]
ASSERTS1 = [None, ("assert", "not o.x >= 1.4", "far"), ("assert", "ego.x < 1.3", None)]


def inst(s, arg, subst):
    s = re.sub(r"\b(ego|o)\.\w+", lambda m: (subst or {}).get(m.group(0), m.group(0)), s)
    if arg == "other":
        return re.sub(r"\bo\.", "other.", s)
    return s.replace("{O}", NAME.get(arg, arg))


def ctl(spec, arg, subst=None):
    """spec: test of A -> B, reset, test of B -> C, assertion"""
    t1, r, t2, a = spec
    T, AS = (TESTS1, ASSERTS1) if arg == "other" else (TESTS, ASSERTS)
    I = lambda s: inst(s, arg, subst)
    st = [
        ("if", "ego.mode == AMode.A", [("if", I(T[t1]), [("set", "mode", "AMode.B")] + [("set", v, I(e)) for _, v, e in RESETS[r]], [])], []),
        ("if", "ego.mode == AMode.B", [("if", I(T[t2]), [("set", "mode", "AMode.C")], [])], []),
    ]
    if AS[a]:
        st.append(("assert", I(AS[a][1]), AS[a][2]))
    return Ctl(st, sig=SIGS[arg])


RATES = c02.RATES
VRATES = ({"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.25, 0.25)}, {"A": (0.5, 1.0), "B": (2.0, 0.25), "C": (0.0, 0.0)})
INITS = ((0.0131, 0.0273), (0.5231, -0.2713), (-0.4717, 0.9137))


# ---- simulation ------------------------------------------------------------------------------------------
def sim_cases():
    out = []
    specs = list(itertools.product(range(len(TESTS)), range(len(RESETS)), range(len(TESTS)), range(len(ASSERTS))))
    for i, sp in enumerate(specs):
        for j, (kind, arg, n) in enumerate(itertools.product(SENSORS, ("others", "cars", "first"), (1, 2, 3))):
            if kind != "single" and (THOROUGH or pick((sp, kind, arg, n), 9)):
                out.append((sp, kind, arg, n, draw((sp, kind, arg, n, 1), 3)))
    specs = list(itertools.product(range(len(TESTS1)), range(len(RESETS)), range(len(TESTS1)), range(len(ASSERTS1))))
    for i, sp in enumerate(specs):
        for j, kind in enumerate(SENSORS):
            if kind != "hide" and (THOROUGH or pick((sp, kind), 2)):
                out.append((sp, kind, "other", 2, draw((sp, kind, 1), 3)))
    return out


def agents_of(sp, arg, n, k, kind, subst=None, rates=RATES):
    T = len(TESTS1 if arg == "other" else TESTS)
    A = len(ASSERTS1 if arg == "other" else ASSERTS)
    t1, r, t2, a = sp
    specs = [sp, ((t1 + 1) % T, (r + 1) % len(RESETS), t2, 0), ((t1 + 3) % T, 0, (t2 + 2) % T, (a + 1) % A)]
    return [RAgent(f"a{i}", ctl(specs[i], arg, subst), rates[(k + i) % len(rates)], INITS[i], ("A",)) for i in range(n)]


def sim(case, st):
    sp, kind, arg, n, k = case
    sensor = sensor_of(kind)
    view = view_of(kind, NAME.get(arg, arg), arg != "other")
    ags = agents_of(sp, arg, n, k, kind)
    t = c02.run(ags, 2.5, 0.5, 6, st, sensor=sensor, view=view)
    if kind != "own" and not (kind == "scale"):  # there the controller's output carries the sensed own state
        c14.run(ags, 2.5, 0.5, 6, st, sensor=sensor, view=view)
    sub = SENSORS[kind][4]
    if sub:
        o = c02.run(agents_of(sp, arg, n, k, kind, sub), 2.5, 0.5, 6, st, view=lambda *a: envs(*a, NAME.get(arg, arg), arg != "other"))
        a, b = (canon_sim(x.root, explored_by(2.5, 6), True) for x in (t, o))
        if a != b:
            raise Violation("a controller under a sensor differs from the controller with the sensor written out", where=first_diff(a, b), source=[x.ctl.source() for x in ags])


# ---- verification ----------------------------------------------------------------------------------------
VT = {"list": [0, 1, 6, 4], "other": [0, 5, 3]}  # guards that are not disabled again
VB = c08.off((((0.0, 0.0), (0.25, 0.25)), ((0.5, 0.0), (0.75, 0.125)), ((0.25, 0.5), (0.25, 0.75))))


def ver_cases():
    out = []
    for arg in ("others", "cars", "first", "other"):
        T = VT["other" if arg == "other" else "list"]
        nA = 3 if arg == "other" else 4
        for i, sp in enumerate(itertools.product(T, (0, 1), T, range(nA))):
            for j, (kind, n) in enumerate(itertools.product(SENSORS, (2,) if arg == "other" else (1, 2, 3))):
                if kind == ("hide" if arg == "other" else "single"):
                    continue
                if THOROUGH or pick((sp, kind, arg, n), 7 if n < 3 else 19):
                    out.append((sp, kind, arg, n, draw((sp, kind, arg, n, 1), 2)))
    return out


def vagents(sp, arg, n, k, subst=None):
    T = VT["other" if arg == "other" else "list"]
    t1, r, t2, a = sp
    specs = [sp, (T[(T.index(t1) + 1) % len(T)], 0, t2, 0), (T[-1], 1 - r, t1, 0)]
    return [RAgent(f"a{i}", ctl(specs[i], arg, subst), VRATES[(k + i) % 2], (0, 0), ("A",)) for i in range(n)]


def ver(case, st):
    sp, kind, arg, n, k = case
    sensor = sensor_of(kind)
    view = view_of(kind, NAME.get(arg, arg), arg != "other")
    ags = vagents(sp, arg, n, k)
    boxes = list(VB[:n]) if n < 3 else [(b[0], (b[1][0], b[0][1])) for b in VB]
    _, V = c08.check(ags, boxes, 1.5, 0.5, st, seg=1, mh=6 if n < 3 else 8, sensor=sensor, view=view)
    sub = SENSORS[kind][4]
    if sub:
        o = c16.scen(vagents(sp, arg, n, k, sub), boxes, {"init_seg_length": 1}, None)
        O = c08.VNode(o.verify(1.5, 0.5, max_height=6 if n < 3 else 8).root, explored_by(1.5, 6 if n < 3 else 8))
        st.add("pairs")
        if not c16.close(c16.flat(V), c16.flat(O)):
            raise Violation("verifying a controller under a sensor differs from the controller with the sensor written out", source=[a.ctl.source() for a in ags], sensed=c08.show(V), written=c08.show(O))


# ---- noise in verification, sensed quantities that are no states -----------------------------------------
def dist_ctl(t1, t2, a):
    T = ["other.dist <= 0.25", "other.dist >= 0.25 and other.mode == AMode.A", "other.dist >= 1", "ego.x >= 1"]
    A = [None, ("assert", "other.dist > -0.5", "passed"), ("assert", "other.dist < 1.2 or other.mode != AMode.B", None)]
    st = [("if", "ego.mode == AMode.A", [("if", T[t1], [("set", "mode", "AMode.B")], [])], []), ("if", "ego.mode == AMode.B", [("if", T[t2], [("set", "mode", "AMode.C")], [])], [])]
    if A[a]:
        st.append(A[a])
    fields = (("x", "float"), ("y", "float"), ("mode", "AMode"))
    return Ctl(st, sig=SIGS["other"], fields=fields, extra_states=())


def dist_cases():
    return list(itertools.product(range(4), range(4), range(3), range(4), (0, 1, 3), (False, True)))


# pairs of flows in which the distance grows, shrinks or stays, in every mode
DR = [({"A": (1.0, 0.0), "B": (1.0, 0.0), "C": (1.0, 0.0)}, {"A": (0.5, 0.0), "B": (0.5, 0.0), "C": (0.5, 0.0)}), ({"A": (0.5, 0.0), "B": (0.25, 0.0), "C": (0.5, 0.0)}, {"A": (1.0, 0.0), "B": (1.5, 0.0), "C": (1.0, 0.0)})]


def dist(case, st):
    t1, t2, a, p, q, ver_ = case
    A = [RAgent("a0", dist_ctl(t1, t2, a), DR[p % 2][0], INITS[0], ("A",)), RAgent("a1", dist_ctl(q, 3, 0) if p < 2 else None, DR[p % 2][1], (0.7131, 0.0), ("A",))]
    if not ver_:
        c02.run(A, 2.5, 0.5, 5, st, sensor=Dist(), view=dist_view)
        return
    # a1's guards on the distance are seen from the other side; keep to those the flows do not leave again
    grows = p % 2 == 1
    enter = {0: not grows, 1: grows, 2: grows, 3: True}
    enter1 = {0: grows, 1: not grows, 2: not grows, 3: True}
    if not (enter[t1] and enter[t2]) or (p < 2 and not enter1[q]) or (t1 == 1 or t2 == 1 or q == 1):
        return
    boxes = [((0.0131, 0.0), (0.2131, 0.0)), ((0.7131, 0.0), (0.8131, 0.0))]
    for noise in (0.0, 0.06):
        c08.check(A, boxes, 2.0, 0.5, st, seg=1, mh=8, sensor=Dist(noise), view=dist_view)


def noise_cases():
    return [c for c in ver_cases() if c[1] == "base" and c[3] > 1]


def noise(case, st):
    """Verification with uncertain perception covers the executions under every perception within the uncertainty."""
    sp, kind, arg, n, k = case
    ags = vagents(sp, arg, n, k)
    boxes = list(VB[:n]) if n < 3 else [(b[0], (b[1][0], b[0][1])) for b in VB]
    for e in (-0.09, 0.0, 0.09):
        SENSORS["_"] = (None, lambda x: (x[0] + e, x[1]), None, (), None)
        c08.check(ags, boxes, 1.5, 0.5, st, seg=1, mh=6 if n < 3 else 8, sensor=View("base", 0.1), view=view_of("_", NAME.get(arg, arg), arg != "other"))
        del SENSORS["_"]


# ---- the sensors shipped for certain kinds of agents -----------------------------------------------------
SHIPPED = {
    "thermo": (ThermoSensor, ("temp", "total_time", "cycle_time"), ("thermo_mode",)),
    "craft": (CraftSensor, ("xp", "yp", "xd", "yd", "total_time", "cycle_time"), ("craft_mode",)),
    "quadrotor": (QuadrotorSensor, ("x", "y", "z", "vx", "vy", "vz", "waypoint_index", "done_flag"), ("craft_mode", "lane_mode")),
}


def shipped_src(which, f, g, others):
    _, fields, modes = SHIPPED[which]
    m = modes[-1]
    enums_ = "".join(f"class E{k}Mode(Enum):\n    A = auto()\n    B = auto()\n    C = auto()\n" for k in range(len(modes)))
    head = f"""from enum import Enum, auto
import copy
from typing import List
{enums_}class State:
{"".join(f"    {x}: float{chr(10)}" for x in fields)}{"".join(f"    {x}: E{k}Mode{chr(10)}" for k, x in enumerate(modes))}    def __init__(self, {", ".join(fields)}, {", ".join(f"{x}: E{k}Mode" for k, x in enumerate(modes))}):
        pass
"""
    e = f"E{len(modes) - 1}Mode"
    tests = [f"ego.{m} == {e}.A and ego.{fields[f]} >= 1", f"ego.{m} == {e}.B and " + (f"any(o.{fields[g]} >= 2.25 and o.{m} != {e}.A for o in others)" if others else f"ego.{fields[g]} >= 2.25")]
    return head + f"""
def decisionLogic(ego: State{", others: List[State]" if others else ""}):
    output = copy.deepcopy(ego)
    if {tests[0]}:
        output.{m} = {e}.B
        output.{fields[(f + 1) % len(fields)]} = ego.{fields[g]} + 0.5
    if {tests[1]}:
        output.{m} = {e}.C
    assert ego.{fields[g]} < 4, "far"
    return output
"""


def shipped_cases():
    return [(w, f, g, n, v) for w, (_, F, _) in SHIPPED.items() for f in range(len(F)) for g in range(len(F)) for n in (1, 2, 3) for v in (False, True) if THOROUGH or n < 3 or pick((w, f, g, v), 3)]


def shipped(case, st):
    which, f, g, n, ver_ = case
    cls, fields, modes = SHIPPED[which]
    d, key = len(fields), len(modes) - 1
    src = shipped_src(which, f, g, n > 1)
    trees = []
    for sensor in (None, cls()):
        s = Scenario(cfg(init_seg_length=1))
        for i in range(n):
            rates = {m: [0.25 * ((k + i + j) % 4) + 0.5 * (k == f) for k in range(d)] for j, m in enumerate("ABC")}
            s.add_agent(RateAgent(f"a{i}", code=src, rates=rates, key=key))
        ns = {}
        exec(src, ns)
        init = [[0.1 * i + 0.0713 * k for k in range(d)] for i in range(n)]
        s.set_init([[p, [x + (0.1 if ver_ and d <= 4 and k != g else 0.0) for k, x in enumerate(p)] if ver_ else p] for p in init], [tuple(ns[f"E{k}Mode"].A for k in range(len(modes)))] * n)
        if sensor is not None:
            s.set_sensor(sensor)
        mh = 2 * n + 1
        if ver_:
            trees.append(c16.flat(c08.VNode(s.verify(2.0, 0.5, max_height=mh).root, explored_by(2.0, mh))))
        else:
            trees.append(canon_sim(s.simulate(2.0, 0.5, max_height=mh).root, explored_by(2.0, mh), True))
    st.add("trees", 2)
    st.outcome((which, ver_, len(repr(trees[0])) // 500))
    if not (c16.close(*trees) if ver_ else trees[0] == trees[1]):
        raise Violation("a sensor shipped for one kind of agents reports something else than the states", sensor=which, source=src, default=repr(trees[0])[:1500], shipped=repr(trees[1])[:1500])


# ---- types of agents --------------------------------------------------------------------------------------
# what an agent is (its static data) is a mode that never changes
TYPES = ("Car", "Npc", "Sign")
TYPE_SRC = """from enum import Enum, auto
import copy
from typing import List
class AMode(Enum):
    A = auto()
    B = auto()
    C = auto()
class TypeMode(Enum):
    Car = auto()
    Npc = auto()
    Sign = auto()
class State:
    x: float
    y: float
    mode: AMode
    {field}
    def __init__(self, x, y, mode: AMode, {arg}):
        pass
def decisionLogic(ego: State{others}):
    output = copy.deepcopy(ego)
    if ego.mode == AMode.A and {t1}:
        output.mode = AMode.B
        {r}
    if ego.mode == AMode.B and {t2}:
        output.mode = AMode.C
    assert not (ego.y >= 2.25 and {t3}), "far"
    return output
"""
TYPE_TESTS = [
    "ego.type == TypeMode.Car and ego.x >= 1",
    "ego.type != TypeMode.Npc and ego.x >= 1",
    "(ego.type == TypeMode.Sign or ego.type == TypeMode.Npc) and ego.y >= 1",
    "any(o.type == TypeMode.Npc and o.x >= 1 for o in others)",
    "any(o.type == ego.type and o.x >= 1.5 for o in others)",
    "all(o.type != TypeMode.Car or o.x >= 1 for o in others)",
    "not any(o.type == TypeMode.Sign for o in others) and ego.x >= 1.5",
    "ego.x >= 1",
]
TYPE_RESETS = ["output.x = ego.x + 0.25", "output.y = 0.125", "pass"]


def static_cases():
    out = []
    for n in (1, 2, 3):
        tests = [t for t in range(len(TYPE_TESTS)) if n > 1 or "others" not in TYPE_TESTS[t]]
        for t1, t2, t3 in itertools.product(tests, repeat=3):
            for r in range(2):
                for ty in itertools.product(range(3), repeat=n):
                    for how in ("sim", "simple", "ver"):
                        c = (t1, t2, t3, r, ty, how)
                        if (THOROUGH and pick(c, 5)) or pick(c, {1: 1, 2: 8, 3: 30}[n] * (8 if how == "ver" else 2)):
                            out.append(c)
    return out


def static_tree(case, as_mode):
    t1, t2, t3, r, ty, how = case
    n = len(ty)
    put = lambda s: s.replace(".type", ".kind_mode") if as_mode else s
    src = put(TYPE_SRC.format(
        field="kind_mode: TypeMode" if as_mode else "type: TypeMode = TypeMode.Car", arg="kind_mode: TypeMode" if as_mode else "type: TypeMode",
        others=", others: List[State]" if n > 1 else "", t1=TYPE_TESTS[t1], t2=TYPE_TESTS[t2], t3=TYPE_TESTS[t3], r=TYPE_RESETS[r]))
    ns = {}
    exec(src, ns)
    s = Scenario(cfg(init_seg_length=1))
    for i in range(n):
        s.add_agent(RateAgent(f"a{i}", code=src, rates={m: [0.25 * (2 + (i + j) % 3), 0.25 * (1 + (2 * i + j) % 4)] for j, m in enumerate("ABC")}))
    w = 0.1 if how == "ver" else 0.0
    kinds = [ns["TypeMode"][TYPES[k]] for k in ty]
    s.set_init(
        [[[0.0713 * i, 0.0371 * i], [0.0713 * i + w, 0.0371 * i + w]] for i in range(n)],
        [(ns["AMode"].A, k) if as_mode else (ns["AMode"].A,) for k in kinds],
        *([] if as_mode else [[(k,) for k in kinds]]))
    mh = 2 * n + 1
    tree = s.verify(2.5, 0.5, max_height=mh) if how == "ver" else s.simulate_simple(2.5, 0.5, max_height=mh) if how == "simple" else s.simulate(2.5, 0.5, max_height=mh)
    todo = [tree.root]
    while todo:
        nd = todo.pop()
        todo += nd.child
        for i, k in enumerate(ty):
            m = c08.mode_t(nd.mode[f"a{i}"])
            if as_mode:
                if m[1] != TYPES[k]:
                    raise Violation("a mode nothing assigns changed", mode=m, source=src)
                nd.mode[f"a{i}"] = m[:1]
            elif list(nd.static[f"a{i}"]) != [TYPES[k]] or len(m) != 1:
                raise Violation("the type of an agent changed", static=nd.static, mode=m, source=src)
    if how == "ver":
        return c16.flat(c08.VNode(tree.root, explored_by(2.5, mh))), src
    return canon_sim(tree.root, explored_by(2.5, mh), True), src


def static(case, st):
    """An agent's type is visible to every controller, and stays what it is."""
    a, src = static_tree(case, False)
    b, _ = static_tree(case, True)
    st.add("trees", 2)
    st.outcome((case[4], case[5], len(repr(a)) // 300))
    if not (c16.close(a, b) if case[5] == "ver" else a == b):
        raise Violation("types of agents are not what a mode that never changes is", how=case[5], source=src, got=repr(a)[:2000], expected=repr(b)[:2000])


CASES = {"sim": sim, "ver": ver, "dist": dist, "noise": noise, "shipped": shipped, "static": static}


def main():
    ck = core.Check("C18")
    ck.bounds = {
        "sim": "controllers (6 tests x 3 resets x 6 tests x 4 assertions) x 6 sensors x 3 names of the parameter x 1-3 agents (quick: a ninth), and a single other agent; simulate, simulate_simple and the controller with the sensor written out",
        "ver": "controllers of guards the flow enters x 6 sensors x 4 kinds of parameter x 1-3 agents (quick: a sixth)",
        "dist": "a sensor that reports a distance, controllers x flows; simulation and verification, with noise",
        "shipped": "the thermostat, craft and quadrotor sensors against the default sensor: every field as guard, reset and assertion, 1-3 agents; simulation and verification",
        "static": "controllers testing the types of themselves and of others (8 x 8 x 8 tests x 2 resets) x types of 1-3 agents (quick: a part), simulate, simulate_simple, verify, against the type as a mode",
        "noise": "verification with perception intervals, executions under three perceptions in them",
    }
    ck.assumptions = ["flows are constant-rate; verification families use guards the flow enters and stays in"]
    for n, f, c in (("sim", sim, sim_cases()), ("ver", ver, ver_cases()), ("dist", dist, dist_cases()), ("noise", noise, noise_cases()), ("shipped", shipped, shipped_cases()), ("static", static, static_cases())):
        ck.explore(n, f, c)
    c = ck.stats.c
    return ck.finish(c.get("ref_steps", 0), c.get("pairs", 0) + c.get("trees", 0), c.get("executions", 0) + c.get("trees", 0))
