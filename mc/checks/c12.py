"""C12: the built-in agents follow their documented dynamics on the sampling grid.

Every agent x mode x lane x initial state x time grid of bounded alphabets; the whole trace is compared with an
independent integration (RK4 with fine steps, control held over each sampling period) using the geometric lane reference
of C09, and every split of the horizon has to give the same trajectory.
"""
import itertools, json, math, cmath, os
import numpy as np
from .. import core
from ..core import Violation, THOROUGH
from . import c09
from verse import BaseAgent
from verse.map import LaneMap, Lane
from verse.agents.example_agent.car_agent import NPCAgent, CarAgent, CarAgentDebounced, CarAgentSwitch2, WeirdCarAgent
from verse.agents.example_agent.ball_agent import BallAgent
from verse.agents.example_agent.ballg_agent import Ball_g_agent
from verse.agents.example_agent.line_agent import LineAgent
from verse.agents.example_agent.robot_agent import RobotAgent
from verse.agents.example_agent.sign_agent import SignAgent
from verse.agents.example_agent import quadrotor_agent
from verse.map.example_map import map_tacas, simple_map_3d
from verse.agents.example_agent.origin_agent import vanderpol_agent, thermo_agent, craft_agent

CODE = '''
from enum import Enum, auto
import copy
from typing import List
class AgentMode(Enum):
    {modes}
class TrackMode(Enum):
    T0 = auto()
    T1 = auto()
    M01 = auto()
class State:
    x: float
    agent_mode: AgentMode
    track_mode: TrackMode
    def __init__(self, x, agent_mode: AgentMode, track_mode: TrackMode):
        pass
def decisionLogic(ego: State):
    output = copy.deepcopy(ego)
    return output
'''.format(modes="\n    ".join(f"{m} = auto()" for m in ("Normal", "Stop", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2", "Brake", "Accel")))
TIMES = [(1, 0.25), (0.5, 0.5), (1.1, 0.1), (0.3, 0.1), (0.7, 0.05), (0.6, 0.2)]
W = 4.0
LANES = {
    "east": [("s", 60.0, 0)],
    "turn": [("s", 10.0, 0), ("a", 12.0, 90), ("s", 20.0, 0)],
    "bend": [("a", 15.0, -60), ("s", 30.0, 0)],
}
POSES = [(0, 0, 0), (3, -2, math.pi), (1, 1, -2.5), (0, 5, math.pi / 2)]


def grid(T, dt):
    return [round(i * dt, 10) for i in range(int(round(T / dt)) + 1)]


def rk4(f, x, h, n=60):
    x = np.array(x, dtype=float)
    d = h / n
    for _ in range(n):
        a = np.array(f(x))
        b = np.array(f(x + d / 2 * a))
        c = np.array(f(x + d / 2 * b))
        e = np.array(f(x + d * c))
        x = x + d / 6 * (a + 2 * b + 2 * c + e)
    return x


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


class Geo:
    """lane coordinates of one lane"""

    def __init__(self, lane, pose):
        self.refs = c09.chain(LANES[lane], pose)

    def at(self, x, y):
        """every (lateral, heading) of a segment the point is on; the closest first"""
        p = complex(x, y)
        out = []
        for r in self.refs:
            a, b = r.local(p)
            if -3 <= a < r.len:
                out.append((abs(b), b, r.heading(a)))
        return sorted(out)


def bicycle(delta, a, extra):
    def f(s):
        th, v = s[2], s[3]
        d = [v * math.cos(th + delta), v * math.sin(th + delta), v / 1.75 * math.sin(delta), a]
        return d + [1.0] * extra

    return f


def stanley(geo, s, offset):
    c = geo.at(s[0], s[1])
    if not c or len(c) > 1 and c[1][0] - c[0][0] < 1e-3:
        return None  # between two segments: either may be taken
    d = -c[0][1] + offset
    psi = wrap(c[0][2] - s[2])
    if abs(d) < 1e-6 and abs(s[3]) < 1e-6:
        return None  # at rest on the line the controller is discontinuous
    if abs(abs(psi) - math.pi) < 1e-6:
        return None
    return max(-0.61, min(0.61, psi + math.atan2(0.45 * d, s[3])))


OFFSET = {"SwitchLeft": W, "SwitchRight": -W, "SwitchLeft2": 2 * W, "SwitchRight2": -2 * W}
CARS = {
    "NPC": (lambda: NPCAgent("a"), ("Normal", "Brake"), 0),
    "Car": (lambda: CarAgent("a", code=CODE, speed=3, accel=2), ("Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"), 0),
    "Debounced": (lambda: CarAgentDebounced("a", code=CODE, speed=3, accel=2), ("Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel"), 1),
    "Switch2": (lambda: CarAgentSwitch2("a", code=CODE, speed=3, accel=2), ("Normal", "Stop", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2", "Brake", "Accel"), 1),
    "Weird": (lambda: WeirdCarAgent("a", code=CODE), ("Normal", "SwitchLeft", "SwitchRight"), 0),
}


def the_map(lane, pose):
    m = LaneMap()
    m.add_lanes([Lane("T0", [r.real(f"s{i}", W) for i, r in enumerate(c09.chain(LANES[lane], pose))])])
    m.add_lanes([Lane("T1", [c09.chain([("s", 5.0, 0)], (500, 500, 0))[0].real("o", 2.0)])])
    return m


def check_trace(tr, t, x0, what, tol=1e-6):
    tr = np.array(tr, dtype=float)
    if tr.shape != (len(t), 1 + len(x0)):
        raise Violation(f"{what}: shape of the trace", got=tr.shape, expected=(len(t), 1 + len(x0)), times=tr[:, 0])
    if np.max(np.abs(tr[:, 0] - np.array(t))) > 1e-8:
        raise Violation(f"{what}: times", got=tr[:, 0], expected=t)
    if np.max(np.abs(tr[0, 1:] - np.array(x0))) > 1e-12:
        raise Violation(f"{what}: the trace does not start at the initial state", got=tr[0], expected=x0)
    return tr


def splits(run, tr, t, dt, x0, what, tol):
    """the rest of a trace from any of its samples is the trace from there"""
    for k in range(1, len(t) - 1):
        y = run(tr[k, 1:].tolist(), round(t[-1] - t[k], 10), dt)
        y = check_trace(y, grid(t[-1] - t[k], dt), tr[k, 1:], what)
        if np.max(np.abs(y[:, 1:] - tr[k:, 1:]) / (1 + np.abs(tr[k:, 1:]))) > tol:
            raise Violation(f"{what}: continuing from a sample gives another trajectory", at=t[k], got=y, expected=tr[k:])


def car(case, st):
    name, mode, lane, pk, s0, tk = case
    make, _, extra = CARS[name]
    T, dt = TIMES[tk]
    geo = Geo(lane, POSES[pk])
    m = the_map(lane, POSES[pk])
    f, d, dth, v = s0
    r = geo.refs[0]
    p, th = r.point(f * r.len, d), r.heading(f * r.len)
    x0 = [p.real, p.imag, wrap(th + dth) + (2 * math.pi if pk == 3 and dth < 0 else 0), v] + [0.5] * extra
    keep = list(x0)
    ag = make()
    run = lambda x, T, h: ag.TC_simulate((mode, ("T0", "M01")[tk % 2]), x, T, h, m)
    t = grid(T, dt)
    tr = check_trace(run(x0, T, dt), t, x0, name)
    if x0 != keep:
        raise Violation("the initial state was modified", got=x0, expected=keep)
    s = np.array(x0)
    for i in range(len(t) - 1):
        if name == "Weird":
            g = 0.2 if mode == "SwitchLeft" and s[2] >= 0 else -0.2 if mode == "SwitchRight" and s[2] <= 0 else 0.0
            delta, a = (0.0 if abs(s[2]) > 0.8 else g), 0.0
        else:
            delta = stanley(geo, s, OFFSET.get(mode, 0.0) if name != "NPC" else 0.0)
            a = 0.0 if name == "NPC" else max(-2, -s[3]) if mode == "Brake" else min(2, 3 - s[3]) if mode == "Accel" else 0.0
        if delta is None:
            st.add("ambiguous")
            break
        s = rk4(bicycle(delta, a, extra), s, dt)
        s[3] = max(s[3], 0.0)
        st.add("steps")
        if np.max(np.abs(tr[i + 1, 1:] - s) / (1 + np.abs(s))) > 1e-4:
            raise Violation(f"{name}: the trace leaves its dynamics", step=i + 1, got=tr[i + 1, 1:], expected=s, steering=delta, accel=a)
        s = tr[i + 1, 1:].copy()
    splits(run, tr, t, dt, x0, name, 1e-6)
    st.outcome((case, tuple(np.round(tr[-1], 3))))


def car_cases():
    out = []
    S = list(itertools.product((0.1, 0.5), (-1.5, 0.0, 1.0), (-0.6, 0.0, 0.3), (0.0, 1.0, 6.0)))
    j = 0
    for name, (_, modes, _) in CARS.items():
        for mode, lane, pk, s0 in itertools.product(modes, LANES, range(len(POSES)), S):
            j += 1
            for tk in range(len(TIMES)):
                if THOROUGH or (j + tk * 7) % 37 == 0:
                    out.append((name, mode, lane, pk, s0, tk))
    return out


# ---- the others -------------------------------------------------------------------------------------------------
def craft(mode):
    def f(s):
        x, y, u, v = s[:4]
        g = pow(y * y + (x + 42164000) ** 2, -1.5)
        if mode == "ProxA":
            du = -2.89995083970656 * u - 0.0576765518445905 * x + 0.00877200894463775 * v + 0.000200959896519766 * y - (1.43496e18 * x + 6.050365344e25) * g + 807.153595726846
            dv = -0.00875351105536225 * u - 0.000174031357370456 * x - 2.90300269286856 * v - 1.43496e18 * y * g - 0.0664932019993982 * y
        elif mode == "ProxB":
            du = -19.2299795908647 * u - 0.576076729033652 * x + 0.00876275931760007 * v + 0.000262486079431672 * y - (1.43496e18 * x + 6.050365344e25) * g + 807.153595726846
            dv = -0.00876276068239993 * u - 0.000262486080737868 * x - 19.2299765959399 * v - 1.43496e18 * y * g - 0.575980743701182 * y
        else:
            du, dv = 0.0000575894721132000 * x + 0.00876276 * v, -0.00876276 * u
        return [u, v, du, dv, 1.0, 1.0]

    return f


class Default(BaseAgent):
    """what a user writes: dynamics only"""

    def dynamics(self, t, s):
        return [s[1], -s[0], math.cos(t) if False else 0.5]


OTHERS = {
    "ball": (lambda: BallAgent("a", code=CODE), {("none",): lambda s: [s[2], s[3], 0, 0]}, [[5.0, 10.0, 2.0, -2.0], [0.0, 0.0, 0.0, 0.0]]),
    "ballg": (lambda: Ball_g_agent("a", code=CODE, g_acc_val=9.0), {("none",): lambda s: [s[2], s[3], -9.0, 0]}, [[5.0, 10.0, 2.0, -2.0], [0.0, 0.0, 0.0, 1.0]]),
    "line": (lambda: LineAgent("a", code=CODE), {("none",): lambda s: [s[1], 0]}, [[5.0, -1.0], [0.0, 3.0]]),
    "robot": (lambda: RobotAgent("a", code=CODE), {("none",): lambda s: [1.0]}, [[5.0], [-0.25]]),
    "sign": (lambda: SignAgent("a"), {("none",): lambda s: [0.0] * len(s)}, [[5.0, 1.0, 0.0, 0.0], [7.0]]),
    "vdp": (lambda: vanderpol_agent("a", code=CODE), {("none",): lambda s: [s[1], (1 - s[0] ** 2) * s[1] - s[0]]}, [[1.25, 2.25], [-0.5, 0.0], [2.0, -3.0]]),
    "thermo": (lambda: thermo_agent("a", code=CODE), {("ON",): lambda s: [0.1 * s[0], 1, 1], ("OFF",): lambda s: [-0.1 * s[0], 1, 1]}, [[75.0, 0.0, 0.0], [20.0, 3.0, 0.5]]),
    "craft": (lambda: craft_agent("a", code=CODE), {(k,): craft(k) for k in ("ProxA", "ProxB", "Passive")}, [[-925.0, -425.0, 0.0, 0.0, 0.0, 0.0], [-100.0, 50.0, 2.0, -1.0, 10.0, 1.0]]),
    "default": (lambda: Default("a", code=CODE), {("none",): lambda s: [s[1], -s[0], 0.5]}, [[1.0, 0.0, 0.0], [0.5, -2.0, 7.0]]),
}


def other(case, st):
    name, mode, k, tk, late = case
    make, modes, inits = OTHERS[name]
    T, dt = TIMES[tk]
    ag = make()
    x0 = list(inits[k])
    keep = list(x0)
    if late:  # an agent that was used before
        for m in modes:
            ag.TC_simulate(m, list(inits[-1]), 0.5, 0.25)
    run = lambda x, T, h: ag.TC_simulate(mode, x, T, h, LaneMap())
    t = grid(T, dt)
    tr = check_trace(run(x0, T, dt), t, x0, name)
    if x0 != keep:
        raise Violation("the initial state was modified", got=x0, expected=keep)
    s = np.array(x0)
    for i in range(len(t) - 1):
        s = rk4(modes[mode], s, dt, 200)
        st.add("steps")
        if np.max(np.abs(tr[i + 1, 1:] - s) / (1 + np.abs(s))) > 2e-4:
            raise Violation(f"{name}: the trace leaves its dynamics", step=i + 1, got=tr[i + 1, 1:], expected=s)
    splits(run, tr, t, dt, x0, name, 1e-4)
    st.outcome((case, tuple(np.round(tr[-1], 3))))


def other_cases():
    return [(n, m, k, t, l) for n, (_, ms, ini) in OTHERS.items() for m in ms for k in range(len(ini)) for t in range(len(TIMES)) for l in (0, 1)]


# ---- the quadrotor --------------------------------------------------------------------------------------
QMAPS = {"M5": map_tacas.M5, "M6": map_tacas.M6, "Simple6": simple_map_3d.SimpleMap6, "Simple7": simple_map_3d.SimpleMap7}
QTIMES = [((1, 0.5), 2.5, 0.1), ((1, 1.5), 1.0, 0.25), ((0.5, 1), 1.3, 0.05), ((2, 0.3), 1.5, 0.5)]
QOFF = [((0, 0), (0, 0, 0)), ((0.5, 1.0), (0.3, -0.2, 0.1)), ((1.5, 4.0), (-0.5, 0.5, -0.4)), ((0.2, 3.0), (0, 1.0, 0))]
ACTIONS = [(a, b, c) for a in (-0.1, 0.1) for b in (-0.1, 0.1) for c in (7.81, 11.81)]
NET = []


def net(v):
    """scores of the actions, from the parameters beside the agent"""
    if not NET:
        with open(os.path.join(os.path.dirname(quadrotor_agent.__file__), "prarm.json")) as f:
            p = json.load(f)
        NET.extend((np.array(p[f"weight{i}"]), np.array(p[f"bias{i}"])) for i in (1, 2, 3))
    v = np.array(v)
    for i, (w, b) in enumerate(NET):
        v = w @ v + b
        if i < 2:
            v = np.tanh(v)
    return v


def quadrotor(case, st):
    mp, lane, si, frac, oi, ti, late = case
    m = QMAPS[mp]()
    pair, T, dt = QTIMES[ti]
    ag = quadrotor_agent.QuadrotorAgent("q", code=CODE, t_v_pair=pair, box_side=[0.4] * 3)
    seg = m.lane_dict[m.trans_func(lane)].segment_list[si]
    (r, th), v = QOFF[oi]
    x0 = [float(x) for x in seg.position(frac * seg.length, r, th)] + [float(a) for a in v]
    if late:
        ag.TC_simulate(["Normal", lane], list(x0), 0.5, dt, m)
    wps = []
    nxt = m.get_next_point

    def spy(l, id, pos, vel, tv):
        w = nxt(l, id, pos, vel, tv)
        wps.append((l, id, None if pos is None else list(pos), list(vel), tuple(tv), list(w)))
        return w

    m.get_next_point = spy
    keep = list(x0)
    t = grid(T, dt)
    tr = check_trace(ag.TC_simulate(["Normal", lane], x0, T, dt, m), t, keep, "quadrotor")
    if x0 != keep:
        raise Violation("the initial state was modified", got=x0, expected=keep)
    if late:
        fresh = quadrotor_agent.QuadrotorAgent("q", code=CODE, t_v_pair=pair, box_side=[0.4] * 3).TC_simulate(["Normal", lane], list(x0), T, dt, QMAPS[mp]())
        if np.shape(fresh) != tr.shape or np.abs(np.array(fresh) - tr).max() > 1e-9:
            raise Violation("quadrotor: an earlier use of the agent changes the trajectory", got=tr[-1], fresh=fresh[-1])
    n = int(round(pair[0] / dt))  # samples between way points
    for k, w in enumerate(wps):
        row = tr[min(k * n, len(tr) - 1), 1:]
        if w[0] != m.trans_func(lane) or w[1] != "q" or w[4] != pair or np.abs(np.array(w[3]) - row[3:]).max() > 1e-9 or (k == 0) != (w[2] is not None) or (k == 0 and np.abs(np.array(w[2]) - row[:3]).max() > 1e-9):
            raise Violation("quadrotor: the way point is asked for something else than where the quadrotor is", at=k, got=w[:5], expected=row)
    for i in range(len(t) - 1):
        k, j = divmod(i, n)
        w = np.array(wps[k][5])
        ref = w[:3] + (w[3:] - w[:3]) * (j * dt / pair[0])
        vref = (w[3:] - w[:3]) / pair[0]
        x, vel = tr[i, 1:4], tr[i, 4:7]
        sc = net(np.concatenate([0.2 * (x - ref), 0.1 * (vel - vref)]))
        o = np.sort(sc)
        if o[-1] - o[-2] < 1e-4 * (1 + abs(o[-1])):
            st.add("ties")
            continue
        a = ACTIONS[int(np.argmax(sc))]
        acc = np.array([9.81 * math.tan(a[0]), -9.81 * math.tan(a[1]), a[2] - 9.81])
        exp = np.concatenate([x + vel * dt + acc * dt * dt / 2, vel + acc * dt])
        st.add("steps")
        if np.abs(tr[i + 1, 1:] - exp).max() > 1e-5:
            raise Violation("quadrotor: a step is not the one of its controller and dynamics", step=i + 1, got=tr[i + 1, 1:], expected=exp, reference=[ref, vref], action=a)
    st.outcome((mp, lane, si, len(wps), tuple(np.round(tr[-1], 2))))


def quad_cases():
    out = []
    for mp in QMAPS:
        m = QMAPS[mp]()
        lanes = sorted({k[0] for k in m.h_dict}) if m.h_dict else sorted(m.lane_dict)
        for lane in lanes:
            for si in range(len(m.lane_dict[m.trans_func(lane)].segment_list)):
                for f, o, k, late in itertools.product((0.05, 0.45), range(len(QOFF)), range(len(QTIMES)), (0, 1)):
                    c = (mp, lane, si, f, o, k, late)
                    if THOROUGH or core.pick(c, 5):
                        out.append(c)
    return out


CASES = {"car": car, "other": other, "quadrotor": quadrotor}


def main():
    ck = core.Check("C12")
    ck.bounds = {"car": "5 car agents x modes x 3 lanes x 4 poses x 54 states x 6 time grids (quick: a 37th)", "other": "9 agents x modes x states x 6 time grids, fresh and used before", "quadrotor": "4 maps x lanes x segments x 2 positions x 4 offsets x 4 time grids, fresh and used before (quick: a fifth)"}
    ck.assumptions = ["control is held over a sampling period", "steps from points that two segments claim equally are not compared"]
    ck.explore("car", car, car_cases())
    ck.explore("other", other, other_cases())
    ck.explore("quadrotor", quadrotor, quad_cases())
    c = ck.stats.c
    return ck.finish(c.get("steps", 0), c.get("steps", 0), c.get("steps", 0))
