"""C14: direct simulation (simulate_simple) is the execution of the controllers as Python functions.

Bounded families of controllers, agents, initial states, time grids and depth limits on the real simulator; the oracle
runs the controller source with the Python interpreter on every sample.
"""
import copy, itertools, types
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent
from ..world import RateAgent, cfg, enums, rnd, rvec, norm_asserts, mode_t, times
from . import c02
from verse import Scenario
from verse.map import LaneMap, Lane, StraightLane


def python(ctl):
    ns = ctl.ns
    exec(ctl.source()[len(ctl.head()) :], ns)
    return ns["decisionLogic"]


def ref(agents, T, dt, mh, st, mp=None, view=None):
    """The execution as [(start, modes, inits, trace rows per agent or None, hits)], one entry per node."""
    fns = {a.id: python(a.ctl) for a in agents if a.ctl}
    ids = [a.id for a in agents]
    A = {a.id: a for a in agents}
    start, disc, init, height, out = 0.0, {a.id: a.disc for a in agents}, {a.id: a.init for a in agents}, 0, []
    while True:
        remain = round(T - start, 10)
        if height >= (float("inf") if mh is None else mh) - 1 or remain <= 0:
            return out + [(start, dict(disc), dict(init), None, {})]
        t = times(remain, dt)
        tr = {i: A[i].trace(disc[i], init[i], remain, dt) for i in ids}
        hits, new = {}, {}
        for k in range(len(t)):
            for i in ids:
                if i not in fns:
                    continue
                c = A[i].ctl
                ego = c.obj(tr[i][k], disc[i])
                args = [ego]
                names = [p.split(":")[0].strip() for p in c.sig.split(",")]
                for n in names[1:]:
                    if "map" in n:
                        args.append(mp)
                    else:
                        args.append([c.obj(tr[j][k], disc[j]) for j in ids if j != i])
                if view is not None:
                    e = view(A, i, disc, {j: tr[j][k] for j in ids})
                    args = [e.get(n, mp) for n in names]
                st.add("ref_steps")
                try:
                    o = fns[i](*args)
                except AssertionError as e:
                    hits[i] = e.args[0] if e.args else None
                    continue
                g = lambda f: getattr(o, f)
                o = (tuple(v if isinstance(v, str) else v.name for v in map(g, c.disc())), tuple(map(g, c.cont())))
                if o != (tuple(disc[i]), tuple(tr[i][k])):
                    new[i] = o
            if hits or new:
                break
        else:
            k = len(t) - 1
        out.append((start, dict(disc), dict(init), {i: [(start + t[j],) + tuple(tr[i][j]) for j in range(k + 1)] for i in ids}, hits))
        if hits or not new:
            return out
        start = round(start + t[k], 10)
        init = {i: new[i][1] if i in new else tr[i][k] for i in ids}
        disc = {i: new[i][0] if i in new else disc[i] for i in ids}
        height += 1


def run(agents, T, dt, mh, st, mp=None, sensor=None, view=None):
    s = Scenario(cfg())
    for a in agents:
        s.add_agent(RateAgent(a.id, code=a.ctl.source() if a.ctl else None, rates=a.rates))
    if mp is not None:
        s.set_map(mp)
    if sensor is not None:
        s.set_sensor(sensor)
    s.set_init([[list(a.init)] for a in agents], [enums(a.ctl or agents[0].ctl, a.disc) for a in agents])
    tree = s.simulate_simple(T, dt, max_height=mh)
    exp = ref(agents, T, dt, mh, st, mp, view)
    src = [a.ctl.source() if a.ctl else None for a in agents]
    node, d = tree.root, 0
    for i, (start, disc, init, tr, hits) in enumerate(exp):
        bad = None
        if abs(node.start_time - start) > 1e-7:
            bad = ("start", node.start_time, start)
        elif {a: mode_t(m) for a, m in node.mode.items()} != disc:
            bad = ("modes", node.mode, disc)
        elif {a: rvec(v) for a, v in node.init.items()} != {a: rvec(v) for a, v in init.items()}:
            bad = ("initial states", node.init, init)
        elif tr is not None and {a: [rvec(r) for r in v] for a, v in node.trace.items()} != {a: [rvec(r) for r in v] for a, v in tr.items()}:
            bad = ("trace", {a: [rvec(r) for r in v] for a, v in node.trace.items()}, tr)
        elif set(norm_asserts(node.assert_hits)) != set(hits):
            bad = ("agents with violated assertions", node.assert_hits, hits)
        elif any(l is not None and norm_asserts(node.assert_hits)[a] != {l} for a, l in hits.items()):
            bad = ("violated assertions", node.assert_hits, hits)
        elif len(node.child) != (i < len(exp) - 1):
            bad = ("number of children", len(node.child), i < len(exp) - 1)
        if bad:
            raise Violation(f"direct simulation differs from running the controllers: {bad[0]}", node=i, got=bad[1], expected=bad[2], source=src)
        st.add("nodes")
        node = node.child[0] if node.child else None
    if len(tree.nodes) != len(exp):
        raise Violation("tree.nodes", got=len(tree.nodes), expected=len(exp))
    st.outcome((tuple((e[0], tuple(sorted(e[1].items())), tuple(sorted(e[4]))) for e in exp)))
    return tree


# ---- one agent --------------------------------------------------------------------------------------------------
TESTS = ("ego.x >= 1", "ego.x > 0.4 and ego.y < 1.5", "not ego.y >= 0.8 or ego.x > 2", "ego.mode == AMode.A", "ego.mode != AMode.B and ego.x > 0.7", "far(ego)", "d > 0.5")
SETS = ([("set", "mode", "AMode.B")], [("set", "mode", "AMode.C"), ("set", "x", "0")], [("set", "y", "ego.x + ego.y")], [("set", "x", "ego.y - 1"), ("set", "mode", "AMode.A")], [("set", "mode", "AMode.A")])
ASSERTS = (None, ("assert", "ego.x < 1.6", "too far"), ("assert", "ego.y < 1.2", None), ("assert", "ego.x < 1.6 or ego.mode == AMode.A", "b"))
PRE = "def far(s):\n    return s.x + s.y > 1.9\n"
RATES = c02.RATES
INITS = ((0.0, 0.0), (0.5, 1.0), (-0.5, 1.5))
TIMES = ((3.0, 0.5), (1.0, 0.1), (2.0, 0.25), (0.7, 0.1))


def body(t1, s1, t2, s2, shape, a):
    st_ = [("raw", "d = ego.x - ego.y")]
    i1, i2 = ("if", TESTS[t1], list(SETS[s1]), []), ("if", TESTS[t2], list(SETS[s2]), [])
    if shape == "seq":
        st_ += [i1, i2]
    elif shape == "else":
        st_ += [("if", TESTS[t1], list(SETS[s1]), [i2])]
    elif shape == "nest":
        st_ += [("if", TESTS[t1], [i2], [])]
    else:
        st_ += [i2]
    if ASSERTS[a]:
        st_ = st_[:1] + [ASSERTS[a]] + st_[1:] if a % 2 else st_ + [ASSERTS[a]]
    return st_


def single(case, st):
    t1, s1, t2, s2, shape, a, r, i, k = case
    ctl = Ctl(body(t1, s1, t2, s2, shape, a), preamble=PRE)
    T, dt = TIMES[k]
    init = tuple(v + 0.0131 * (1 + j) for j, v in enumerate(INITS[i]))
    run([RAgent("a", ctl, RATES[r], init, ("A",))], T, dt, 6, st)


def single_cases():
    out = []
    n = 0
    for t1, s1, t2, s2, shape, a in itertools.product(range(len(TESTS)), range(len(SETS)), range(len(TESTS)), range(len(SETS)), ("seq", "else", "nest"), range(len(ASSERTS))):
        n += 1
        c = (t1, s1, t2, s2, shape, a)
        if THOROUGH or pick(c, 3):
            out.append(c + (draw((c, 1), 3), draw((c, 2), 3), draw((c, 3), len(TIMES))))
    for t, s, a, r, i, k in itertools.product(range(len(TESTS)), range(len(SETS)), range(len(ASSERTS)), range(3), range(3), range(len(TIMES))):
        out.append((0, 0, t, s, "one", a, r, i, k))
    return out


# ---- several agents, depth limits, agents with nothing but assertions, agents without controller ------------------
MULTI = c02.MULTI[:-1] + (
    [("assert", "ego.x < 1.3", "x")],
    [("assert", "all(o.x < 1.1 for o in others)", None)],
    c02.prog(("A", "ego.x >= 0.8", "B", ())) + [("assert", "not any(o.mode == AMode.B and o.x > 1 for o in others)", "o")],
    [("if", "ego.mode == AMode.A", [("if", "any(o.x >= 1 for o in others)", [("set", "mode", "AMode.B"), ("set", "x", "ego.x - 1")], [("if", "ego.y > 1.2", [("set", "mode", "AMode.C")], [])])], [])],
)


def multi(case, st):
    ps, r, i, k, mh = case
    T, dt = TIMES[k]
    ags = []
    for j, p in enumerate(ps):
        ctl = None if p is None else Ctl(MULTI[p])
        init = tuple(v + 0.0131 * (1 + q) + 0.0047 * j for q, v in enumerate(INITS[(i + j) % 3]))
        ags.append(RAgent("cab"[j], ctl, RATES[(r + j) % 3], init, ("A",)))
    run(ags, T, dt, mh, st)


def multi_cases():
    out = []
    n = 0
    P = list(range(len(MULTI)))
    for ps in [(p,) for p in P] + [(p, q) for p in P for q in P + [None]] + [(p, q, r) for p in P for q in P[::2] for r in (P[1::3] + [None])]:
        for r, i, k in itertools.product(range(3), range(3), range(len(TIMES))):
            c = (ps, r, i, k)
            if THOROUGH or pick(c, 5 if len(ps) < 3 else 11):
                out.append(c + ((6, 3, 2, 1, 4)[draw((c, 1), 5)],))
    return out


# ---- lane maps --------------------------------------------------------------------------------------------------
class TwoLanes(LaneMap):
    def __init__(self):
        super().__init__()
        self.add_lanes([Lane("T0", [StraightLane("s0", [-20, 0], [50, 0], 3)]), Lane("T1", [StraightLane("s1", [-20, -3], [50, -3], 3)])])
        self.h_dict = {("T0", "A", "B"): "M01", ("T1", "B", "C"): "M10", ("M01", "B", "A"): "T1", ("M10", "C", "A"): "T0"}


MAPPROG = (
    [("if", "ego.mode == AMode.A", [("if", "MAP.h_exist(ego.track_mode, ego.mode, AMode.B) and ego.x >= 1", [("set", "mode", "AMode.B"), ("set", "track_mode", "MAP.h(ego.track_mode, ego.mode, AMode.B)")], [])], [])],
    [("if", "ego.mode == AMode.A", [("if", "MAP.get_longitudinal_position(ego.track_mode, [ego.x, ego.y]) > 21.3", [("set", "mode", "AMode.B")], [])], []), ("if", "MAP.get_lateral_distance(ego.track_mode, [ego.x, ego.y]) >= 0.9", [("set", "mode", "AMode.C"), ("set", "y", "0")], [])],
    [("if", "any(MAP.get_longitudinal_position(o.track_mode, [o.x, o.y]) - ego.x > 20.2 for o in others)", [("set", "mode", "AMode.C")], []), ("assert", "ego.mode != AMode.C or ego.x < 1.9", "c")],
)


def lanes(case, st):
    ps, r, i, k, name, track = case
    T, dt = TIMES[k]
    ags = []
    for j, p in enumerate(ps):
        prog = [eval(repr(s).replace("MAP", name)) for s in MAPPROG[p]]
        ctl = Ctl(prog, modes=(("AMode", ("A", "B", "C")), ("TrackMode", ("T0", "T1", "M01", "M10"))), fields=(("x", "float"), ("y", "float"), ("mode", "AMode"), ("track_mode", "TrackMode")), sig=f"ego: State, others: List[State], {name}")
        init = tuple(v + 0.0131 * (1 + q) + 0.0047 * j for q, v in enumerate(INITS[(i + j) % 3]))
        ags.append(RAgent("ab"[j], ctl, RATES[(r + j) % 3], init, ("A", track)))
    run(ags, T, dt, 5, st, TwoLanes())


def lane_cases():
    P = range(len(MAPPROG))
    return [(ps, r, i, k, n, t) for ps in [(p,) for p in P] + list(itertools.product(P, repeat=2)) for r in range(3) for i in range(3) for k in range(2) for n in ("track_map", "lane_map") for t in ("T0", "T1")]


CASES = {"single": single, "multi": multi, "lanes": lanes}


def main():
    ck = core.Check("C14")
    ck.bounds = {"single": "two conditionals (7 tests x 5 bodies each; in sequence, nested, alternative) x 4 assertions x rates, initial states and grids (quick: a third)", "multi": f"1-3 agents of {len(MULTI)} controllers or none x rates x initial states x 4 grids x depth limits", "lanes": "3 controllers on a lane map, 1-2 agents, parameter names"}
    ck.assumptions = ["constant-rate dynamics, samples off the thresholds"]
    ck.explore("single", single, single_cases())
    ck.explore("multi", multi, multi_cases())
    ck.explore("lanes", lanes, lane_cases())
    c = ck.stats.c
    return ck.finish(c.get("nodes", 0), c.get("ref_steps", 0), c.get("nodes", 0))
