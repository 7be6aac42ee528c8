"""C08: every execution from the initial set lies in the tree computed by verification, and nothing else is claimed.

Bounded families of automata, flows, initial boxes, one to three agents; from every point of a grid of the initial set
the reference executor's tree is matched, node by node and sample by sample, with verification's tree (or ends inside a
node that is reported unsafe).  Single-agent trees are also compared with the exact set of mode paths and segment hulls.
"""
import itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent, ref_tree
from ..world import RateAgent, cfg, enums, norm_asserts, mode_t, explored_by
from . import c02
from verse import Scenario

EPS = 1e-4


def pts(box, extra=()):
    """corners, centre and quarter points of a box"""
    lo, hi = box
    axes = [sorted({a, (a + b) / 2, b, a + (b - a) * 0.25}) if b > a else [a] for a, b in zip(lo, hi)]
    return list(itertools.product(*axes))


class VNode:
    def __init__(self, n, explored):
        self.mode = {a: mode_t(m) for a, m in n.mode.items()}
        self.hits = norm_asserts(n.assert_hits)
        self.start = n.start_time
        self.explored = explored(n)
        self.tr = {a: np.array(t, dtype=float) for a, t in n.trace.items()} if self.explored else {}
        self.init = n.init
        self.child = [VNode(c, explored) for c in n.child]

    def covers(self, aid, row):
        t, x = row[0], np.array(row[1:])
        A = self.tr[aid]
        lo, hi = A[0::2], A[1::2]
        m = (lo[:, 0] - EPS <= t) & (t <= hi[:, 0] + EPS)
        if not m.any():
            return False
        return bool((m & ((lo[:, 1:] - EPS <= x) & (x <= hi[:, 1:] + EPS)).all(axis=1)).any())

    def covers_any_time(self, aid, row):
        x = np.array(row[1:])
        A = self.tr[aid]
        lo, hi = A[0::2], A[1::2]
        return bool(((lo[:, 1:] - EPS <= x) & (x <= hi[:, 1:] + EPS)).all(axis=1).any())


def desc(v, depth):
    out = [v]
    if depth > 0:
        for c in v.child:
            out += desc(c, depth - 1)
    return out


def match(r, v, nag, aligned, st, unsafe=()):
    """None if the reference (sub)tree r is covered by v, else the reason."""
    start, modes, inits, trace, hits, ch = r
    st.add("pairs")
    if dict(modes) != v.mode:
        return ("mode", dict(modes), v.mode)
    if trace is None:
        return None
    if not v.explored:
        return ("not explored", start, v.start)
    own = set()
    for aid, rows in trace:
        for row in rows:
            ok = v.covers(aid, row) if aligned else v.covers_any_time(aid, row)
            if not ok:
                if v.hits:
                    return None  # verification stopped here and says so
                return ("state outside the tube", aid, row)
    if hits:
        for aid, labels in hits:
            if v.hits:
                return None
        return ("violated assertion not reported", hits, v.mode)
    if v.hits:
        return None
    for c in ch:
        best = None
        for d in desc(v, nag)[1:]:
            if d.hits and all(d.mode[a] in (m, k) for (a, m), (_, k) in zip(modes, c[1])):
                best = None  # reached one agent at a time, and reported unsafe on the way
                break
            w = match(c, d, nag, aligned, st)
            if w is None:
                best = None
                break
            if best is None or (w[0] != "mode" and best[0] == "mode"):
                best = w
        else:
            return best or ("no successor for a transition taken by an execution", c[0], c[1])
    return None


def check(ragents, boxes, T, dt, st, seg=1, mh=None, conf=None, allowed=None, map_=None, extra=None, aligned=None, sensor=None, view=None):
    s = Scenario(cfg(init_seg_length=seg, **(conf or {})))
    for a in ragents:
        s.add_agent(RateAgent(a.id, code=a.ctl.source() if a.ctl else None, rates=a.rates))
    if map_ is not None:
        s.set_map(map_)
    if sensor is not None:
        s.set_sensor(sensor)
    s.set_init([[list(e) for e in b] for b in boxes], [enums(a.ctl or ragents[0].ctl, a.disc) for a in ragents])
    tree = s.verify(T, dt, max_height=mh)
    V = VNode(tree.root, explored_by(T, mh))
    st.add("verify_nodes", len(tree.nodes))
    src = [a.ctl.source() if a.ctl else None for a in ragents]
    for p in itertools.product(*[pts(b) for b in boxes]):
        ags = [RAgent(a.id, a.ctl, a.rates, x, a.disc) for a, x in zip(ragents, p)]
        r = ref_tree(ags, T, dt, mh, False, allowed, extra, stats=st, view=view)
        st.add("executions")
        st.outcome(r[5] and r)
        w = match(r, V, len(ragents), seg == 1 if aligned is None else aligned, st)
        if w is not None:
            raise Violation("an execution from the initial set is not covered by verification", start=p, why=w, source=src, tree=show(V))
    return tree, V


def show(v, d=0):
    return {"mode": str(v.mode), "start": v.start, "rows": {a: len(t) for a, t in v.tr.items()}, "hits": str(v.hits), "child": [show(c, d + 1) for c in v.child][:6]} if d < 3 else "..."


# ---- one agent -----------------------------------------------------------------------------------------
# monotone half-space guards, as flows make them monotone; every edge resets so that it is disabled afterwards or leaves
GUARDS = ("ego.x >= 1", "ego.y >= 1", "ego.x + ego.y >= 1.75", "ego.x >= 0.75 and ego.y >= 0.5", "not ego.x < 1.25")
RESETS = ((), (("set", "x", "0"),), (("set", "y", "ego.y - 1"),), (("set", "x", "ego.y - 2"), ("set", "y", "ego.x - 2")))
RATES = (
    {"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.0, 0.0)},
    {"A": (0.5, 1.0), "B": (2.0, 0.25), "C": (0.25, 0.25)},
    {"A": (1.0, 1.0), "B": (0.0, 1.0), "C": (1.0, 0.0)},
)
def off(boxes):
    """Offsets that keep every sample away from every threshold (no exact ties with rounded tubes)."""
    return tuple(tuple((x + 0.0131 * (1 + 0.31 * i), y + 0.0173 * (1 + 0.23 * i)) for x, y in b) for i, b in enumerate(boxes))


BOXES = off((((0.0, 0.0), (0.25, 0.25)), ((-0.5, 0.0), (0.5, 0.0)), ((0.0, -0.5), (0.0, 0.5)), ((0.5, 0.25), (1.25, 0.5))))


def single_cases():
    out = []
    E1 = [(g, d, r) for g in range(len(GUARDS)) for d in "BC" for r in range(len(RESETS))]
    E2 = [("A", g, "C", r) for g in range(5) for r in (0, 2)] + [("B", g, d, r) for g in range(5) for d in "AC" for r in range(4) if not (d == "A" and r in (0,))]
    for i, (g, d, r) in enumerate(E1):
        for j, e2 in enumerate(E2):
            for k in range(len(RATES)):
                for b in range(len(BOXES)):
                    c = (("A", g, d, r), e2, k, b)
                    if THOROUGH and draw(c, 2) or not THOROUGH and pick(c, 16):
                        out.append(c + (draw((c, 1), 3),))
    return out


def single(case, st):
    e1, e2, k, b, o = case
    ctl = Ctl(c02.edge_stmts([(s, GUARDS[g], d, RESETS[r]) for s, g, d, r in (e1, e2)]))
    T, dt = ((2.0, 0.5), (1.5, 0.25), (2.5, 0.5))[o]
    check([RAgent("a", ctl, RATES[k], (0, 0), ("A",))], [BOXES[b]], T, dt, st, seg=1, mh=4)


def seg_cases():
    return [c + (sl,) for i, c in enumerate(single_cases()) for sl in (2, 3, 1000) if THOROUGH and draw((c, sl), 2) or pick((c, sl), 6)]


def seg(case, st):
    """Combined initial segments: the states of each mode path are covered (timing is relative there)."""
    e1, e2, k, b, o, sl = case
    ctl = Ctl(c02.edge_stmts([(s, GUARDS[g], d, RESETS[r]) for s, g, d, r in (e1, e2)]))
    check([RAgent("a", ctl, RATES[k], (0, 0), ("A",))], [BOXES[b]], 2.0, 0.5, st, seg=sl, mh=4, aligned=False)


# ---- several agents ----------------------------------------------------------------------------------
MULTI = (
    c02.prog(("A", "ego.x >= 1", "B", ())),
    c02.prog(("A", "any(o.x - ego.x <= 0.25 for o in others)", "B", ())),
    c02.prog(("A", "all(o.x <= ego.x + 0.125 for o in others)", "C", RESETS[1])),
    c02.prog(("A", "ego.y >= 1", "B", RESETS[2]), ("B", "ego.x >= 1.5", "C", ())),
    c02.prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.x >= 1", "C", ())),
    [],
    c02.prog(("A", "any(o.y >= 1 and o.x >= 0 for o in others)", "B", ())) + [("assert", "not any(o.x > ego.x + 1.25 for o in others)", "ahead")],
    c02.prog(("A", "ego.x >= 1", "C", ())) + [("if", "ego.mode == AMode.C", [("assert", "ego.y < 1.125", "high")], [])],
)
OBS = {1, 2, 6}  # controllers that look at the others
PASSIVE = 5
MB = off((((0.0, 0.0), (0.25, 0.25)), ((0.5, 0.0), (0.75, 0.125)), ((0.5, 0.5), (0.5, 0.75))))


def recedes(p, k, q, l):
    """An observer (p, flows k) whose relational guard the other agent (q, flows l) may move out of again."""
    if p not in (1, 2):
        return False
    modes = "A" if q == PASSIVE else "ABC"
    return max(RATES[l][m][0] for m in modes) > RATES[k]["A"][0]


def multi_cases():
    """Transient guards (verification stops looking at the first segment after a hit) are a listed finding."""
    out = []
    for p, q in itertools.product(range(len(MULTI)), repeat=2):
        for k1, k2 in itertools.product(range(3), repeat=2):
            if recedes(p, k1, q, k2) or recedes(q, k2, p, k1):
                continue
            out.append(((p, k1, 0), (q, k2, 1)))
    for p, q, r in itertools.product((0, 3, 4, 7), (0, 5, 7), (1, 5, 6)):
        if recedes(r, 2, p, 0) or recedes(r, 2, q, 1):
            continue
        out.append(((p, 0, 0), (q, 1, 1), (r, 2, 2)))
    return out


def multi(case, st):
    ags = [RAgent(f"a{i}", Ctl(MULTI[p]), RATES[k], (0, 0), ("A",)) for i, (p, k, b) in enumerate(case)]
    boxes = [MB[b] for _, _, b in case]
    if len(case) == 3:
        boxes = [(b[0], (b[1][0], b[0][1])) for b in boxes]
    check(ags, boxes, 1.5, 0.5, st, seg=1, mh=6)


# ---- lane maps: transitions the map does not permit are not taken, and do not hide those that are ------------------
def lane_cases():
    E = [e for e in c02.lane_edges() if not e[3].endswith("0.9")]
    # where two guards do not set the same of mode and track, their permitted outcomes may become disabled again
    sets = lambda e: (e[0] != e[1], e[2] != "keep")
    mixed = lambda e, f: e[0] == f[0] and e[3] != f[3] and sets(e) != sets(f)
    out = [(e1, e2, t) for e1 in E if e1[0] == "Normal" for e2 in E if not mixed(e1, e2) for t in range(len(c02.TABLES))]
    return [c + (draw(c, len(BOXES)),) for c in out if THOROUGH or draw((c, 1), 5) < 2]


def lane(case, st):
    e1, e2, t, b = case
    rm = c02.RefMap(c02.TABLES[t])

    def allowed(a, src, dst):
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    check([RAgent("a", c02.lane_ctl((e1, e2)), c02.LRATES, (0, 0), ("Normal", "T0"))], [BOXES[b]], 2.0, 0.5, st, seg=1, mh=4, map_=c02.TableMap(c02.TABLES[t]), allowed=allowed, extra={"track_map": rm})


def combined(case, st):
    """Entry segments combined into one tube (the default init_seg_length) together with a second agent."""
    e = c02.prog(("A", "ego.x >= 1", "B", ()), ("B", "ego.y >= 1", "C", (("set", "y", "0"),)))
    f = c02.prog(("A", "ego.x >= 1", "B", ()))
    rates = ({"A": (1.0, 0.5), "B": (0.5, 1.0), "C": (0.25, -0.5)}, {"A": (0.5, 1.0), "B": (1.0, 0.5), "C": (0.0, 0.25)})
    ags = [RAgent(f"a{i}", Ctl(c), r, (0, 0), ("A",)) for i, (c, r) in enumerate(zip((e, f), rates))]
    check(ags, [((0.013, 0.017), (0.213, 0.117))] * 2, 2.0, 0.25, st, seg=case, aligned=False)


def joint(case, st):
    """Two agents take transitions at the same time, each of which disables the guard of the other."""
    e = c02.prog(("A", "ego.x >= 1", "B", ())) + [("if", "ego.mode == AMode.B", [("if", "any(o.mode == AMode.B for o in others)", [("set", "mode", "AMode.C")], [])], [])]
    ags = [RAgent(f"a{i}", Ctl(e), RATES[case], (0, 0), ("A",)) for i in range(2)]
    check(ags, [MB[0], MB[0]], 1.5, 0.5, st, seg=1, mh=8)


CASES = {"single": single, "seg": seg, "multi": multi, "lane": lane}


def main():
    ck = core.Check("C08")
    ck.bounds = {
        "single": f"two-edge automata over {len(GUARDS)} half-space guards x 4 resets x 3 flow tables x {len(BOXES)} initial boxes (quick: a quarter), 4-6 segments, depth 4",
        "seg": "the same with combined initial segments of length 2, 3 and all",
        "multi": "8 controllers pairwise x 9 flow pairs, and triples",
        "lane": "pairs of edges of lane-changing agents x 3 maps (quick: two fifths)",
    }
    ck.assumptions = ["flows are decoupled and constant-rate, so the tubes DryVR learns are exact", "guards are half-spaces the flow enters and stays in"]
    for n, f, c in (("single", single, single_cases()), ("seg", seg, seg_cases()), ("multi", multi, multi_cases()), ("lane", lane, lane_cases())):
        ck.explore(n, f, c)
    ck.known_case("transient-guard", multi, ((1, 1, 0), (5, 0, 1)))
    ck.known_case("combined-entries", combined, 1000)
    ck.known_case("joint-transitions", joint, 0)
    c = ck.stats.c
    return ck.finish(c.get("verify_nodes", 0), c.get("pairs", 0), c.get("executions", 0))
