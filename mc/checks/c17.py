"""C17: the fixed-point test is right: it says yes iff every state of the last segment was reached before.

fixed_points_fix / contain_all_fix / reach_at_fix run on all families of boxes and trees within the bounds; the
reference decides containment of unions of closed boxes on the cells that the bounds of the boxes cut the space into
(every cell is represented by one point, so that this is exact).  Trees are built directly and by verification.
"""
import itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..world import RateAgent, cfg, enums
from . import c02, c08
from verse import Scenario, BaseAgent
from verse.analysis import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType, ReachabilityMethod as RM
from verse.utils import fixed_points as fp


# ---- reference ------------------------------------------------------------------------------------------
def cell_points(boxes, d):
    vs = sorted({b[k][d] for b in boxes for k in (0, 1)})
    out = list(vs)
    for a, b in zip(vs, vs[1:]):
        out.append((a + b) / 2)
    return out


def inside(p, box):
    return all(l <= x <= h for x, l, h in zip(p, box[0], box[1]))


def contained(boxes1, boxes2, st=None):
    """Union of closed boxes in union of closed boxes; boxes with labels: [(label, lower, upper)]."""
    for lab in {b[0] for b in boxes1}:
        one = [b[1:] for b in boxes1 if b[0] == lab]
        two = [b[1:] for b in boxes2 if b[0] == lab]
        for b in one:
            # cells within b
            dims = []
            for d in range(len(b[0])):
                lo, hi = b[0][d], b[1][d]
                vs = {lo, hi} | {e[k][d] for e in two for k in (0, 1) if lo <= e[k][d] <= hi}
                vs = sorted(vs)
                dims.append(vs + [(x + y) / 2 for x, y in zip(vs, vs[1:])])
            for p in itertools.product(*dims):
                if st is not None:
                    st.add("cells")
                if not any(inside(p, e) for e in two):
                    return False
    return True


def segments(tree):
    """[(start, end, label, lower, upper)] of a tree, product over the agents"""
    out = []
    for n in tree.nodes:
        ags = sorted(n.trace)
        if not ags or min(len(n.trace[a]) for a in ags) < 2:
            continue
        A = [np.array(n.trace[a], dtype=float) for a in ags]
        lab = tuple((a, tuple(n.mode[a]) if not isinstance(n.mode[a], str) else (n.mode[a],)) for a in ags)
        for i in range(0, min(len(x) for x in A) // 2 * 2, 2):
            out.append((A[0][i][0], A[0][i + 1][0], lab, tuple(float(v) for x in A for v in x[i][1:]), tuple(float(v) for x in A for v in x[i + 1][1:])))
    return out


def expect(tree, T, dt, st=None):
    S = segments(tree)
    end = max(s[1] for s in S)
    last = [s[2:] for s in S if abs(s[1] - end) < dt * 1e-3]
    before = [s[2:] for s in S if s[1] <= T - dt + dt * 0.01]
    return contained(last, before, st)


# ---- boxes ----------------------------------------------------------------------------------------------
I1 = [(a, b) for a in range(4) for b in range(a, 4)]
I2 = [(a, b) for a in range(3) for b in range(a, 3)]
B1 = [((a,), (b,)) for a, b in I1]
B2 = [((a, c), (b, d)) for a, b in I2 for c, d in I2]


def box_cases():
    """(dimension, boxes of the first, boxes of the second); spread over nodes in every way for up to two nodes"""
    out = []
    for a in range(len(B1)):
        for r in range(0, 4):
            for c in itertools.combinations(range(len(B1)), r):
                out.append((1, (a,), c))
    for a, b in itertools.combinations(range(len(B1)), 2):
        for r in (1, 2, 3):
            for c in itertools.combinations(range(len(B1)), r):
                if THOROUGH or pick((a, b, c), 2):
                    out.append((1, (a, b), c))
    big = [i for i, b in enumerate(B2) if b[0][0] < b[1][0] and b[0][1] < b[1][1]]
    for a in range(len(B2)):
        for r in (1, 2):
            for c in itertools.combinations(range(len(B2)), r):
                if THOROUGH or pick((a, c), 3):
                    out.append((2, (a,), c))
    for a in big:
        for c in itertools.combinations(big, 3):
            out.append((2, (a,), c))
    # chunks of cases keep the cost of a case sensible
    k = 50
    return [tuple(out[i : i + k]) for i in range(0, len(out), k)]


def boxes(case, st):
    for d, one, two in case:
        B = B1 if d == 1 else B2
        l1 = [(0,) + B[i] for i in one]
        l2 = [(0,) + B[i] for i in two]
        want = contained(l1, l2, st)
        for split in range(min(len(two), 2) + 1):
            as_node = lambda ids: [list(map(float, v)) for i in ids for v in B[i]]
            r1 = {k: as_node([i]) for k, i in enumerate(one)}
            if split == 0:
                r2 = {0: as_node(two)} if two else {0: None}
            else:
                r2 = {0: as_node(two[:split]), 1: as_node(two[split:]), 2: None}
            got = bool(fp.contain_all_fix(r1, r2))
            st.add("queries")
            st.outcome((d, len(one), len(two), want))
            if got != want:
                raise Violation("containment of unions of boxes is decided wrongly", one=l1, two=l2, got=got, want=want)
            if len(two) == 0:
                break


# ---- trees built directly ------------------------------------------------------------------------------
class Dummy:
    pass


def node(trace, mode, start, height, child, id, hits=None):
    return AnalysisTreeNode(trace=trace, init={a: [] for a in mode}, mode=mode, static={a: [] for a in mode}, uncertain_param={a: [] for a in mode}, agent={a: None for a in mode}, height=height, assert_hits=hits or {}, child=child, start_time=start, ndigits=10, type=AnalysisTreeNodeType.REACH_TUBE, id=id)


def rows(start, k0, vals, dt, disc):
    """Segments with the given value intervals (1-D per entry a list of intervals, one per variable), from time start + k0*dt"""
    out = []
    for i, v in enumerate(vals):
        t = start + (k0 + i) * dt  # as verification computes them: not rounded
        out.append([t] + [float(x[0]) for x in v])
        out.append([t if disc else start + (k0 + i + 1) * dt] + [float(x[1]) for x in v])
    return out


V1 = [((0, 1),), ((1, 2),), ((0, 2),), ((1, 1),)]
GRIDS = [(0.5, 3, 0.0), (0.1, 8, 0.0), (0.1, 3, 0.0), (0.001, 5, 40.0)]


def tree_cases():
    """Root with a tube, successors that start at some segment; the tubes of interest are the last segments."""
    out = []
    for last, others in itertools.product(itertools.product(range(4), repeat=1), itertools.product(range(4), repeat=2)):
        for gi in range(len(GRIDS)):
            out.append(("chain", last + others, gi))
    for vals in itertools.product(range(4), repeat=4):
        for shape in ("leaf-first", "early-first", "early-last", "empty-first", "empty-last", "modes", "two-modes"):
            for gi in range(len(GRIDS)):
                if THOROUGH or pick((shape, vals, gi), 2):
                    out.append((shape, vals, gi))
    for vals in itertools.product(range(4), repeat=4):
        out.append(("agents", vals, draw(vals, len(GRIDS))))
    return out


def tree(case, st):
    shape, vals, gi = case
    dt, N, base = GRIDS[gi]
    T = base + N * dt
    for disc in (False, True):
        V = [V1[v] for v in vals]
        up = N if not disc else N + 1
        if shape == "chain":
            tr = rows(base, 0, [V[1]] * (up - 2) + [V[2], V[0]], dt, disc)
            root = node({"a": tr}, {"a": ("A",)}, base, 0, [], 0)
        elif shape == "agents":
            tr = rows(base, 0, [V[0]] * (up - 1) + [V[1]], dt, disc)
            tb = rows(base, 0, [V[2]] * (up - 1) + [V[3]], dt, disc)
            root = node({"a": tr, "b": tb}, {"a": ("A",), "b": ("B",)}, 0.0, 0, [], 0)
        else:
            cut = 1 if gi != 1 else 3
            start = round(base + cut * dt, 10)
            full = rows(start, 0, [V[1]] * (up - cut - 1) + [V[2]], dt, disc)
            other = rows(start, 0, [V[3]] * (up - cut), dt, disc)
            root_tr = rows(base, 0, [V[0]] * (cut + 1), dt, disc)
            m1, m2 = ("B",), ("C",)
            if shape == "modes":
                m1, m2 = ("A",), ("A",)
            if shape == "two-modes":
                m1, m2 = ("A", "B"), ("B", "A")
            if shape.startswith("early"):
                other = other[: max(2, len(other) - 2)]
            if shape.startswith("empty"):
                other = []
            c1 = node({"a": full}, {"a": m1}, start, 1, [], 1)
            c2 = node({"a": other} if other else {}, {"a": m2}, start, 1, [], 2, {"a": ["x"]} if shape.startswith("early") else None)
            ch = [c2, c1] if shape in ("early-first", "empty-first") else [c1, c2]
            root = node({"a": root_tr}, {"a": ("A",) if shape != "two-modes" else ("A", "A")}, 0.0, 0, ch, 0)
        t = AnalysisTree(root)
        want = expect(t, T, dt, st)
        st.add("trees")
        st.outcome((shape, disc, want))
        got = bool(fp.fixed_points_fix(t, T, dt))
        st.add("queries")
        if got != want:
            raise Violation("the fixed-point test is wrong", shape=shape, disc=disc, T=T, dt=dt, got=got, want=want, segments=segments(t))
        window(t, T, dt, st)


def window(t, T, dt, st):
    """reach_at_fix over a window: the product boxes of the segments that lie in it"""
    for lo, hi in ((0, T + dt), (dt * 0.5, T - dt * 0.5)):
        got = fp.reach_at_fix(t, lo, hi)
        want = []
        for s in segments(t):
            if s[0] >= lo and s[1] <= hi:
                want.append((s[3], s[4]))
        have = []
        ags = sorted(t.root.mode)
        for k, vs in got.items():
            if vs is None:
                continue
            for i in range(0, len(vs), 2):
                have.append((vs[i], vs[i + 1]))
        st.add("queries")
        nv = [len(t.root.trace[a][0]) - 1 for a in ags]
        nm = [len(t.root.mode[a]) for a in ags]
        strip = []
        for l, h in have:
            L, H, k = [], [], 0
            for a, v, m in zip(ags, nv, nm):
                L += l[k : k + v]
                H += h[k : k + v]
                if list(l[k + v : k + v + m]) != list(h[k + v : k + v + m]):
                    raise Violation("the mode of a box differs between its corners", box=(l, h))
                k += v + m
            strip.append((tuple(map(float, L)), tuple(map(float, H))))
        if sorted(strip) != sorted(want):
            raise Violation("the boxes of a time window are wrong", window=(lo, hi), got=sorted(strip), want=sorted(want))


# ---- trees of verification -----------------------------------------------------------------------------
SAW = [
    c02.prog(("A", "ego.x >= 1", "A", (("set", "x", "0"),))),
    c02.prog(("A", "ego.x >= 1", "B", (("set", "x", "0"),)), ("B", "ego.x >= 1", "A", (("set", "x", "0"),))),
    c02.prog(("A", "ego.x >= 1", "B", ())),
    c02.prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.x >= 1", "C", (("set", "x", "0"),))) + [("if", "ego.mode == AMode.C", [("assert", "ego.x < 0.75", "high")], [])],
    c02.prog(("A", "ego.x >= 1", "C", (("set", "x", "0"),)), ("A", "ego.x >= 1", "B", ())) + [("if", "ego.mode == AMode.C", [("assert", "ego.x < 0.75", "high")], [])],
]
FLOWS = [{"A": (1.0, 0.0), "B": (0.0, 0.0), "C": (1.0, 0.0)}, {"A": (1.0, 0.0), "B": (1.0, 0.0), "C": (0.5, 0.0)}, {"A": (1.0, 0.25), "B": (-1.0, 0.0), "C": (0.5, 0.0)}]
VB = [((0.013, 0.0), (0.263, 0.25)), ((0.513, 0.0), (0.513, 0.0)), ((-0.2, 0.0), (0.6, 0.0))]
TWO = [(p, q) for p in range(len(SAW)) for q in (0, 2, 3)]
VG = [(2.0, 0.25), (2.0, 0.1), (1.5, 0.3), (3.0, 0.5), (0.8, 0.1), (1.7, 0.1)]


def verify_cases():
    return list(itertools.product(range(len(SAW)), range(len(FLOWS)), range(len(VB)), range(len(VG)), ("DRYVR", "DRYVR_DISC"), (3, 5)))


def two_cases():
    return [(i, f, b, g) for i, f, b, g in itertools.product(range(len(TWO)), range(len(FLOWS)), range(len(VB)), (0, 3, 4)) if THOROUGH or pick((i, f, b, g), 2)]


def two(case, st):
    i, f, b, g = case
    T, dt = VG[g]
    s = Scenario(cfg(init_seg_length=1000))
    ctls = [Ctl(SAW[k]) for k in TWO[i]]
    for k, ctl in enumerate(ctls):
        s.add_agent(RateAgent(f"a{k}", code=ctl.source(), rates=FLOWS[(f + k) % len(FLOWS)]))
    s.set_init([[list(e) for e in VB[b]], [list(e) for e in VB[(b + 1) % 3]]], [enums(c, ("A",)) for c in ctls])
    judge(s.verify(T, dt, max_height=4), T, dt, case, st)


def verified(case, st):
    c, f, b, g, m, mh = case
    T, dt = VG[g]
    s = Scenario(cfg(init_seg_length=1000, reachability_method=RM[m]))
    ctl = Ctl(SAW[c])
    s.add_agent(RateAgent("a", code=ctl.source(), rates=FLOWS[f]))
    s.set_init([[list(e) for e in VB[b]]], [enums(ctl, ("A",))])
    judge(s.verify(T, dt, max_height=mh), T, dt, case, st)


def judge(t, T, dt, case, st):
    S = segments(t)
    if max(e[1] for e in S) < T - dt * 0.5:
        return  # every execution ended in a violation, or where the tree was cut
    want = expect(t, T, dt, st)
    st.add("trees")
    st.outcome((case[:3], want))
    got = bool(fp.fixed_points_fix(t, T, dt))
    st.add("queries")
    if got != want:
        raise Violation("the fixed-point test is wrong on a verified tree", T=T, dt=dt, got=got, want=want, nodes=[(n.mode, n.start_time, len(next(iter(n.trace.values()), []))) for n in t.nodes])


CASES = {"boxes": boxes, "tree": tree, "verified": verified, "two": two}


def main():
    ck = core.Check("C17")
    ck.bounds = {
        "boxes": "1-D: one or two intervals over {0..3} in up to three; 2-D: one box over {0,1,2}^2 in up to two boxes, boxes with an interior in up to three (quick: a half / third of the larger families), spread over nodes",
        "tree": "trees of up to three nodes: single tubes, successors that end early or are unexplored in either order, modes that agree or differ, two agents; values over 4 intervals; 4 time grids; both forms of tubes",
        "verified": f"{len(SAW)} automata x {len(FLOWS)} flows x {len(VB)} boxes x {len(VG)} time grids x 2 methods x 2 depth limits",
        "two": f"{len(TWO)} pairs of them x flows x boxes x 3 time grids (quick: half)",
    }
    ck.assumptions = ["trees in which some execution reaches the horizon"]
    for n, f, c in (("boxes", boxes, box_cases()), ("tree", tree, tree_cases()), ("verified", verified, verify_cases()), ("two", two, two_cases())):
        ck.explore(n, f, c)
    c = ck.stats.c
    return ck.finish(c.get("cells", 0), c.get("trees", 0), c.get("queries", 0))
