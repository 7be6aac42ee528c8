"""C13: saved trees load as they were, comparing trees decides containment, and the queries describe the tree.

Result trees of bounded families of scenarios (simulation and verification, every reachability method that runs offline)
are saved, loaded and compared field by field; comparison is enumerated over all pairs of small trees and over pairs
of result trees, against direct definitions.
"""
import itertools, json, os, shutil, subprocess, tempfile
import networkx
import numpy as np
from matplotlib import colors as mcolors, pyplot as plt
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent
from ..world import RateAgent, cfg, enums, norm_asserts
from . import c02, c08
from verse import Scenario
from verse.analysis import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType, ReachabilityMethod as RM
from verse.analysis.analysis_tree import first_transitions

SIM, REACH = AnalysisTreeNodeType.SIM_TRACE, AnalysisTreeNodeType.REACH_TUBE


# ---- definitions ------------------------------------------------------------------------------------------------
def flat(x):
    """nested sequences, arrays and numbers as tuples and floats"""
    if isinstance(x, np.ndarray):
        return flat(x.tolist())
    if isinstance(x, dict):
        return tuple(sorted((k, flat(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(flat(v) for v in x)
    if isinstance(x, (int, float, np.generic)) and not isinstance(x, bool):
        return float(x)
    return x


def fields(n):
    return (
        n.id, n.height, float(n.start_time), str(n.type), n.ndigits, tuple(sorted(n.agent)),
        flat({a: list(m) if not isinstance(m, str) else m for a, m in n.mode.items()}), flat(n.init), flat(n.trace), flat(n.static), flat(n.uncertain_param),
        tuple(sorted((a, tuple(sorted(s))) for a, s in norm_asserts(n.assert_hits).items())),
    )


FIELD = ["id", "height", "start_time", "type", "ndigits", "agents", "mode", "init", "trace", "static", "uncertain_param", "assert_hits"]


def same_tree(a, b, path="root"):
    for n, x, y in zip(FIELD, fields(a), fields(b)):
        if x != y:
            raise Violation(f"{n} of a node changed by saving and loading", node=path, saved=x, loaded=y)
    if len(a.child) != len(b.child):
        raise Violation("children changed by saving and loading", node=path, saved=len(a.child), loaded=len(b.child))
    for i, (c, d) in enumerate(zip(a.child, b.child)):
        same_tree(c, d, f"{path}.{i}")


def walk(n):
    return [n] + [m for c in n.child for m in walk(c)]


def slots(root, agents):
    """{agent: {start of the segment: [(lower row, upper row)]}}"""
    out = {a: {} for a in agents}
    for n in walk(root):
        for a in agents:
            if a in n.trace:
                tr = np.array(n.trace[a], dtype=float)
                for lo, hi in zip(tr[0::2], tr[1::2]):
                    out[a].setdefault(round(lo[0], 6), []).append((lo[1:], hi[1:]))
    return out


def covered(lo, hi, parts):
    """[lo, hi] within the union of the closed intervals"""
    for a, b in sorted(parts):
        if a > lo:
            return False
        lo = max(lo, b)
        if lo >= hi:
            return True
    return False


def reach_contains(a, b, tol):
    ags = sorted(b.agent)
    A, B = slots(a, ags), slots(b, ags)
    for ag in ags:
        for t, rects in B[ag].items():
            for lo, hi in rects:
                for j in range(len(lo)):
                    # a rectangle of b is an interval, so it has to be within one connected part of the union
                    if not covered(lo[j], hi[j], [(p[j] - tol, q[j] + tol) for p, q in A[ag].get(t, [])]):
                        return False
    return True


def sim_contains(a, b, tol):
    for ag in b.agent:
        if (ag in a.trace) != (ag in b.trace):
            return False
        if ag in a.trace:
            x, y = np.array(a.trace[ag]), np.array(b.trace[ag])
            if x.shape != y.shape or np.any(np.abs(x[:, 1:] - y[:, 1:]) >= tol):
                return False
    if len(a.child) != len(b.child):
        return False
    M = [[sim_contains(c, d, tol) for d in b.child] for c in a.child]
    return any(all(M[i][p] for i, p in enumerate(ps)) for ps in itertools.permutations(range(len(b.child))))


def expect(a, b, strict, tol):
    x, y = set(a.root.agent), set(b.root.agent)
    if (strict and x != y) or not x >= y:
        return False
    return (sim_contains if a.type == SIM else reach_contains)(a.root, b.root, tol)


def compare(a, b, st, what, tol=None, strict=True):
    kw = {} if tol is None else {"tol": tol}
    e = expect(a, b, strict, 1e-5 if tol is None else tol)
    g = a.contains(b, strict, **kw) if kw else a.contains(b, strict=strict)
    st.add("comparisons")
    st.add("contained" if e else "not_contained")
    if bool(g) != e:
        raise Violation(f"{what}: contains() is wrong", got=g, expected=e, tol=tol, strict=strict, a=show(a.root), b=show(b.root))
    return e


def show(n):
    return {"start": n.start_time, "mode": str(n.mode), "trace": {a: np.round(np.array(t, dtype=float), 3) for a, t in n.trace.items()}, "child": [show(c) for c in n.child]}


def queries(tree):
    ns = walk(tree.root)
    if sorted(map(id, tree.nodes)) != sorted(map(id, ns)):
        raise Violation("nodes does not list every node once")
    leaves = [n for n in ns if not n.child]
    if tree.leaves() != len(leaves):
        raise Violation("leaves() is wrong", got=tree.leaves(), expected=len(leaves))
    if sorted(map(id, tree.get_leaf_nodes(tree.root))) != sorted(map(id, leaves)):
        raise Violation("get_leaf_nodes() is wrong")
    for n in ns:
        h = depth(n)
        if tree.height(n) != h:
            raise Violation("height() is wrong", got=tree.height(n), expected=h)
    d = {}
    for n in ns:
        for c in n.child:
            for a in n.agent:
                if n.mode[a] != c.mode[a]:
                    d[a] = min(d.get(a, np.inf), c.start_time)
    g = first_transitions(tree)
    if g != d:
        raise Violation("first_transitions() is wrong", got=g, expected=d, tree=show(tree.root))


def depth(n):
    return 1 + max([depth(c) for c in n.child], default=0)


# ---- result trees -----------------------------------------------------------------------------------------------
PROGS = {
    "none": [],
    "jump": c02.prog(("A", "ego.x >= 1", "B", (("set", "x", "0"),))),
    "two": c02.prog(("A", "ego.x >= 1", "B", ()), ("A", "ego.x >= 1", "C", (("set", "y", "ego.y + 1"),))),
    "loop": c02.prog(("A", "ego.x >= 1", "B", (("set", "x", "0"),)), ("B", "ego.x >= 1", "A", (("set", "x", "0"),))),
    "safe": c02.prog(("A", "ego.x >= 1", "B", ())) + [("assert", "ego.y < 1.2 or ego.mode == AMode.A", "high y"), ("assert", "ego.x < 40", None)],
    "pair": c02.prog(("A", "any(o.x > 1 for o in others)", "B", ())) + [("assert", "not any(o.x > 1.7 for o in others)", "other")],
    "late": c02.prog(("A", "ego.x >= 1.7", "C", ()), ("A", "ego.y >= 0.9", "B", (("set", "y", "0"),))),
}
RATES = c08.RATES
BOXES = [((0.0, 0.0), (0.0, 0.0)), ((0.0, 0.0), (0.3, 0.2)), ((0.4, -0.2), (0.9, 0.0)), ((0.1, 0.05), (0.2, 0.1))]
TIMES = [(1.0, 0.25), (2.0, 0.5), (1.5, 0.5), (0.3, 0.1)]
OPTS = [{}, {"unsafe_continue": True}, {"init_seg_length": 1}]


def build(progs, rates, boxes, opts):
    s = Scenario(cfg(**opts))
    ctls = []
    for i, (p, r) in enumerate(zip(progs, rates)):
        c = Ctl(PROGS[p])
        ctls.append(c)
        s.add_agent(RateAgent("abc"[i], code=c.source(), rates=RATES[r]))
    s.set_init([[[v + 0.0131 * (1 + 0.3 * i) for v in e] for e in BOXES[b]] for i, b in enumerate(boxes)], [enums(c, ("A",)) for c in ctls])
    return s


def execute(s, kind, T, dt, mh):
    if kind == "sim":
        return s.simulate(T, dt, max_height=mh, seed=3)
    if kind == "disc":
        s.config.reachability_method = RM.DRYVR_DISC
    return s.verify(T, dt, max_height=mh)


def roundtrip(tree, st):
    fd, fn = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        tree.dump(fn)
        back = AnalysisTree.load(fn)
    finally:
        os.unlink(fn)
    same_tree(tree.root, back.root)
    if back.type != tree.type or len(back.nodes) != len(tree.nodes):
        raise Violation("the loaded tree has another type or other nodes", saved=str(tree.type), loaded=str(back.type))
    st.add("nodes", len(tree.nodes))
    return back


def graph(tree, st, dot):
    """The graphs drawn of a tree have its nodes, labelled by id and start, and its edges, labelled by the agents that change."""
    ns = walk(tree.root)
    edges = sorted((n.id, c.id) for n in ns for c in n.child)
    got = []
    ways = ("draw", "draw_networkx", "draw_planar", "draw_kamada_kawai", "draw_spring", "draw_shell", "draw_circular")
    old = {w: getattr(networkx, w) for w in ways}
    show_ = plt.show
    for w in ways:
        setattr(networkx, w, lambda g, *a, **kw: got.append((g, kw)))
    plt.show = lambda *a, **k: None
    try:
        tree.visualize()
    finally:
        for w in ways:
            setattr(networkx, w, old[w])
        plt.show = show_
    if len(got) != 1:
        raise Violation("visualize() draws no graph")
    g, kw = got[0]
    if sorted(g.nodes) != sorted(n.id for n in ns) or sorted(tuple(sorted(e)) for e in g.edges) != sorted(tuple(sorted(e)) for e in edges):
        raise Violation("the graph drawn is not the tree", nodes=sorted(g.nodes), edges=sorted(g.edges), tree=show(tree.root))
    if {i: tuple(l) for i, l in kw["labels"].items()} != {n.id: (n.id, n.start_time) for n in ns}:
        raise Violation("nodes are not labelled by id and start time", labels=kw["labels"], tree=show(tree.root))
    colours = {i: mcolors.to_rgb(c) for i, c in zip(g, kw["node_color"])}
    check_colours(colours, ns)
    st.add("graphs")
    if not dot or not shutil.which("twopi"):
        return
    with tempfile.TemporaryDirectory() as d:
        tree.visualize_dot(os.path.join(d, "t"), "svg", "sans")
        for e in ("dot", "svg"):
            if not os.path.exists(os.path.join(d, "t." + e)):
                raise Violation(f"visualize_dot() writes no .{e}", files=os.listdir(d))
        o = json.loads(subprocess.run(["dot", "-Tjson0", os.path.join(d, "t.dot")], capture_output=True, check=True, timeout=60).stdout)
    names = {x["_gvid"]: x["name"] for x in o.get("objects", [])}
    if sorted(names.values()) != sorted(str(n.id) for n in ns) or any(x["label"] not in (x["name"], "\\N") for x in o["objects"]):
        raise Violation("the graph written does not have the tree's nodes", objects=o["objects"], tree=show(tree.root))
    check_colours({int(x["name"]): mcolors.to_rgb(x["color"]) for x in o["objects"]}, ns)
    want = sorted((str(n.id), str(c.id), tuple(sorted(a for a in n.agent if list(n.mode[a]) != list(c.mode[a])))) for n in ns for c in n.child)
    have = sorted((names[e["tail"]], names[e["head"]], tuple(sorted(x for x in e.get("label", "").split(", ") if x))) for e in o.get("edges", []))
    if want != have:
        raise Violation("the edges written are not the tree's, with the agents that change their mode", got=have, expected=want)
    st.add("graphs")


def check_colours(c, ns):
    """from blue at the root to red"""
    if any(v[1] > 1e-2 or abs(v[0] + v[2] - 1) > 1e-2 for v in c.values()) or c[ns[0].id][2] < 1 - 1e-2:
        raise Violation("nodes are not coloured between red and blue", colours=c)
    for n in ns:
        for k in n.child:
            if c[k.id][2] > c[n.id][2] + 1e-2:
                raise Violation("a newer node is more blue", colours=c, nodes=(n.id, k.id))


def result(case, st):
    kind, progs, rates, boxes, tk, o, mh = case
    T, dt = TIMES[tk]
    tree = execute(build(progs, rates, boxes, OPTS[o]), kind, T, dt, mh)
    queries(tree)
    back = roundtrip(tree, st)
    queries(back)
    graph(tree, st, draw((case, 2), 12 if not THOROUGH else 2) == 0)
    graph(back, st, False)
    for a, b in ((tree, back), (back, tree), (tree, tree)):
        if not compare(a, b, st, "a tree and its saved copy"):
            raise Violation("not contained in its own copy")
    if not tree.is_equal(back):
        raise Violation("is_equal is false for a loaded tree")
    st.outcome((case, len(tree.nodes)))
    # a run that starts from (a part of) other initial sets
    for k, alt in enumerate(([3] * len(boxes), [2] + list(boxes[1:]), [1] * len(boxes))):
        other = execute(build(progs, rates, alt, OPTS[o]), kind, T, dt, mh)
        compare(tree, other, st, "two results")
        compare(other, tree, st, "two results")
        if tree.is_equal(other) != (expect(tree, other, True, 1e-5) and expect(other, tree, True, 1e-5)):
            raise Violation("is_equal is not containment both ways")
    if T > 2 * dt:
        short = execute(build(progs, rates, boxes, OPTS[o]), kind, T - dt, dt, mh)
        compare(tree, short, st, "a shorter run")
        compare(short, tree, st, "a longer run")


def result_cases():
    out = []
    P = list(PROGS)
    ag = [((p,), (r,), (b,)) for p in P for r in range(len(RATES)) for b in range(3)]
    ag += [((p, q), (r, (r + 1) % 3), (b, (b + 1) % 3)) for p in P for q in P for r in range(3) for b in range(3)]
    n = 0
    for a, kind, tk, o in itertools.product(ag, ("sim", "ver", "disc"), range(len(TIMES)), range(len(OPTS))):
        if kind == "sim" and o == 2:
            continue
        c = (kind,) + a + (tk, o)
        if THOROUGH or pick(c, 3 if len(a[0]) == 1 else 17):
            out.append(c + ((4, 3, 5, 2, 1)[draw((c, 1), 5)],))
    return out


# ---- all pairs of small trees -----------------------------------------------------------------------------------
IV = [(0.0, 1.0), (1.0, 2.0), (0.0, 2.0), (3.0, 4.0)]


def reach_node(shape, ags, id_=None):
    """shape = (start index, ((interval per segment),...), children); other agents get shifted copies"""
    s, ivs, ch = shape
    tr = {a: [row for i, v in enumerate(ivs) for row in ([(s + i) * 0.5, IV[v][0] + k], [(s + i + 1) * 0.5, IV[v][1] + k])] for k, a in enumerate(ags)}
    id_ = itertools.count() if id_ is None else id_
    n = AnalysisTreeNode(tr, {a: [] for a in ags}, {a: ("A",) for a in ags}, {a: [] for a in ags}, {a: [] for a in ags}, {a: a for a in ags}, 0, {}, [], s * 0.5, 10, REACH, next(id_))
    n.child = [reach_node(c, ags, id_) for c in ch]
    return n


def shapes():
    """trees as verification makes them: children start within the parent; they may end early (unsafe) or be unexplored"""
    L = range(len(IV))
    one = [(0, v, ()) for n in (1, 2, 3) for v in itertools.product((0, 2, 3) if n == 3 else L, repeat=n)]
    out = list(one)
    for pl in (1, 2):
        for pv in itertools.product((0, 1), repeat=pl):
            for s in range(pl):
                for cl in range(0, 4 - s):
                    for cv in itertools.product((0, 1, 3) if cl < 3 else (1,), repeat=cl):
                        out.append((0, pv, ((s, cv, ()),)))
    for s1, s2 in itertools.product((0, 1), repeat=2):
        for c1, c2 in itertools.product(((1,), (0, 1), (3, 2), ()), repeat=2):
            out.append((0, (0, 1), ((s1, c1, ()), (s2, c2, ()))))
            if c1:
                out.append((0, (0, 1), ((s1, c1, ((s1 + len(c1) - 1, c2, ()),)),)))
    return out


def small_reach(case, st):
    i = case[0]
    S = shapes()
    a1, a2 = AnalysisTree(reach_node(S[i], ("a",))), AnalysisTree(reach_node(S[i], ("a", "b")))
    for j, s in enumerate(S):
        b1 = AnalysisTree(reach_node(s, ("a",)))
        compare(a1, b1, st, "small trees", tol=0.01)
        if (i + j) % 5 == 0:
            b2 = AnalysisTree(reach_node(s, ("a", "b")))
            for x, y, strict in ((a2, b2, True), (a2, b1, True), (a2, b1, False), (a1, b2, False)):
                compare(x, y, st, "small trees", tol=0.01, strict=strict)
            compare(a1, b1, st, "small trees", tol=1.0 + 1e-6)
    st.outcome(S[i])


def sim_node(shape, ags, d, id_=None):
    s, vals, ch = shape
    id_ = itertools.count() if id_ is None else id_
    tr = {a: np.array([[(s + i) * 0.5, v + k + d.get((s, i, k), 0)] for i, v in enumerate(vals)]) for k, a in enumerate(ags)} if vals else {}
    n = AnalysisTreeNode(tr, {a: [] for a in ags}, {a: ("A",) for a in ags}, {a: [] for a in ags}, {a: [] for a in ags}, {a: a for a in ags}, 0, {}, [], s * 0.5, 10, SIM, next(id_))
    n.child = [sim_node(c, ags, d, id_) for c in ch]
    return n


def sim_shapes():
    V = [(0, 1), (1, 0), (0, 1, 1), (2, 1, 0), (5,), (3, -1)]
    out = [(0, v, ()) for v in V]
    out += [(0, v, ((1, w, ()),)) for v in V[:3] for w in V + [()]]
    out += [(0, (0, 1), ((1, v, ()), (1, w, ()))) for v in V for w in V[:4] + [()]]
    out += [(0, (0, 1), ((1, V[0], ((2, v, ()),)), (1, V[1], ((2, w, ()),)))) for v in V for w in V]
    return out


def small_sim(case, st):
    i = case[0]
    S = sim_shapes()
    a1, a2 = AnalysisTree(sim_node(S[i], ("a",), {})), AnalysisTree(sim_node(S[i], ("a", "b"), {}))
    for j, s in enumerate(S):
        compare(a1, AnalysisTree(sim_node(s, ("a",), {})), st, "small simulation trees", tol=0.01)
        b2 = AnalysisTree(sim_node(s, ("a", "b"), {}))
        for x, y, strict in ((a2, b2, True), (b2, a2, False), (a2, AnalysisTree(sim_node(s, ("b",), {})), True), (a2, AnalysisTree(sim_node(s, ("a",), {})), False), (a1, b2, False)):
            compare(x, y, st, "small simulation trees", tol=0.01, strict=strict)
    for (s, k, ag), e in itertools.product(itertools.product((0, 1, 2), (0, 1, 2), (0, 1)), (0.004, -0.004, 0.02, -0.02)):
        b = AnalysisTree(sim_node(S[i], ("a", "b"), {(s, k, ag): e}))
        compare(a2, b, st, "small simulation trees", tol=0.01)
        compare(b, a2, st, "small simulation trees", tol=0.01)
        if abs(e) == 0.02:
            compare(b, a2, st, "small simulation trees")
    st.outcome(S[i])


CASES = {"result": result, "small_reach": small_reach, "small_sim": small_sim}


def main():
    ck = core.Check("C13")
    ck.bounds = {"result": "7 controllers, 1-2 agents x 3 rate tables x 3 initial boxes x 4 time grids x options x depth limits x (simulation, DryVR, discrete DryVR); each with 4 further runs to compare with", "small": f"all ordered pairs of {len(shapes())} reachtubes of up to 3 nodes and 3 segments and of {len(sim_shapes())} simulation trees"}
    ck.assumptions = ["compared trees have the same time step"]
    ck.explore("small_reach", small_reach, [(i,) for i in range(len(shapes()))])
    ck.explore("small_sim", small_sim, [(i,) for i in range(len(sim_shapes()))])
    ck.explore("result", result, result_cases())
    c = ck.stats.c
    return ck.finish(c.get("nodes", 0) + c.get("comparisons", 0), c.get("comparisons", 0), c.get("comparisons", 0))
