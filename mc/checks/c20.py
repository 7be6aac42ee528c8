"""C20: plots show exactly the trajectories and tubes of the tree, and leave the tree as it is.

All trees of a bounded family (shapes of up to four nodes, lengths, value patterns, agents, unexplored nodes, assertion
hits) are drawn by every plotting function for every combination of a bounded set of its options; what the figure holds
is read back (polylines, rectangles, cuboids, frames and what is visible in them, marks, axis ranges) and compared with
what the tree holds. Trees from simulating and verifying programs are drawn as well. Maps: every lane segment's outline.
"""
import itertools, math, re
from collections import Counter
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick, quiet
from . import c09, c13
import plotly.graph_objects as go
from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
from verse.map import LaneMap, Lane
from verse.plotter import plotter2D as P2, plotter3D_new as P3, plotterStar as PS

REACH, SIM = AnalysisTreeNodeType.REACH_TUBE, AnalysisTreeNodeType.SIM_TRACE
TYPES = {"sim": SIM, "reach": REACH}

# ---- trees ------------------------------------------------------------------------------------------------------
# a node is (length, children); length 0: not explored
SHAPES = {
    "one": lambda a, b: (a, ()),
    "child": lambda a, b: (a, ((b, ()),)),
    "two": lambda a, b: (a, ((b, ()), (a, ()))),
    "chain": lambda a, b: (a, ((b, ((1, ()),)),)),
    "unexplored": lambda a, b: (a, ((0, ()), (b, ()))),
    "last": lambda a, b: (a, ((b, ((0, ()),)),)),
    "deep": lambda a, b: (a, ((b, ((a, ()),)), (1, ()))),
    "wide": lambda a, b: (a, ((0, ()), (1, ((b, ()), (0, ()))))),
}
PATTERNS = {
    "rise": lambda i: 0.5 + 1.125 * i,
    "fall": lambda i: -0.75 * i,
    "zig": lambda i: (i % 2) * 1.25 - 0.376,
    "rest": lambda i: 0.25,
}
# (pattern of x, of y, of z, width of boxes in x, y, z)
VALUES = [("rise", "rise", "fall", 0.5, 0.25, 0.3), ("rise", "zig", "zig", 0.5, 0.0, 1.0), ("fall", "rise", "rest", 0.2, 0.2, 0.0), ("rest", "rest", "rise", 0.0, 0.0, 0.4), ("rest", "fall", "rest", 0.0, 0.75, 0.0), ("zig", "fall", "rest", 1.5, 0.25, 0.0), ("rest", "rest", "rest", 0.5, 0.5, 0.5)]
AGENTS = [("a",), ("b", "a"), ("car1", "c", "a0")]
HITS = [(), (0,), (1,), (0, 1), "last"]
DT = 0.25


def tree(kind, shape, a, b, values, ags, hits, meet=False):
    """meet: branches of the same length start and end together and differ in between"""
    ids = itertools.count()

    def node(spec, start):
        n, ch = spec
        me = next(ids)
        tr = {}
        for k, ag in enumerate(ags if n else ()):
            # other agents move by other patterns
            v = VALUES[(values + k * 2) % len(VALUES)]
            j = 0 if meet else me
            off = np.array([0.0, 100.0 * k + 17.0 * j, 60.0 * k + 11.0 * j, 30.0 * k + 7.0 * j])
            last = n - (kind == "reach")
            f = lambda i: np.array([(start + i) * DT] + [PATTERNS[p](i) for p in v[:3]]) + off + np.array([0, 0, 1, 0]) * (0.37 * me * i * (last - i) if meet else 0)
            if kind == "sim":
                tr[ag] = [f(i).tolist() for i in range(n + 1)] if (values + k) % 2 else np.array([f(i) for i in range(n + 1)])
            else:
                w = np.array([DT, *v[3:]])
                rows = [r for i in range(n) for r in ((f(i)).tolist(), (f(i) + w).tolist())]
                tr[ag] = rows if (values + k) % 2 else np.array(rows)
        h = {}
        if n and (hits == "last" and not ch or hits != "last" and me in hits):
            h = {ags[me % len(ags)]: ["unsafe" + str(me), "too close"]}
            if me == 1:
                h[ags[0]] = ["other"]
        mode = {ag: (("Normal", "Brake", "M" + str(me))[me % 3 if k == 0 else 0], "T0") for k, ag in enumerate(ags)}
        N = AnalysisTreeNode(tr, {ag: [] for ag in ags}, mode, {ag: [] for ag in ags}, {ag: [] for ag in ags}, {ag: ag for ag in ags}, 0, h, [], start * DT, 10, TYPES[kind], me)
        N.child = [node(c, start + n) for c in ch]
        return N

    return AnalysisTree(node(SHAPES[shape](a, b), 0))


def walk(n):
    yield n
    for c in n.child:
        yield from walk(c)


def snapshot(t):
    return [(id(n), id(n.trace), id(n.child), [id(c) for c in n.child], dict(n.mode), repr(n.assert_hits), n.start_time, {a: (id(r), len(r), np.array(r, dtype=float).tobytes()) for a, r in n.trace.items()}) for n in walk(t.root)]


# ---- reading figures --------------------------------------------------------------------------------------------
def rp(p):
    return tuple(round(float(v), 7) + 0.0 for v in p)


def seq(v):
    return [] if v is None else list(v)


def pieces(t, three=False):
    """The connected lines of a trace."""
    pts = list(zip(seq(t.x), seq(t.y), seq(t.z))) if three else list(zip(seq(t.x), seq(t.y)))
    out, cur = [], []
    for p in pts:
        if any(v is None or v != v for v in p):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(rp(p))
    return out + ([cur] if cur else [])


def is_line(t):
    return t.mode is not None and "lines" in t.mode


def color_of(t):
    c = t.line.color if t.line is not None and t.line.color is not None else t.marker.color if t.marker is not None else None
    return c


def rect_of(p):
    """(lower corner, upper corner) of a polygon that is a rectangle"""
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    lo, hi = (min(xs), min(ys)), (max(xs), max(ys))
    if any(q[0] not in (lo[0], hi[0]) or q[1] not in (lo[1], hi[1]) for q in p):
        raise Violation("a tube segment is not drawn as a rectangle", polygon=p)
    area = 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, p[1:] + p[:1]))
    if abs(abs(area) - (hi[0] - lo[0]) * (hi[1] - lo[1])) > 1e-6:
        raise Violation("a tube segment is not drawn as a rectangle", polygon=p)
    return lo, hi


def shown(v):
    """the numbers in a hover text"""
    return re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", str(v))


def need(cond, msg, **kw):
    if not cond:
        raise Violation(msg, **kw)


def diff(got, want):
    return {"only in the figure": list((got - want).items())[:4], "only in the tree": list((want - got).items())[:4]}


def hit_marks(fig, three=False):
    out = []
    for t in fig.data:
        if isinstance(t, (go.Scatter, go.Scatter3d)) and not is_line(t) and t.text is not None:
            texts = [t.text] if isinstance(t.text, str) else list(t.text)
            if any("HIT" in str(x) for x in texts):
                out.append((rp((t.x[0], t.y[0]) + ((t.z[0],) if three else ())), tuple(str(x) for x in texts)))
    return out


def check_hits(fig, t, x, y, z, k, want=True):
    marks = hit_marks(fig, z is not None)
    exp = []
    for n in walk(t.root):
        for a, labels in (n.assert_hits or {}).items():
            if want and a in n.trace:
                tr = np.array(n.trace[a], dtype=float)
                d = [x, y] + ([z] if z is not None else [])
                if str(n.type) == "reachtube":
                    g = groups(n.trace[a], k)[-1]
                    cand = ([g[0][q] for q in d], [g[1][q] for q in d])
                else:
                    cand = tuple([[r[q] for q in d] for r in (tr[::k][-1], tr[-1])])
                exp.append((cand, labels))
    need(len(marks) == len(exp), "not exactly the violated assertions are marked", marks=marks, expected=exp)
    for cand, labels in exp:
        lo, hi = np.min(cand, axis=0) - 1e-6, np.max(cand, axis=0) + 1e-6
        ok = [m for m in marks if all(l <= v <= h for l, v, h in zip(lo, m[0], hi)) and len(m[1]) == len(labels) and all(any(l in s for s in m[1]) for l in labels)]
        need(ok, "a violated assertion is not marked where it is violated", at=cand, labels=labels, marks=marks)


def samples(trace, k):
    return [list(map(float, trace[i])) for i in range(0, len(trace), k)]


def groups(trace, k):
    """The segments taken together k at a time, as bounding boxes."""
    tr = np.array(trace, dtype=float)
    segs = list(zip(tr[0::2], tr[1::2]))
    return [(np.min([s[0] for s in segs[i : i + k]], axis=0), np.max([s[1] for s in segs[i : i + k]], axis=0)) for i in range(0, len(segs), k)]


def ranges(fig, lo, hi, what):
    for axis, l, h in (("xaxis", lo[0], hi[0]), ("yaxis", lo[1], hi[1])):
        r = fig.layout[axis].range
        need(r is not None and r[0] <= l + 1e-6 and r[1] >= h - 1e-6, f"the axes leave out part of the {what}", axis=axis, range=r, data=(l, h))
        need(h - l < 1e-9 or r[1] - r[0] <= 4 * (h - l) + 1e-6, f"the axes are not scaled to the {what}", axis=axis, range=r, data=(l, h))


def extent(t, k, x, y):
    pts = [r for n in walk(t.root) for a, tr in n.trace.items() for r in (samples(tr, k) if str(n.type) != "reachtube" else [v for g in groups(tr, k) for v in g])]
    return (min(p[x] for p in pts), min(p[y] for p in pts)), (max(p[x] for p in pts), max(p[y] for p in pts))


def apart(used, what):
    """No colour is used for two agents."""
    for a, b in itertools.combinations(used, 2):
        both = used[a] & used[b]
        need(not both, f"two agents' {what} have the same colour", agents=(a, b), colours=sorted(map(str, both)))


def outlines(m, how):
    """What draws the map in a figure (judged by the check of maps alone)."""
    if m is None:
        return Counter()
    return Counter(tuple(p) for t in P2.draw_map(map=m, fig=go.Figure(), fill_type=how).data if is_line(t) for p in pieces(t))


def lines_of(fig, m, how, skip=0):
    """Lines in the figure other than those of the map: [(trace, piece)]"""
    left = outlines(m, how)
    out = []
    for t in fig.data[skip:]:
        if isinstance(t, go.Scatter) and is_line(t):
            for p in pieces(t):
                if left[tuple(p)] > 0:
                    left[tuple(p)] -= 1
                else:
                    out.append((t, p))
    need(not +left, "the map is not in the plot", missing=list(+left)[:2])
    return out


def given():
    f = go.Figure()
    f.add_trace(go.Scatter(x=[-7.0, -8.0], y=[-9.0, -9.5], mode="markers", name="given"))
    return f


def with_given(call, plain):
    """Plots into a figure keep what it has and add what a plot without figure shows; plots without are independent."""
    again = call(None)
    need(len(again.data) == len(plain.data), "a plot without figure depends on the plots before it", first=len(plain.data), second=len(again.data))
    f = given()
    out = call(f)
    need(any(t.name == "given" and rp(t.x) == (-7.0, -8.0) for t in out.data), "a plot into a figure drops what the figure has")
    need(len(out.data) == len(plain.data) + 1, "a plot into a figure differs from the plot alone", alone=len(plain.data), into=len(out.data))


def kept(t, before, what):
    need(snapshot(t) == before, f"{what} changes the tree")


DIMS = [(1, 2), (2, 1), (0, 1), (3, 2), (1, 1), (0, 3)]
RATES = (1, 2, 3)
SCALES = [("trace", None), ("map", None), ("trace", "lines"), ("map", "fill"), ("trace", "fill"), ("trace", "detailed")]


def two_lanes():
    segs = [(("s", 10.0, 0), ("a", 15.0, 45)), (("s", 14.0, 0),)]
    lanes = []
    for i, sp in enumerate(segs):
        z, th, out = complex(-3, 4 * i), 0.1, []
        for j, q in enumerate(sp):
            r = c09.Ref(q, z, th)
            out.append(r.real(f"S{i}{j}", 4.0))
            z, th = r.end()
        lanes.append(Lane(f"T{i}", out, speed_limit=(5.0, 20.0)[i]))
    m = LaneMap()
    m.add_lanes(lanes)
    return m


# ---- simulations ------------------------------------------------------------------------------------------------
def check_sim(t, ags, x, y, k, st, scale="trace", how=None, label="None", prints=None, distinct=True):
    m = two_lanes() if how else None
    kw = dict(map=m, x_dim=x, y_dim=y, print_dim_list=prints, scale_type=scale, label_mode=label, sample_rate=k)
    if how:
        kw["map_type"] = how
    before = snapshot(t)
    call = lambda f: P2.simulation_tree(t, fig=f, **kw) if f is not None else P2.simulation_tree(t, **kw)
    fig = call(None)
    st.add("figures", 3)
    with_given(call, fig)
    kept(t, before, "simulation_tree")
    want, text, owner = Counter(), {}, {}
    dims = range(np.array(t.root.trace[ags[0]]).shape[1]) if prints is None else prints
    for n in walk(t.root):
        for a, tr in n.trace.items():
            s = samples(tr, k)
            key = tuple(rp((r[x], r[y])) for r in s)
            want[key] += 1
            text.setdefault(key, []).append([["{:.2f}".format(r[d]) for d in dims] for r in s])
            owner[key] = a
    lines = lines_of(fig, m, how)
    got = Counter(tuple(p) for _, p in lines)
    need(got == want, "a plot of a simulation does not show exactly its trajectories", x=x, y=y, rate=k, **diff(got, want))
    used = {}
    for tr, p in lines:
        need([shown(q) for q in tr.text] in text[tuple(p)], "hovering does not show the values of the samples", got=list(tr.text)[:3], expected=text[tuple(p)][0][:3])
        used.setdefault(owner[tuple(p)], set()).add(color_of(tr))
    st.add("lines", len(lines))
    if distinct:
        apart(used, "trajectories")
    check_hits(fig, t, x, y, None, k)
    if scale == "trace":
        ranges(fig, *extent(t, k, x, y), "trajectories")
    elif m is not None:
        pts = [p for q in outlines(m, how) for p in q]
        ranges(fig, np.min(pts, axis=0), np.max(pts, axis=0), "map")
    st.outcome((k, x, y, len(lines)))
    return fig


def check_anime(t, ags, x, y, k, st, full=False, prints=None, distinct=True):
    before = snapshot(t)
    fig = P2.simulation_anime(t, x_dim=x, y_dim=y, sample_rate=k, full_trace=full, print_dim_list=prints)
    st.add("figures")
    kept(t, before, "simulation_anime")
    want, owner = {}, {}
    dims = range(np.array(t.root.trace[ags[0]]).shape[1]) if prints is None else prints
    for n in walk(t.root):
        for a, tr in n.trace.items():
            for r in samples(tr, k):
                p = rp((r[x], r[y])) + (tuple("{:.2f}".format(r[d]) for d in dims),)
                want.setdefault(round(r[0], 3), set()).add(p)
                owner[p] = a
    names = [float(f.name) for f in fig.frames]
    need(names == sorted(want), "the animation does not have one frame per time, in order", got=names, expected=sorted(want))
    used = {}
    first = [d for d in fig.data if not is_line(d)]
    need(set(s.label for s in fig.layout.sliders[0].steps) == set(f.name for f in fig.frames), "the slider does not have the times of the frames")
    for name, data in [(0.0, first)] + [(float(f.name), f.data) for f in fig.frames]:
        got = set()
        for d in data:
            if d.text is not None and any("HIT" in str(v) for v in d.text):
                continue
            for p, q, w in zip(d.x, d.y, d.text):
                key = rp((p, q)) + (tuple(shown(w)),)
                got.add(key)
                used.setdefault(owner.get(key), set()).add(d.marker.color)
        need(got == want[round(name, 3)], "a frame does not show exactly the states at its time", time=name, got=sorted(got)[:4], expected=sorted(want[round(name, 3)])[:4])
    st.add("frames", len(names))
    if distinct:
        apart(used, "states")
    if full:
        lines = Counter(tuple(p) for d in fig.data if is_line(d) for p in pieces(d))
        need(lines == Counter(tuple(rp((r[x], r[y])) for r in samples(tr, k)) for n in walk(t.root) for tr in n.trace.values()), "the full traces are not the trajectories", got=list(lines)[:3])
    ranges(fig, *extent(t, k, x, y), "trajectories")


def check_sim3(t, ags, d, k, st, distinct=True):
    before = snapshot(t)
    call = lambda f: P3.simulation_tree_3d(t, **({"fig": f} if f is not None else {}), x_dim=d[0], y_dim=d[1], z_dim=d[2], sample_rate=k)
    fig = call(None)
    kept(t, before, "simulation_tree_3d")
    st.add("figures")
    want = Counter(tuple(rp([r[q] for q in d]) for r in samples(tr, k)) for n in walk(t.root) for tr in n.trace.values())
    owner = {tuple(rp([r[q] for q in d]) for r in samples(tr, k)): a for n in walk(t.root) for a, tr in n.trace.items()}
    L = [(s, tuple(p)) for s in fig.data if isinstance(s, go.Scatter3d) and is_line(s) for p in pieces(s, True)]
    got = Counter(p for _, p in L)
    need(got == want, "a 3D plot of a simulation does not show exactly its trajectories", dims=d, rate=k, **diff(got, want))
    used = {}
    for s, p in L:
        used.setdefault(owner[p], set()).add(color_of(s))
    if distinct:
        apart(used, "trajectories")
    check_hits(fig, t, d[0], d[1], d[2], k)


# ---- tubes ------------------------------------------------------------------------------------------------------
def rects(t, k, x, y, keep=lambda g: True):
    out, owner = set(), {}
    for n in walk(t.root):
        for a, tr in n.trace.items():
            for g in groups(tr, k):
                if keep(g):
                    r = (rp((g[0][x], g[0][y])), rp((g[1][x], g[1][y])))
                    r = (rp(np.minimum(*r)), rp(np.maximum(*r)))
                    out.add(r)
                    owner[r] = a
    return out, owner


def check_rects(lines, want, owner, what, distinct, **kw):
    got, used = set(), {}
    for tr, p in lines:
        r = rect_of(p)
        got.add(r)
        if r[0][0] < r[1][0] and r[0][1] < r[1][1]:
            need(tr.fill not in (None, "none"), "a tube segment is not filled", segment=r)
        if r in owner:
            used.setdefault(owner[r], set()).update(c for c in (color_of(tr), tr.fillcolor) if c is not None)
    need(got == want, f"{what} does not show exactly the segments", **{"only in the figure": sorted(got - want)[:4], "only in the tree": sorted(want - got)[:4]}, **kw)
    if distinct:
        apart(used, "tubes")


def check_reach(t, ags, x, y, k, st, scale="trace", how=None, label="None", distinct=True, default=False):
    m = two_lanes() if how else None
    kw = {} if default else dict(map=m, x_dim=x, y_dim=y, scale_type=scale, label_mode=label, sample_rate=k)
    if how:
        kw["map_type"] = how
    before = snapshot(t)
    call = lambda f: P2.reachtube_tree(t, fig=f, **kw) if f is not None else P2.reachtube_tree(t, **kw)
    fig = call(None)
    st.add("figures", 3)
    with_given(call, fig)
    kept(t, before, "reachtube_tree")
    want, owner = rects(t, k, x, y)
    lines = lines_of(fig, m, how)
    check_rects(lines, want, owner, "a plot of a tube", distinct, rate=k, x=x, y=y)
    st.add("rectangles", len(lines))
    check_hits(fig, t, x, y, None, k, want=label != "None")
    if scale == "trace":
        ranges(fig, *extent(t, k, x, y), "tube")
    elif m is not None:
        pts = [p for q in outlines(m, how) for p in q]
        ranges(fig, np.min(pts, axis=0), np.max(pts, axis=0), "map")
    st.outcome((k, x, y, len(want)))


def check_slice(t, ags, x, y, k, lo, hi, st, distinct=True):
    before = snapshot(t)
    fig = P2.reachtube_tree_slice(t, x_dim=x, y_dim=y, sample_rate=k, t_lower=lo, t_upper=hi)
    st.add("figures")
    kept(t, before, "reachtube_tree_slice")
    want, owner = rects(t, k, x, y, lambda g: (lo is None or g[0][0] >= lo) and (hi is None or g[1][0] <= hi))
    check_rects([(s, p) for s in fig.data if is_line(s) for p in pieces(s)], want, owner, "a slice of a tube", distinct, rate=k, interval=(lo, hi))
    ranges(fig, *extent(t, k, x, y), "tube")


def check_video(t, ags, x, y, k, frames, how, st, distinct=True):
    m = two_lanes() if how else None
    before = snapshot(t)
    kw = dict(map_type=how) if how else {}
    fig = P2.reachtube_tree_video(t, map=m, x_dim=x, y_dim=y, sample_rate=k, output_path=None, max_frame_steps=frames, max_slider_steps=None, **kw)
    st.add("figures")
    kept(t, before, "reachtube_tree_video")
    times = sorted({round(float(g[0][0]), 3) for n in walk(t.root) for tr in n.trace.values() for g in groups(tr, k)})
    names = [float(f.name) for f in fig.frames]
    need(names == (times if frames is None or frames >= len(times) else names), "the video does not have one frame per time, in order", got=names, expected=times)
    need(len(names) == min(frames or len(times), len(times)) and set(names) <= set(times) and names == sorted(names) and names[0] == times[0] and (len(names) == 1 or names[-1] == times[-1]), "the frames of the video do not span the times", got=names, expected=times)
    need([float(s.label) for s in fig.layout.sliders[0].steps] == names, "the slider does not have the times of the frames")
    left = outlines(m, how)
    state = []
    for s in fig.data:
        P = [tuple(p) for p in pieces(s)] if is_line(s) else []
        ismap = P and all(left[p] > 0 for p in P)
        for p in P if ismap else ():
            left[p] -= 1
        state.append(None if ismap or not P else s)
    need(not +left, "the map is not in the video")
    for name, data, tr in [(names[0], None, None)] + [(float(f.name), f.data, f.traces) for f in fig.frames]:
        new = {(tr[i] if tr else i): d for i, d in enumerate(data or ())}
        drawn = []
        for i, s in enumerate(state):
            d = new.get(i)
            vis = d.visible if d is not None and d.visible is not None else s.visible if s is not None else None
            if s is None:
                need(vis is not False, "a frame hides the map")
            elif vis in (None, True):
                q = s if d is None or d.x is None else d
                drawn += [(s, p) for p in pieces(q)]
        want, owner = rects(t, k, x, y, lambda g: round(float(g[0][0]), 3) <= name)
        check_rects(drawn, want, owner, "a frame of the video", distinct, time=name)
    st.add("frames", len(names))
    ranges(fig, *extent(t, k, x, y), "tube")


def boxes_of(fig):
    """Cuboids of the meshes: Counter of (lower corner, upper corner)"""
    out, colors = Counter(), {}
    for s in fig.data:
        if not isinstance(s, go.Mesh3d):
            continue
        V = [rp(p) for p in zip(seq(s.x), seq(s.y), seq(s.z))]
        T = list(zip(seq(s.i), seq(s.j), seq(s.k)))
        par = list(range(len(V)))

        def find(a):
            while par[a] != a:
                a = par[a]
            return a

        for a, b, c in T:
            par[find(a)] = find(b)
            par[find(b)] = find(c)
        comp = {}
        for i in range(len(V)):
            comp.setdefault(find(i), []).append(i)
        for vs in comp.values():
            P = np.array([V[i] for i in vs])
            lo, hi = P.min(axis=0), P.max(axis=0)
            need({tuple(p) for p in P.tolist()} == {tuple(p) for p in itertools.product(*zip(lo.tolist(), hi.tolist()))}, "a tube segment is not drawn as a cuboid", points=P)
            area = 0
            for tri in T:
                if find(tri[0]) == find(vs[0]):
                    q = np.array([V[i] for i in tri])
                    need(any(np.ptp(q[:, d]) < 1e-9 for d in range(3)), "a triangle cuts through a cuboid", triangle=q)
                    area += np.linalg.norm(np.cross(q[1] - q[0], q[2] - q[0])) / 2
            e = hi - lo
            full = 2 * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2])
            need(abs(area - full) < 1e-6 * max(1, full), "the triangles of a tube segment do not cover its surface", area=area, surface=full)
            b = (rp(lo), rp(hi))
            out[b] += 1
            colors.setdefault(b, set()).add(s.color)
    return out, colors


def check_reach3(t, ags, d, k, st, distinct=True):
    before = snapshot(t)
    fig = P3.reachtube_tree_3d(t, x_dim=d[0], y_dim=d[1], z_dim=d[2], sample_rate=k)
    st.add("figures")
    kept(t, before, "reachtube_tree_3d")
    want, owner = Counter(), {}
    for n in walk(t.root):
        for a, tr in n.trace.items():
            for g in groups(tr, k):
                c = np.array([[r[q] for q in d] for r in g])
                b = (rp(c.min(axis=0)), rp(c.max(axis=0)))
                want[b] += 1
                owner[b] = a
    got, colors = boxes_of(fig)
    need(got == want, "a 3D plot of a tube does not show exactly the segments", dims=d, rate=k, **diff(got, want))
    used = {}
    for b, c in colors.items():
        used.setdefault(owner[b], set()).update(c)
    if distinct:
        apart(used, "tubes")
    check_hits(fig, t, d[0], d[1], d[2], k)
    st.add("cuboids", sum(got.values()))


# ---- groups -----------------------------------------------------------------------------------------------------
def forms():
    """small trees without the values"""
    for s in SHAPES:
        for a, b in itertools.product((1, 2, 3, 5), (1, 2, 4)):
            if s == "one" and b > 1:
                continue
            for v in range(len(VALUES)):
                for g in range(len(AGENTS)):
                    for h in range(len(HITS)):
                        yield (s, a, b, v, g, h)


def sim_cases():
    return [f + (draw((f, 0), 6), draw((f, 1), 3), draw((f, 2), len(SCALES)), draw((f, 3), 3), draw((f, 4), 2), bool(draw((f, 5), 2))) for f in forms() if THOROUGH or pick(f, 8)]


PRINTS = (None, [1], [2, 0])


def sim(case, st):
    s, a, b, v, g, h, d, r, sc, pr, lab, meet = case
    ags, k = AGENTS[g], RATES[r]
    t = tree("sim", s, a, b, v, ags, HITS[h], meet)
    x, y = DIMS[d]
    scale, how = SCALES[sc]
    with quiet():
        check_sim(t, ags, x, y, k, st, scale, how, ("None", "all")[lab], PRINTS[pr])
        check_anime(t, ags, x, y, k, st, full=bool(lab), prints=PRINTS[pr])
        check_sim3(t, ags, ((1, 2, 3), (3, 1, 2), (2, 3, 0))[pr], k, st)


def reach_cases():
    return [f + (draw((f, 0), 6), draw((f, 1), 3), draw((f, 2), len(SCALES)), draw((f, 3), 3), draw((f, 4), 2), bool(draw((f, 5), 2))) for f in forms() if THOROUGH or pick((f, "r"), 7)]


CUTS = (None, 0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 1.0, 1.3)


def reach(case, st):
    s, a, b, v, g, h, d, r, sc, pr, lab, meet = case
    ags, k = AGENTS[g], RATES[r]
    t = tree("reach", s, a, b, v, ags, HITS[h], meet)
    x, y = DIMS[d]
    scale, how = SCALES[sc]
    with quiet():
        check_reach(t, ags, x, y, k, st, scale, how, ("None", "all")[lab])
        check_video(t, ags, x, y, k, (None, 2, 3)[pr], how, st)
        check_reach3(t, ags, ((1, 2, 3), (3, 1, 2), (2, 3, 0))[pr], k, st)
        for j in range(3):
            lo, hi = CUTS[draw((case, j), len(CUTS))], CUTS[draw((case, j, 1), len(CUTS))]
            check_slice(t, ags, x, y, k, lo, hi, st)


def result_cases():
    return [c for c in c13.result_cases() if c[0] != "disc" and c[-1] > 1 and (THOROUGH or pick((c, "plot"), 4))]


def result(case, st):
    """trees from simulating and verifying programs"""
    kind, progs, rates, boxes, tk, o, mh = case
    T, dt = c13.TIMES[tk]
    t = c13.execute(c13.build(progs, rates, boxes, c13.OPTS[o]), kind, T, dt, mh)
    if not t.root.trace:
        return
    ags = sorted(t.root.agent)
    k = 1 + draw(case, 3)
    x, y = DIMS[:3][draw((case, 1), 3)]
    with quiet():
        if kind == "sim":
            check_sim(t, ags, x, y, k, st, distinct=False, label=("None", "all")[draw((case, 2), 2)])
            check_anime(t, ags, x, y, k, st, distinct=False)
            check_sim3(t, ags, (1, 2, 0), k, st, distinct=False)
        else:
            check_reach(t, ags, x, y, k, st, distinct=False, label=("None", "all")[draw((case, 2), 2)])
            check_video(t, ags, x, y, k, None, None, st, distinct=False)
            check_reach3(t, ags, (1, 2, 0), k, st, distinct=False)
            check_slice(t, ags, x, y, k, 0.4 * T + dt * 0.013, 0.85 * T, st, distinct=False)


# ---- mode labels ------------------------------------------------------------------------------------------------
def label_cases():
    return [(kind, s, a, b, v, g, d) for kind in TYPES for s in ("one", "child", "chain", "last") for a in (1, 3) for b in (1, 2) for v in (0, 2) for g in range(3) for d in range(3)]


SHORT = {"Normal": "N", "Brake": "B"}


def label(case, st):
    """Along a path, a label stands at the first state of every node in which the agent's mode is another than before."""
    kind, s, a, b, v, g, d = case
    ags = AGENTS[g]
    x, y = DIMS[d]
    t = tree(kind, s, a, b, v, ags, ())
    f = P2.simulation_tree if kind == "sim" else P2.reachtube_tree
    st.add("figures", 2)
    with quiet():
        plain, fig = f(t, x_dim=x, y_dim=y), f(t, x_dim=x, y_dim=y, label_mode="all")
    count = lambda F: Counter((rp((m.x[0], m.y[0])), m.text if isinstance(m.text, str) else tuple(m.text)) for m in F.data if isinstance(m, go.Scatter) and not is_line(m))
    need(not count(plain), "labels are shown though none are asked for", got=count(plain))
    want = Counter()
    prev = {}
    for n in walk(t.root):
        for ag in ags if n.trace else ():
            if prev.get(ag) != n.mode[ag]:
                m = n.mode[ag][0]
                r = n.trace[ag][0]
                want[(rp((r[x], r[y])), f"{ag}: {SHORT.get(m, m)}")] += 1
            prev[ag] = n.mode[ag]
    got = count(fig)
    need(got == want, "the labels are not those of the mode changes", **diff(got, want))
    st.add("labels", len(want))


# ---- maps -------------------------------------------------------------------------------------------------------
LIMITS = [(None, None), (10.0, None), (None, 30.0), (5.0, 25.0), (30.0, 10.0), (20.0, 20.0)]
CHAINS = [(s,) for s in range(len(c09.SEGS))] + [(0, 4), (5, 1), (6, 7), (2, 8), (9, 3), (4, 0, 5)]


def map_cases():
    return [(i, j, p, w, l, how) for i in range(len(CHAINS)) for j in range(len(CHAINS)) for p in range(4) for w in range(2) for l in range(len(LIMITS)) for how in ("lines", "fill", "detailed") if pick((i, j, p, w, l, how), 3 if THOROUGH else 16)]


def on_arc(r, w, poly, st):
    """A polygon that is the outline of an arc: both borders, sampled densely, between its phases"""
    P = [complex(*p) for p in poly]
    area = abs(0.5 * sum((a.conjugate() * b).imag for a, b in zip(P, P[1:] + P[:1])))
    if abs(area - abs(r.ang) * r.size * w) > 0.01 * abs(r.ang) * r.size * w:
        return False
    for side in (-1, 1):
        R = r.size + side * w / 2
        on = sorted(r.local(p)[0] / r.size for p in P if abs(abs(p - r.c) - R) < 1e-5)
        if not on or abs(on[0]) > 1e-5 or abs(on[-1] - abs(r.ang)) > 1e-5 or max(b - a for a, b in zip(on, on[1:])) > 0.2:
            return False
    return all(min(abs(abs(p - r.c) - r.size - q * w / 2) for q in (-1, 1)) < 1e-5 for p in P)


def on_straight(r, w, poly, st):
    P = [complex(*p) for p in poly]
    cs = [r.point(s, d) for s in (0, r.len) for d in (-w / 2, w / 2)]
    area = abs(0.5 * sum((a.conjugate() * b).imag for a, b in zip(P, P[1:] + P[:1])))
    return abs(area - r.len * w) < 1e-4 and all(min(abs(c - p) for p in P) < 1e-5 for c in cs) and all(abs(r.local(p)[1]) < w / 2 + 1e-5 and -1e-5 < r.local(p)[0] < r.len + 1e-5 for p in P)


def map_(case, st):
    """Outline and filling of every lane segment"""
    i, j, p, w, l, how = case
    w = c09.WIDTHS[w]
    refs, lanes = [], []
    for q, (ch, lim) in enumerate(zip((CHAINS[i], CHAINS[j]), LIMITS[l])):
        px, py, th = c09.POSES[p]
        z, out = complex(px, py + 60 * q), []
        for n, s in enumerate(ch):
            r = c09.Ref(c09.SEGS[s], z, th)
            out.append(r.real(f"S{q}{n}", w))
            refs.append((r, q, lim))
            z, th = r.end()
        lanes.append(Lane(f"T{q}", out, speed_limit=lim))
    m = LaneMap()
    m.add_lanes(lanes)
    with quiet():
        fig = P2.draw_map(map=m, fill_type=how)
    st.add("figures")
    tr = [(s, q) for s in fig.data if is_line(s) for q in pieces(s)]
    need(len(tr) == len(refs), "not every lane segment is drawn once", drawn=len(tr), segments=len(refs))
    col = {}
    for r, q, lim in refs:
        found = [s for s, poly in tr if (on_arc if r.kind == "a" else on_straight)(r, w, poly, st)]
        need(found, "the outline of a lane segment is not drawn", segment=(r.kind, r.size, math.degrees(r.ang)), lane=q, width=w)
        filled = found[0].fill not in (None, "none")
        need(filled == (how == "fill" or how == "detailed" and lim is not None), "lanes are not filled as documented", map_type=how, limit=lim, filled=filled)
        if how == "detailed" and lim is not None:
            col.setdefault(lim, set()).add(found[0].fillcolor)
        st.add("segments")
    need(all(len(c) == 1 for c in col.values()) and len(set().union(*col.values()) if col else ()) == len(col), "the colour of a lane is not that of its speed limit", colours=col)
    pts = [q for _, poly in tr for q in poly]
    ranges(fig, np.min(pts, axis=0), np.max(pts, axis=0), "map")
    st.outcome(case)


# ---- stars ------------------------------------------------------------------------------------------------------
def star_cases():
    return [(s, a, b, g, f, d) for s in SHAPES for a in (1, 3) for b in (1, 4) for g in range(3) for f in (1, 2, 3, None) for d in ((0, 1), (1, 0), (0, 2)) if pick((s, a, b, g, f, d), 2 if THOROUGH else 24)]


def star(case, st):
    """every n-th star of each tube, drawn as its projection"""
    from verse.stars.starset import StarSet
    import matplotlib.pyplot as plt

    s, a, b, g, f, d = case
    ags = AGENTS[g]
    t = tree("sim", s, a, b, 0, ags, ())
    C, G = np.vstack([np.eye(3), -np.eye(3)]), np.ones(6)
    B = np.array([[0.5, 0.1, 0.0], [0.0, 0.4, 0.2], [0.3, 0.0, 0.6]])
    want = Counter()
    for n in walk(t.root):
        n.type = REACH
        for q, tr in n.trace.items():
            n.trace[q] = [[r[0], StarSet(np.array(r[1:4]), B * (1 + i), C, G)] for i, r in enumerate(np.array(tr))]
            for i in range(0, len(tr), f or 100):
                r, e = np.array(n.trace[q][i][1].center), np.abs(B).sum(axis=0) * (1 + i)
                want[(q, tuple(round(float(v), 5) for v in (r[d[0]] - e[d[0]], r[d[1]] - e[d[1]], r[d[0]] + e[d[0]], r[d[1]] + e[d[1]])))] += 1
    before = [(id(n), id(n.trace), {q: [(x[0], id(x[1])) for x in tr] for q, tr in n.trace.items()}) for n in walk(t.root)]
    calls = []
    old = plt.plot, plt.show, plt.fill
    plt.plot = plt.fill = lambda *a_, **k_: calls.append((a_, k_))
    plt.show = lambda *a_, **k_: None
    try:
        with quiet():
            PS.plot_reachtube_stars(t, x_dim=d[0], y_dim=d[1], **({"filter": f} if f else {}))
    finally:
        plt.plot, plt.show, plt.fill = old
    need(before == [(id(n), id(n.trace), {q: [(x[0], id(x[1])) for x in tr] for q, tr in n.trace.items()}) for n in walk(t.root)], "plotting stars changes the tree")
    st.add("figures")
    got, used = Counter(), {}
    names = {v[1]: v[0] for v in want}
    for a_, k_ in calls:
        x, y = (np.array(v, dtype=float).ravel() for v in a_[:2])
        e = tuple(round(float(v), 5) for v in (x.min(), y.min(), x.max(), y.max()))
        got[e] += 1
        used.setdefault(names.get(e), set()).add(k_.get("color"))
    want = Counter({v[1]: c for v, c in want.items()})
    need(got == want, "a plot of stars does not show exactly the stars", **diff(got, want))
    apart(used, "stars")
    st.add("stars", len(calls))
    st.outcome(case)


CASES = {"sim": sim, "reach": reach, "result": result, "label": label, "map": map_, "star": star}


def main():
    ck = core.Check("C20")
    ck.bounds = {
        "sim": f"{len(SHAPES)} shapes of trees x lengths 1-5 x {len(VALUES)} value patterns x 1-3 agents x {len(HITS)} placements of hits (quick: an eighth) x drawn dimensions, sample rates 1-3, scales and maps, labels, printed dimensions; simulation_tree, simulation_anime, simulation_tree_3d",
        "reach": "the same with segments; reachtube_tree, reachtube_tree_video, reachtube_tree_3d, three slices each",
        "result": "trees from the programs of C13, simulated and verified",
        "label": "labels of mode changes along paths",
        "map": f"pairs of lanes out of {len(CHAINS)} chains of segments x 4 poses x 2 widths x {len(LIMITS)} speed limits x 3 map types (quick: 1/16)",
        "star": "star tubes over the same shapes x every n-th star x projections",
    }
    ck.assumptions = [
        "combine_rect other than 1, reachtube_anime, the trail mode of simulation_anime, and export to gif/mp4/html are not covered",
        "up to three agents (colours repeat after seven)",
        "labels of mode changes are judged along paths without branches only",
    ]
    ck.explore("sim", sim, sim_cases())
    ck.explore("reach", reach, reach_cases())
    ck.explore("result", result, result_cases())
    ck.explore("label", label, label_cases())
    ck.explore("map", map_, map_cases())
    ck.explore("star", star, star_cases())
    c = ck.stats.c
    return ck.finish(c.get("figures", 0), sum(c.get(k, 0) for k in ("lines", "rectangles", "cuboids", "frames", "segments", "stars", "labels")), c.get("cases", 0))
