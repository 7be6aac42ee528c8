"""C21: 3D lanes are tubes around their center curves, and the relations of 3D maps are the geometric ones.

Segments (straight, arcs given by center and phases, arcs given by end points) in all directions of a set, with points
all around and along them; lanes made of connected segments; maps: pairings, tables, way points. References are written
with rotations (Rodrigues), not with the frames of the code.
"""
import itertools, json, math
from enum import Enum, auto
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick, quiet
from verse.map import lane_segment_3d as L3
from verse.utils.utils import class_from_path
from verse.map.lane_segment_3d import StraightLane_3d, CircularLane_3d_v1, CircularLane_3d_v2
from verse.map.lane_3d import Lane_3d
from verse.map.lane_map_3d import LaneMap_3d
from verse.map.example_map import map_tacas, simple_map_3d
from verse.plotter import plotter3D_new as P3

PI = math.pi
TOL = 2e-4  # relative to 1 + the size of the lane


def need(cond, msg, **kw):
    if not cond:
        raise Violation(msg, **kw)


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def rot(v, n, t):
    """v turned about n by t (right hand)"""
    n = unit(n)
    v = np.asarray(v, dtype=float)
    return v * math.cos(t) + np.cross(n, v) * math.sin(t) + n * np.dot(n, v) * (1 - math.cos(t))


def level(n):
    """The horizontal direction to the right of n, if n is not vertical"""
    return unit([n[1], -n[0], 0]) if math.hypot(n[0], n[1]) > 1e-6 * abs(n[2]) else None


def near(a, b, tol):
    return float(np.max(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)))) <= tol


def turn(a, b):
    """difference of two angles"""
    return abs((a - b + PI) % (2 * PI) - PI)


DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(3, -4, 12), (0.2, 0.1, -5), (-7, 0.5, 0.01), (1, 6e-17, 0), (6e-17, -1, 0), (1e-16, -2e-16, 1), (1, 2, -1e-16)]
STARTS = [(0, 0, 0), (3, -7, 2.5)]
THETAS = [0, PI / 2, PI, 1.5 * PI, 0.3, 2.0, 4.0, 5.9]
FRACS = [0, 0.04, 0.31, 0.5, 0.77, 0.97]


# ---- segments ---------------------------------------------------------------------------------------------------
def check_tube(seg, curve, tangent, length, radius, st, what, around=0):
    """position and local_coordinates of a segment against its center curve (as a function of the arc length)"""
    tol = TOL * (1 + length)
    need(abs(seg.length - length) <= tol, f"{what}: wrong length", got=seg.length, expected=length)
    rs = [0, 0.4 * min(radius, 10), 0.9 * min(radius, 10)]
    for f in FRACS:
        l = f * length
        c, d = curve(l), unit(tangent(l))
        got = seg.position(l, 0, 0)
        need(near(got, c, tol), f"{what}: the center is not on the center curve", l=l, got=got, expected=c)
        need(near(unit(seg.get_tang(l)), d, TOL), f"{what}: wrong direction of travel", l=l, got=seg.get_tang(l), expected=d)
        for r in rs:
            base = None
            for th in THETAS:
                p = np.array(seg.position(l, r, th), dtype=float)
                o = p - c
                need(abs(np.linalg.norm(o) - r) <= tol and abs(np.dot(o, d)) <= tol, f"{what}: a position is not at its distance from the center, across the lane", l=l, r=r, theta=th, got=p, center=c)
                if r:
                    if base is None:
                        base = level(d)
                        if base is None:
                            base = o / r
                        need(near(o, r * base, tol), f"{what}: angle 0 is not to the right of the lane", l=l, r=r, got=p, expected=c + r * base)
                    q = c + r * rot(base, d, th)
                    need(near(p, q, tol), f"{what}: a position is not at its angle around the lane", l=l, r=r, theta=th, got=p, expected=q)
                gl, gr, gt = seg.local_coordinates(p)
                if around and f == 0 and abs(gl - around) <= tol:
                    gl -= around  # the start of a circle, or, where phases are counted backwards, of an arc, up to rounding
                need(abs(gl - l) <= tol and abs(gr - r) <= tol and (r == 0 or turn(gt, th) * r <= tol), f"{what}: local coordinates are not those of the position", l=l, r=r, theta=th, got=(gl, gr, gt))
                st.add("points")
    # drawing
    oc, x, y, z = seg.get_lane_center(9)
    ts = np.linspace(0, length, 9)
    want = np.array([curve(t) for t in ts])
    pts = np.stack([x, y, z], axis=1)
    need(near(pts, oc, 1e-9) and (near(pts, want, tol) or near(pts[::-1], want, tol)), f"{what}: the center line drawn is not the center curve", got=pts[:3], expected=want[:3])
    X, Y, Z = seg.get_sample_points(7, 5)
    pts = np.stack([np.ravel(X), np.ravel(Y), np.ravel(Z)], axis=1)
    cs = np.array([curve(t) for t in np.linspace(0, length, 5)])
    for p in pts:
        dist = np.linalg.norm(cs - p, axis=1)
        k = [i for i in range(5) if abs(dist[i] - seg.width) <= tol and abs(np.dot(p - cs[i], unit(tangent(length * i / 4)))) <= tol]
        need(k, f"{what}: a point drawn of the tube is not at its width from the center", got=p)


def straight(case, st):
    d, s, length, w = case
    d, s = unit(d), np.array(s, dtype=float)
    seg = StraightLane_3d("s", s.tolist() if draw(case, 2) else s, (s + d * length).tolist(), w)
    check_tube(seg, lambda l: s + l * d, lambda l: d, length, 100, st, "straight lane")
    need(abs(seg.altitude() - (s[2] + length * d[2] / 2)) < 1e-6, "altitude is not the mean of the ends", got=seg.altitude())
    need(seg.width_at(1) == w, "wrong width")
    st.add("cases_s")


PHASES = [(0, PI / 2), (0, 1.5 * PI), (1, 2), (PI, PI / 2), (5.5, 0.7), (0, 2 * PI), (0.4, 6.0), (-1, 1), (3, 2.9)]
RADII = [0.8, 6, 20]


def arc_length(p, q):
    """from phase p to q with the phases growing"""
    return q - p if q > p else q - p + 2 * PI


def arc1(case, st):
    n, c, R, (p, q), right, w, scale = case
    c, u = np.array(c, dtype=float), unit(n)
    if right is False:
        p, q = q, p
    seg = CircularLane_3d_v1("c", c.tolist(), R, (u * scale).tolist() if draw(case, 2) else u * scale, p, q, right, w)
    base = level(u)
    if base is None:
        base = np.array([1.0, 0, 0])
    # phases are counted in the direction of travel (right) or against it
    a0, ang = (p, arc_length(p, q)) if right else (-p, arc_length(q, p))
    curve = lambda l: c + R * rot(base, u, a0 + l / R)
    tangent = lambda l: np.cross(u, curve(l) - c)
    check_tube(seg, curve, tangent, R * ang, R, st, "arc", 0 if right and ang < 2 * PI - 1e-6 else 2 * PI * R)
    s, ts, e, te = seg.get_start_end_tang()
    tol = TOL * (1 + R * ang)
    need(near(s, curve(0), tol) and near(e, curve(R * ang), tol) and near(unit(ts), unit(tangent(0)), TOL) and near(unit(te), unit(tangent(R * ang)), TOL), "arc: wrong ends", got=(s, ts, e, te))
    need(abs(seg.altitude() - (s[2] + e[2]) / 2) < 1e-6, "arc: altitude is not the mean of the ends")


DELTAS = [0.3, PI / 2, 2, PI, 3.6, 1.5 * PI, 5.9]


def arc2(case, st):
    n, c, R, p, delta, right, w, scale = case
    c, u = np.array(c, dtype=float), unit(n)
    base = level(u)
    if base is None:
        base = np.array([1.0, 0, 0])
    curve = lambda l: c + R * rot(base, u, p + l / R)
    s, e = curve(0), curve(R * delta)
    arg = (lambda v: v.tolist()) if draw(case, 2) else (lambda v: v)
    seg = CircularLane_3d_v2("c", arg(s), arg(e), u * scale, delta, right, w)
    check_tube(seg, curve, lambda l: np.cross(u, curve(l) - c), R * delta, R, st, "arc between points", 0 if right else 2 * PI * R)


def straight_cases():
    return [(d, s, length, w) for d in DIRS for s in STARTS for length in (1.5, 30, 200) for w in (0.3, 4)]


def arc1_cases():
    out = [(n, c, R, ph, right, w, k) for n in DIRS for c in STARTS for R in RADII for ph in PHASES for right in (True, False) for w in (0.5,) for k in (1, 3)]
    return [c for c in out if THOROUGH or pick(c, 6)]


def arc2_cases():
    out = [(n, c, R, p, dl, right, 0.5, k) for n in DIRS for c in STARTS for R in RADII for p in (0, 1, PI / 2, 4.4) for dl in DELTAS for right in (True, False) for k in (1, 0.5)]
    return [c for c in out if THOROUGH or pick(c, 12)]


# ---- lanes of several segments ----------------------------------------------------------------------------------
def near_lane(case, st):
    """on the lane, reachable, past its end, distance: of points on it, beside it, before and behind it; and its configuration"""
    kind, n, R, (p, q), w, forbidden = case
    u, c = unit(n), np.array([1.0, -2.0, 4.0])
    V = 5  # the length of a vehicle
    if kind == "straight":
        L = R
        seg = StraightLane_3d("s", c, c + u * L, w, forbidden=forbidden)
        curve, tangent = (lambda l: c + u * l), (lambda l: u)
        ls = (-7.5, -4.5, -1.0, 0.0, 0.25 * L, 0.6 * L, L - 3.0, L - 2.0, L, L + 4.5, L + 6.0)
    else:
        base = level(u)
        if base is None:
            base = np.array([1.0, 0, 0])
        L = R * arc_length(p, q)
        right = bool(draw(case, 2))
        curve = lambda l: c + R * rot(base, u, p + l / R)
        tangent = lambda l: np.cross(u, curve(l) - c)
        if kind == "arc":
            seg = CircularLane_3d_v1("s", c, R, u, *((p, q, True) if right else (-p, -q, False)), w, forbidden=forbidden)
        else:
            seg = CircularLane_3d_v2("s", curve(0), curve(L), u, arc_length(p, q), right, w, forbidden=forbidden)
        ls = (0.1 * L, 0.25 * L, 0.6 * L, 0.9 * L)  # positions beyond the ends of an arc are not told apart
    for l, f in itertools.product(ls, (0.0, 0.3, 0.45, 0.55, 0.8, 1.9, 2.1)):
        r = f * w
        if kind != "straight" and r > 0.9 * R:
            continue
        side = level(tangent(l))
        if side is None:
            side = unit(np.cross(tangent(l), [0.3, 0.7, 0.1]))
        P = curve(l) + r * rot(side, tangent(l), (0.3, 2.0, 4.0)[draw((case, l, f), 3)])
        away = r + max(0, l - L, -l)
        for k, fn, a, e in (
            ("on_lane", seg.on_lane, (), r <= w / 2 and -V <= l < L + V),
            ("on_lane, margin", seg.on_lane, (None, None, 0.1 * w), r <= 0.6 * w and -V <= l < L + V),
            ("on_lane, coordinates given", seg.on_lane, (l, r), r <= w / 2 and -V <= l < L + V),
            ("is_reachable_from", seg.is_reachable_from, (), not forbidden and r <= 2 * w and 0 <= l < L + V),
            ("after_end", seg.after_end, (), l > L - V / 2),
            ("distance", seg.distance, (), away),
            ("distance_with_heading, none", seg.distance_with_heading, (None,), away),
        ):
            if k == "is_reachable_from" and (abs(l) < 1e-3):
                continue
            got = fn(P, *a)
            need((bool(got) == e) if isinstance(e, bool) else abs(got - e) < TOL * (1 + L), f"{kind}: {k} is wrong", l=l, r=r, length=L, width=w, got=float(got), expected=float(e))
            st.add("points")
            st.outcome((k, bool(e)))
    need(seg.width_at(0) == w, "wrong width")
    # written down and read back, it is the same lane
    conf = json.loads(json.dumps(seg.to_config()))
    for again in (class_from_path(conf["class_path"]).from_config(dict(conf["config"])),):
        for v in ("id", "width", "forbidden", "speed_limit", "priority", "line_types", "type"):
            need(getattr(again, v) == getattr(seg, v), f"{kind}: read back from its configuration, a lane has another {v}", got=getattr(again, v), expected=getattr(seg, v))
        need(abs(again.length - seg.length) < 1e-6 * (1 + L), f"{kind}: read back from its configuration, a lane has another length", got=again.length, expected=seg.length)
        for l, r, th in itertools.product((0, 0.3 * L, L), (0, 0.4), (0.5, 3)):
            need(near(again.position(l, r, th), seg.position(l, r, th), 1e-6 * (1 + L)), f"{kind}: read back from its configuration, a lane is elsewhere", at=(l, r, th))


def near_cases():
    out = [("straight", n, L, (0, 0), w, fb) for n in DIRS for L in (4.0, 30.0) for w in (2, 3.5) for fb in (False, True)]
    out += [(k, n, R, ph, w, fb) for k in ("arc", "arc between points") for n in DIRS for R in (6, 20) for ph in PHASES if arc_length(*ph) < 6.2 for w in (2, 3.5) for fb in (False, True) if THOROUGH or pick((k, n, R, ph, w, fb), 6)]
    return out


class Curve:
    """reference of one segment"""

    def __init__(self, kind, start, tang, *a):
        self.kind, self.s, self.t = kind, np.array(start, dtype=float), unit(tang)
        if kind == "s":
            (self.length,) = a
        else:
            self.n, self.R, self.ang = unit(a[0]), a[1], a[2]
            # center to the left of the direction of travel, seen along n
            self.c = self.s + self.R * np.cross(self.n, self.t)
            self.length = self.R * self.ang

    def at(self, l):
        return self.s + l * self.t if self.kind == "s" else self.c + rot(self.s - self.c, self.n, l / self.R)

    def tang(self, l):
        return self.t if self.kind == "s" else rot(self.t, self.n, l / self.R)

    def local(self, p):
        """(l, r); l of an arc in [-(2 pi - ang) R, ang R]"""
        if self.kind == "s":
            l = float(np.dot(p - self.s, self.t))
            return l, float(np.linalg.norm(p - self.at(l)))
        v = p - self.c
        h = v - np.dot(v, self.n) * self.n
        u = unit(self.s - self.c)
        ph = math.atan2(float(np.dot(np.cross(self.n, u), h)), float(np.dot(u, h))) % (2 * PI)
        if ph > self.ang:
            ph -= 2 * PI
        return ph * self.R, float(np.linalg.norm(p - self.at(ph * self.R)))

    def real(self, name, w, k):
        if self.kind == "s":
            return StraightLane_3d(name, self.s.tolist(), self.at(self.length).tolist(), w)
        if k:
            return CircularLane_3d_v2(name, self.s.tolist(), self.at(self.length).tolist(), self.n * 2, self.ang, True, w)
        base = level(self.n)
        if base is None:
            base = np.array([1.0, 0, 0])
        u = unit(self.s - self.c)
        p = math.atan2(float(np.dot(np.cross(self.n, base), u)), float(np.dot(base, u))) % (2 * PI)
        return CircularLane_3d_v1(name, self.c.tolist(), self.R, self.n, p, p + self.ang, True, w)


# (s, length) or (a, axis relative to the direction of travel as an angle, radius, angle)
PIECES = [("s", 12.0), ("s", 40.0), ("a", 0.0, 9.0, PI / 2), ("a", PI / 2, 15.0, 1.0), ("a", PI, 12.0, 2.2), ("a", 4.0, 25.0, 0.6), ("a", 0.7, 8.0, 1.4 * PI)]
POSES = [((0, 0, 0), (1, 0, 0)), ((5, -3, 8), (-2, 1, 0.5)), ((-4, 2, 1), (0, 0, 1))]


def chain(pieces, pose):
    s, t = (np.array(v, dtype=float) for v in pose)
    out = []
    for p in pieces:
        if p[0] == "s":
            c = Curve("s", s, t, p[1])
        else:
            side = level(t)
            if side is None:
                side = np.array([1.0, 0, 0])
            c = Curve("a", s, t, rot(np.cross(side, unit(t)), t, p[1]), p[2], p[3])
        out.append(c)
        s, t = c.at(c.length), c.tang(c.length)
    return out


COMP = 1  # positions up to this far before a segment are on it


def lane(case, st):
    ids, pose, k, w = case
    ref = chain([PIECES[i] for i in ids], POSES[pose])
    ln = Lane_3d("T1", [c.real(f"g{i}", w, (i + k) % 2) for i, c in enumerate(ref)])
    m = LaneMap_3d()
    m.add_lanes([Lane_3d("T0", [StraightLane_3d("z", [900, 900, 900], [901, 900, 900], 7)]), ln])
    need(m.get_lane_width("T1") == w, "wrong width of the lane")
    before = np.cumsum([0] + [c.length for c in ref])
    total = 1 + before[-1]
    alt = np.mean([(c.at(0)[2] + c.at(c.length)[2]) / 2 for c in ref])
    need(abs(m.altitude("T1") - alt) < TOL * total, "the altitude of a lane is not the mean of its segments", got=m.altitude("T1"), expected=alt)
    for i, c in enumerate(ref):
        for f in (0.02, 0.3, 0.5, 0.71, 0.98):
            for r in (0.0, 0.9, 2.6):
                for th in (0.2, 1.8, 3.3, 5.0):
                    if r == 0 and th != 0.2:
                        continue
                    l0 = f * c.length
                    d = c.tang(l0)
                    side = level(d)
                    if side is None:
                        side = unit(np.cross(d, [0.3, 0.7, 0.1]))
                    p = c.at(l0) + r * rot(side, d, th)
                    loc = [q.local(p) for q in ref]
                    if any(abs(l + COMP) < 1e-3 or abs(l - q.length) < 1e-3 for (l, _), q in zip(loc, ref)):
                        continue
                    on = [j for j, ((l, _), q) in enumerate(zip(loc, ref)) if -COMP <= l < q.length]
                    best = sorted(loc[j][1] for j in on)
                    if len(best) > 1 and best[1] - best[0] < 1e-3:
                        continue
                    j = min(on, key=lambda j: loc[j][1])
                    idx, seg, poss = ln.get_lane_segment(np.array(p))
                    need(idx == j and seg is ln.segment_list[j] and [ln.segment_list.index(s) for s in poss] == on, "not the nearest of the segments that contain a position", position=p, got=(idx, [ln.segment_list.index(s) for s in poss]), expected=(j, on), local=loc)
                    need(m.get_lane_segment("T1", list(p))[0] is seg, "the map finds another segment than the lane")
                    tol = TOL * total
                    got = m.get_longitudinal_position("T1", p if draw((case, f, th), 2) else list(p))
                    need(abs(got - before[j] - loc[j][0]) <= tol, "wrong longitudinal position", got=got, expected=before[j] + loc[j][0])
                    got = m.get_lateral_distance("T1", list(p))
                    need(abs(got - loc[j][1]) <= tol, "wrong lateral distance", got=got, expected=loc[j][1])
                    gl, gr, gt = m.get_l_r_theta("T1", list(p))
                    need(abs(gl - loc[j][0]) <= tol and abs(gr - loc[j][1]) <= tol, "wrong coordinates", got=(gl, gr), expected=loc[j])
                    need(turn(gt, m.get_theta_angle("T1", list(p))) < 1e-9, "two angles of one position")
                    if gr > 1e-2:
                        need(near(seg.position(gl, gr, gt), p, tol), "the coordinates are not those of the position", got=(gl, gr, gt), position=p)
                    st.add("points")
    st.outcome(len(ref))


def lane_cases():
    out = [(ids, pose, k, w) for n in (1, 2, 3) for ids in itertools.product(range(len(PIECES)), repeat=n) for pose in range(len(POSES)) for k in (0, 1) for w in (2, 0.5)]
    return [c for c in out if THOROUGH or pick(c, 8 if len(c[0]) == 3 else 2)]


# ---- way points -------------------------------------------------------------------------------------------------
RATE = 0.7


def expect(ref, j, l, r, th, est, d0):
    """Way point from (l, r, th) on segment j: (segment, l, r) where the agent heads"""
    if est * RATE >= r:
        return j, l + math.sqrt(est**2 - r**2), 0.0
    return j, l + est * math.sqrt(1 - RATE**2), r - RATE * est


def waypoints(case, st):
    """Two agents follow their way points in turns; each passes the segments in order and never leaves the tube."""
    ids, pose, k, (fl, r, th), (T, v), order = case
    ref = chain([PIECES[i] for i in ids], POSES[pose])
    ln = Lane_3d("T1", [c.real(f"g{i}", 4, (i + k) % 2) for i, c in enumerate(ref)])
    m = LaneMap_3d([ln])
    est = T * v
    state = {}
    for a, (f0, r0, t0) in (("x", (fl, r, th)), ("y", (0.5, 0.6, 2.0))):
        l = f0 * ref[0].length
        p = ln.segment_list[0].position(l, r0, t0)
        state[a] = [0, l, r0, t0, np.array(p), None, []]
    for step, a in enumerate(order):
        j, l, r0, t0, p, _, way = state[a]
        if j is None:
            continue
        c, seg = ref[j], ln.segment_list[j]
        loc = [q.local(p) for q in ref]
        # where segments overlap, the first call takes the nearest one
        if not way:
            on = [i for i, ((x, _), q) in enumerate(zip(loc, ref)) if -COMP - 1e-3 <= x < q.length + 1e-3]
            if on != [0]:
                state[a][0] = None
                continue
        nj, nl, nr = expect(ref, j, l, r0, t0, est, None)
        # judged: it stays on this segment, or overshoots to where only the next one is
        stay = nl <= c.length
        if abs(nl - c.length) < 1e-2 or (not stay and j + 1 == len(ref)):
            state[a][0] = None
            continue
        if not stay:
            loc = [q.local(np.array(seg.position(nl, nr, t0))) for q in ref]
            if any(abs(x + COMP) < 1e-2 or abs(x - q.length) < 1e-2 for (x, _), q in zip(loc, ref)) or [i for i, ((x, _), q) in enumerate(zip(loc, ref)) if -COMP <= x < q.length] != [j + 1]:
                state[a][0] = None
                continue
        vel = c.tang(l)
        w = m.get_next_point("T1", a, np.concatenate([p, [9.0, 9.0, 9.0]]) if (step + len(way)) % 2 or not way else None, vel * v, (T, v))
        way.append(list(w))
        tol = 3 * TOL * (1 + sum(q.length for q in ref))
        need(len(w) == 6 and near(w[:3], p, tol), "a way point does not start where the agent is", got=w, expected=p)
        need([list(q) for q in m.get_curr_waypoint(a)] == way, "the way points of an agent are not those it got", agent=a)
        end = np.array(w[3:])
        if stay:
            want = np.array(seg.position(nl, nr, t0))
            need(near(end, want, tol), "a way point does not lead along the lane and to its center", agent=a, got=end, expected=want, at=(j, l, r0), next=(nl, nr))
            if c.kind == "s":
                need(abs(np.linalg.norm(end - p) - est) <= tol, "a way point of a straight lane is not as far as the agent gets", got=np.linalg.norm(end - p), expected=est)
            state[a][:5] = [j, nl, nr, t0, end]
        else:
            want = np.array(ln.segment_list[j + 1].position(0, r0, t0))
            need(near(end, want, tol), "past the end of a segment the way point is not the start of the next one", agent=a, got=end, expected=want, at=(j, l, r0))
            state[a][:5] = [j + 1, 0.0, r0, t0, end]
            st.add("segments")
        box = [0.4, 1.0, 0.2]
        for off, inside in (((0, 0, 0), True), ((0.19, -0.49, 0.09), True), ((0.21, 0, 0), False), ((0, -0.51, 0), False), ((0, 0, 0.11), False), ((-0.21, 0, 0), False), ((0, 0.51, 0), False), ((0, 0, -0.11), False)):
            need(bool(m.check_guard_box(a, (end + np.array(off)).tolist() + [5.0], box)) == inside, "the box around a way point is not the states within half its sides", offset=off, sides=box)
        st.add("way points")
    st.outcome(tuple(s[0] for s in state.values()))


def waypoint_cases():
    orders = ["x" * 12, "xy" * 6, "yx" * 6, "xxyyyxxyxyxx"]
    starts = [(0.05, 0.0, 0.0), (0.1, 1.1, 0.5), (0.3, 3.0, 4.0)]
    speeds = [(1.0, 3.0), (0.5, 2.4), (2.0, 4.0)]
    out = [(ids, pose, k, s, tv, o) for n in (1, 2, 3) for ids in itertools.product(range(len(PIECES)), repeat=n) for pose in range(len(POSES)) for k in (0, 1) for s in starts for tv in speeds for o in orders]
    return [c for c in out if pick(c, (3, 3, 12)[len(c[0]) - 1] if THOROUGH else (12, 12, 96)[len(c[0]) - 1])]


# ---- relations and tables ---------------------------------------------------------------------------------------
class TM(Enum):
    T0 = auto()
    T1 = auto()
    T2 = auto()
    M01 = auto()
    M10 = auto()
    M12 = auto()
    M21 = auto()


class AM(Enum):
    Normal = auto()
    MoveUp = auto()
    MoveDown = auto()


BACK = {"left": "right", "right": "left", "up": "down", "down": "up"}


def pairs(case, st):
    """sequences of pairings"""
    m = LaneMap_3d([Lane_3d("T0", [StraightLane_3d("z", [0, 0, 0], [1, 0, 0])])])
    m.add_lanes([Lane_3d(n, [StraightLane_3d("z", [0, 0, 0], [1, 0, 0])]) for n in ("T1", "T2")])
    other = LaneMap_3d([Lane_3d("T0", [StraightLane_3d("z", [0, 0, 0], [1, 0, 0])])])
    rel = {}
    for i, (a, b, r) in enumerate(case):
        m.pair_lanes(TM[a] if i % 2 else a, b if i % 2 else TM[b], r)
        rel.setdefault((a, r), []).append(b)
        rel.setdefault((b, BACK[r]), []).append(a)
    for n in ("T0", "T1", "T2"):
        for r in BACK:
            for x in (n, TM[n]):
                has, get = getattr(m, f"has_{r}"), getattr(m, f"{r}_lane")
                want = rel.get((n, r), [])
                need(bool(has(x)) == bool(want), "a lane has a neighbour it was not paired with, or lacks one", pairs=case, lane=n, relation=r, got=has(x))
                if want:
                    need(get(x) == want[0], "a neighbour is not the one paired", pairs=case, lane=n, relation=r, got=get(x), expected=want[0])
    need(not any(getattr(other, f"has_{r}")("T0") for r in BACK), "maps share their neighbours")
    st.add("pairings", len(case))


def pair_cases():
    one = [(a, b, r) for a, b in itertools.permutations(("T0", "T1", "T2"), 2) for r in BACK]
    return [c for n in (1, 2, 3) for c in itertools.product(one, repeat=n) if n < 3 or THOROUGH or pick(c, 8)]


def shipped():
    return {"M5": map_tacas.M5, "M6": map_tacas.M6, **{f"SimpleMap{i}": getattr(simple_map_3d, f"SimpleMap{i}") for i in range(1, 8)}}


def table(name, st):
    m = shipped()[name]()
    samples = {}
    for lid, ln in m.lane_dict.items():
        need(lid == ln.id, "a lane is filed under another name", map=name, lane=lid)
        samples[lid] = [[np.array(s.position(f * s.length, 0, 0)) for f in (0, 0.25, 0.5, 0.75, 1)] for s in ln.segment_list]
        if len(ln.segment_list) > 1:
            # a closed lane: every segment starts where another ends, in the same direction
            for s in ln.segment_list:
                e, te = np.array(s.position(s.length, 0, 0)), unit(s.get_tang(s.length))
                ok = [t for t in ln.segment_list if near(t.position(0, 0, 0), e, 1e-2) and near(unit(t.get_tang(0)), te, 1e-2)]
                need(len(ok) == 1, "no segment goes on where one ends", map=name, lane=lid, end=e, tangent=te)
            st.add("entries", len(ln.segment_list))
    for a, b in itertools.permutations(m.lane_dict, 2):
        # parallel lanes do not overlap
        off = np.mean([q - p for x, y in zip(samples[a], samples[b]) for p, q in zip(x, y)], axis=0)
        for r, axis in (("left", 1), ("up", 2)):
            if b in getattr(m, f"{r}_lane_dict")[a]:
                need(off[axis] > 0, f"the lane to the {r} is not there", map=name, lane=a, neighbour=b, offset=off)
                need(a in getattr(m, f"{BACK[r]}_lane_dict")[b], "neighbours are not mutual", map=name, lane=a, neighbour=b)
                st.add("entries")
        need(np.linalg.norm(off) >= m.get_lane_width(a) / 2 + m.get_lane_width(b) / 2 - 1e-6, "two lanes overlap", map=name, lanes=(a, b), offset=off)
    if hasattr(m, "h_dict"):
        alt = {l: float(np.mean([p[2] for s in samples[l] for p in s])) for l in m.lane_dict}
        order = sorted(alt, key=alt.get, reverse=True)
        need(order == ["T0", "T1", "T2"], "lanes are not numbered from the top", map=name, altitudes=alt)
        for t, a, b in itertools.product(TM, AM, AM):
            want = None
            if t.name[0] == "T" and a == AM.Normal and b != AM.Normal:
                i = int(t.name[1])
                j = i + (1 if b == AM.MoveDown else -1)
                want = f"M{i}{j}" if 0 <= j <= 2 else None
            elif t.name[0] == "M" and b == AM.Normal and a == (AM.MoveDown if t.name[2] > t.name[1] else AM.MoveUp):
                want = "T" + t.name[2]
            for args in ((t.name, a.name, b.name), (t, a, b), (t, a.name, b), (t.name, a, b.name)):
                got = m.h_exist(*args)
                need(bool(got) == (want is not None), "a change of lane is offered without a lane there, or not offered", map=name, at=args, got=got, expected=want)
                if want:
                    got = m.h(*args)
                    need(got == want, "a change of lane leads elsewhere", map=name, at=args, got=got, expected=want)
            st.add("entries")
        for t in TM:
            target = "T" + t.name[-1]
            for x in (t, t.name) if t.name[0] == "T" else (t.name, t):
                need(abs(m.altitude(x) - alt[target]) < 1e-2, "the altitude is not that of the lane", map=name, lane=t.name, got=m.altitude(x), expected=alt[target])
    with quiet():
        fig = P3.draw_map_3d(m)
    drawn = [np.stack([np.array(t.x, dtype=float), np.array(t.y, dtype=float), np.array(t.z, dtype=float)], axis=1) for t in fig.data]
    segs = [s for ln in m.lane_dict.values() for s in ln.segment_list]
    need(len(drawn) == len(segs), "not every segment of the map is drawn once", map=name, got=len(drawn), expected=len(segs))
    for s in segs:
        ends = [np.array(s.position(0, 0, 0)), np.array(s.position(s.length, 0, 0)), np.array(s.position(s.length * 40 / 99, 0, 0))]
        ok = [d for d in drawn if (near(d[0], ends[0], 1e-2) and near(d[-1], ends[1], 1e-2) and near(d[40], ends[2], 2e-2)) or (near(d[-1], ends[0], 1e-2) and near(d[0], ends[1], 1e-2) and near(d[59], ends[2], 2e-2))]
        need(ok, "a segment of the map is not drawn where it is", map=name, segment=s.id)


CASES = {"straight": straight, "arc1": arc1, "arc2": arc2, "near": near_lane, "lane": lane, "waypoints": waypoints, "pairs": pairs, "table": table}


def main():
    ck = core.Check("C21")
    ck.bounds = {
        "straight": f"{len(DIRS)} directions x 2 starts x 3 lengths x 2 widths x {len(FRACS)} positions along x 3 distances x {len(THETAS)} angles",
        "arc1": f"{len(DIRS)} axes (unit or not) x 2 centers x {len(RADII)} radii x {len(PHASES)} pairs of phases x both senses of phases (quick: 1/6), points as above",
        "arc2": f"arcs between two points by {len(DELTAS)} angles, 4 phases (quick: 1/12)",
        "near": f"{len(DIRS)} directions x straight lanes and arcs (quick: 1/6) x 2 widths x 77 points on, beside, before and behind them; configurations",
        "lane": f"chains of 1-3 of {len(PIECES)} connected segments x {len(POSES)} poses, arcs given in both ways (quick: 1/2, triples 1/8)",
        "waypoints": "the same chains x 3 starts x 3 speeds x 4 orders of the calls of two agents, 12 calls (a third to 1/96)",
        "pairs": "all sequences of 1-3 pairings of 3 lanes (quick: an eighth of the triples)",
        "table": f"all {len(shipped())} shipped 3D maps",
    }
    ck.assumptions = [
        "distances from the center below the radius of arcs; positions within 1e-3 of the end of a segment or of a tie between segments are left out",
        "way points are judged while the segment the agent is on and its successor are the only ones to contain the points",
    ]
    ck.explore("straight", straight, straight_cases())
    ck.explore("arc1", arc1, arc1_cases())
    ck.explore("arc2", arc2, arc2_cases())
    ck.explore("near", near_lane, near_cases())
    ck.explore("lane", lane, lane_cases())
    ck.explore("waypoints", waypoints, waypoint_cases())
    ck.explore("pairs", pairs, pair_cases())
    ck.explore("table", table, list(shipped()))
    c = ck.stats.c
    n = sum(c.get(k, 0) for k in ("points", "way points", "pairings", "entries"))
    return ck.finish(n, n, c.get("cases", 0))
