"""C09: lane coordinates are the geometric ones, and the lane-change tables of the shipped maps lead to the lane meant.

All chains of one to three segments (straights, arcs both ways, corners) from several poses and widths, and every point
of a grid across each segment, are compared with an independent geometric reference (complex arithmetic).
The tables: every (lane, mode, mode) of every shipped map against the geometric neighbour relation.
"""
import itertools, json, math, cmath, enum, os, tempfile
import numpy as np
from .. import core
from ..core import Violation, THOROUGH
from verse.map import LaneMap, Lane, StraightLane, CircularLane

TOL = 1e-6
# (kind, length or radius, angle in degrees (positive: left))
SEGS = [("s", 10.0, 0), ("s", 25.0, 0), ("k", 12.0, 45), ("k", 12.0, -45), ("a", 8.0, 90), ("a", 8.0, -90), ("a", 15.0, 45), ("a", 15.0, -60), ("a", 6.0, 170), ("a", 6.0, -170)]
POSES = [(0, 0, 0), (-7.5, 3.25, 2.5), (4.0, -11.0, -2.2), (1.0, 1.0, math.pi)]
WIDTHS = [3.0, 4.5]


class Ref:
    """One segment in the reference geometry."""

    def __init__(self, spec, z, th):
        self.kind, self.size, ang = spec
        self.ang = math.radians(ang)
        if self.kind == "k":
            th += self.ang  # a corner: the straight leaves at an angle
        self.z, self.th = z, th
        if self.kind == "a":
            self.sgn = 1 if self.ang > 0 else -1
            self.c = z + self.size * 1j * self.sgn * cmath.exp(1j * th)
            self.len = self.size * abs(self.ang)
        else:
            self.len = self.size

    def point(self, s, d):
        if self.kind == "a":
            h = self.th + self.sgn * s / self.size
            q = self.c - self.size * 1j * self.sgn * cmath.exp(1j * h)
        else:
            h, q = self.th, self.z + s * cmath.exp(1j * self.th)
        return q + d * 1j * cmath.exp(1j * h)

    def heading(self, s):
        return self.th + (self.sgn * s / self.size if self.kind == "a" else 0)

    def end(self):
        return self.point(self.len, 0), self.heading(self.len)

    def local(self, p):
        if self.kind != "a":
            w = (p - self.z) * cmath.exp(-1j * self.th)
            return w.real, w.imag
        w = (p - self.c) / (self.z - self.c)
        return self.sgn * cmath.phase(w) * self.size, self.sgn * (self.size - abs(p - self.c))

    def real(self, id, width):
        if self.kind == "a":
            a0 = cmath.phase(self.z - self.c)
            return CircularLane(id, [self.c.real, self.c.imag], self.size, a0, a0 + self.ang, self.sgn < 0, width)
        e = self.end()[0]
        return StraightLane(id, [self.z.real, self.z.imag], [e.real, e.imag], width)


def chain(specs, pose):
    z, th = complex(pose[0], pose[1]), pose[2]
    out = []
    for s in specs:
        r = Ref(s, z, th)
        out.append(r)
        z, th = r.end()
    return out


def near(a, b):
    return abs(a - b) <= TOL


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


class TrackMode(enum.Enum):
    T0 = enum.auto()
    M01 = enum.auto()


NAMES = ("T0", "M01", "M02", TrackMode.T0, TrackMode.M01)


def lane(case, st):
    specs, pose, width, share = case
    refs = chain([SEGS[i] for i in specs], POSES[pose])
    segs = [r.real(f"s{i}", WIDTHS[width]) for i, r in enumerate(refs)]
    w = WIDTHS[width]
    m = LaneMap()
    if share == 1:
        m.add_lanes([Lane("T2", segs[1:])])
    m.add_lanes([Lane("T0", segs, 17.5)])
    if share == 2:  # a lane that merges in after the first segment
        m.add_lanes([Lane("T2", segs[1:])])
    m.add_lanes([Lane("T1", [StraightLane("o", [900, 900], [901, 900], 1)])])
    starts = [sum(r.len for r in refs[:i]) for i in range(len(refs))]
    for i, r in enumerate(refs):
        if not near(segs[i].length, r.len) or not (share or near(segs[i].longitudinal_start, starts[i])):
            raise Violation("segment length or start differs", seg=i, got=[segs[i].length, segs[i].longitudinal_start], expected=[r.len, starts[i]])
        for f, d in itertools.product((0.0, 0.1, 0.37, 0.5, 0.81, 0.999), (-0.49, -0.2, 0.0, 0.3, 0.49)):
            s, d = f * r.len, d * w
            p = r.point(s, d)
            got = segs[i].position(s, d)
            if abs(complex(*got) - p) > TOL:
                raise Violation("position of lane coordinates", seg=i, s=s, d=d, got=got, expected=[p.real, p.imag])
            got = segs[i].local_coordinates(np.array([p.real, p.imag]))
            if not (near(got[0], s) and near(got[1], d)):
                raise Violation("lane coordinates of a position", seg=i, p=[p.real, p.imag], got=got, expected=[s, d])
            if angdiff(segs[i].heading_at(s), r.heading(s)) > TOL:
                raise Violation("heading", seg=i, s=s, got=segs[i].heading_at(s), expected=r.heading(s))
            # every segment that has the point within its width (a segment begins 3 m early)
            cand = []
            for j, q in enumerate(refs):
                a, b = q.local(p)
                if -3 - TOL <= a < q.len + TOL and abs(b) <= w / 2 + TOL:
                    cand.append((starts[j] + a, b, q.heading(a), j))
            st.add("points")
            name = NAMES[(int(f * 1000) + i + len(specs)) % len(NAMES)]
            pt = [p.real, p.imag] if d > 0 else np.array([p.real, p.imag])
            g = (m.get_longitudinal_position(name, pt), m.get_lateral_distance(name, pt), m.get_lane_heading(name, pt))
            if not any(near(g[0], c[0]) and near(g[1], c[1]) and angdiff(g[2], c[2]) <= TOL for c in cand):
                raise Violation("lane coordinates are not those of a segment the point lies on", p=[p.real, p.imag], lane=str(name), got=g, candidates=cand)
            if share and i > 0:
                # the other lane that has this segment counts from its own start
                t = m.get_longitudinal_position("T2", pt), m.get_lateral_distance("T2", pt), m.get_lane_heading("T2", pt)
                if not any(near(t[0], c[0] - starts[1]) and near(t[1], c[1]) and angdiff(t[2], c[2]) <= TOL for c in cand if c[3] > 0):
                    raise Violation("lane coordinates on a lane that shares segments", p=[p.real, p.imag], got=t, candidates=cand)
            sg = m.get_lane_segment(name, pt)
            if not any(sg is segs[c[3]] for c in cand):
                raise Violation("segment of a position", got=getattr(sg, "id", None), candidates=cand)
            st.outcome((specs, round(g[0], 3), round(g[1], 3)))
    for name in NAMES:
        if m.get_lane_width(name) != w or m.get_speed_limit(name) != 17.5:
            raise Violation("width or speed limit", name=str(name), got=[m.get_lane_width(name), m.get_speed_limit(name)])
    if m.get_all_speed_limit() != {"T0": 17.5, "T1": None, **({"T2": None} if share else {})}:
        raise Violation("speed limits", got=m.get_all_speed_limit())


def lane_cases():
    out = []
    n = len(SEGS)
    for k in (1, 2, 3):
        for j, sp in enumerate(itertools.product(range(n), repeat=k)):
            for pose in range(len(POSES)) if (k < 3 or THOROUGH) else (j % len(POSES),):
                for w in range(len(WIDTHS)) if (k < 3 or THOROUGH) else ((j // 4) % 2,):
                    # self-overlapping chains are left out: arcs of radius below half a width cannot occur here
                    for share in ((0,) if k == 1 else (0, 1, 2) if k == 2 or THOROUGH else (j % 3,)):
                        out.append((sp, pose, w, share))
    return out


# ---- positions relative to one lane --------------------------------------------------------------------
def near_lane(case, st):
    """on the lane, reachable, past its end, distances: of points on it, beside it, before and behind it"""
    i, pose, width, forbidden = case
    r, w = chain([SEGS[i]], POSES[pose])[0], WIDTHS[width]
    l = r.real("s0", w)
    l.forbidden = forbidden
    V = 5  # the length of a vehicle
    for s, d in itertools.product((-7.5, -4.5, -1.0, 0.0, 0.25 * r.len, 0.6 * r.len, r.len - 3.0, r.len - 2.0, r.len, r.len + 4.5, r.len + 6.0), (-2.2, -1.8, -0.9, -0.55, -0.45, 0.0, 0.3, 0.52, 0.8, 1.9, 2.1)):
        d *= w
        if r.kind == "a" and ((r.size - r.sgn * d) < 0.5 or abs(s / r.size) > 3.1):
            continue  # behind the center of an arc
        p = r.point(s, d)
        if abs(r.local(p)[0] - s) > TOL:
            continue
        st.add("points")
        P = np.array([p.real, p.imag])
        h = r.heading(s) + 0.4
        away = abs(d) + max(0, s - r.len, -s)
        exp = {
            "on_lane": (l.on_lane, (), abs(d) <= w / 2 and -V <= s < r.len + V),
            "on_lane, margin": (l.on_lane, (None, None, 0.1 * w), abs(d) <= 0.6 * w and -V <= s < r.len + V),
            "on_lane, coordinates given": (l.on_lane, (s, d), abs(d) <= w / 2 and -V <= s < r.len + V),
            "is_reachable_from": (l.is_reachable_from, (), not forbidden and abs(d) <= 2 * w and 0 <= s < r.len + V),
            "after_end": (l.after_end, (), s > r.len - V / 2),
            "distance": (l.distance, (), away),
            "distance_with_heading": (l.distance_with_heading, (h, 2.0), away + 0.8),
            "distance_with_heading, turned": (l.distance_with_heading, (h + 2 * math.pi - 1.0,), away + 0.6),
            "distance_with_heading, none": (l.distance_with_heading, (None,), away),
        }
        for k, (f, a, e) in exp.items():
            if k == "is_reachable_from" and abs(s) < TOL or k == "after_end" and abs(s) < TOL:
                continue
            g = f(P, *a)
            st.outcome((k, bool(e)))
            if (bool(g) != e) if isinstance(e, bool) else not near(g, e):
                raise Violation(k, s=s, d=d, lane=SEGS[i], got=float(g), expected=float(e))
    if l.width_at(1.0) != w:
        raise Violation("width", got=l.width_at(1.0), expected=w)
    # written down and read back, it is the same lane
    c = l.to_config()["config"]
    again = type(l).from_config(json.loads(json.dumps(c)))
    for s, d in ((0.0, 0.0), (0.5 * r.len, 0.3 * w), (r.len, -0.2 * w)):
        if np.abs(again.position(s, d) - l.position(s, d)).max() > TOL:
            raise Violation("a lane read back from its configuration is another lane", lane=SEGS[i], s=s, d=d, got=again.position(s, d).tolist(), expected=l.position(s, d).tolist())
    for k in ("id", "width", "length", "forbidden", "speed_limit", "priority"):
        if getattr(again, k) != getattr(l, k):
            raise Violation("a lane read back from its configuration is another lane", what=k, got=getattr(again, k), expected=getattr(l, k))


def near_lane_cases():
    return list(itertools.product(range(len(SEGS)), range(len(POSES)), range(len(WIDTHS)), (False, True)))


# ---- physical lane names ---------------------------------------------------------------------------------
def names(case, st):
    a, b = case
    exp = {f"T{a}": f"T{a}", f"M{a}{b}": f"T{a}", f"NS_{a}": f"NS_{a}", f"NS_{a}_{b}": f"NS_{a}", f"EW_1{a}_1{b}": f"EW_1{a}", f"Lane{a}": f"Lane{a}"}
    E = enum.Enum("E", list(exp))
    for k, v in exp.items():
        st.add("names")
        st.outcome((k, v))
        for x in (k, E[k]):
            if LaneMap.get_phys_lane(x) != v:
                raise Violation("physical lane", lane=str(x), got=LaneMap.get_phys_lane(x), expected=v)


# ---- lane-change tables ----------------------------------------------------------------------------------
def shipped():
    from verse.map.example_map import simple_map2 as s2, map_tacas as mt
    from verse.map.example_map.intersection import Intersection

    out = [("SimpleMap3", s2.SimpleMap3), ("SimpleMap4", s2.SimpleMap4), ("SimpleMap4Switch2", s2.SimpleMap4Switch2), ("SimpleMap6", s2.SimpleMap6)]
    out += [(f"M{i}", getattr(mt, f"M{i}")) for i in (1, 2, 3, 4) if hasattr(mt, f"M{i}")]
    out += [(f"Intersection{n}", lambda n=n: Intersection(lanes=n, size=20)) for n in (1, 2, 3, 4, 5)]
    return dict(out)


def start_of(l):
    s = l.segment_list[0]
    p, q = s.position(0, 0), s.position(0.001, 0)
    return complex(*p), complex(*(q - p)) / 0.001


def table(case, st):
    m = shipped()[case]()
    lanes = list(m.lane_dict)
    cross = case.startswith("Intersection")
    geo = {k: start_of(l) for k, l in m.lane_dict.items()}
    wd = {k: l.lane_width for k, l in m.lane_dict.items()}

    def neighbour(a, k):
        """the lane that starts k widths to the left of lane a"""
        p, h = geo[a]
        for b in lanes:
            if b != a and (not cross or b.split("_")[0] == a.split("_")[0]):
                d = (geo[b][0] - p) / h
                if abs(d - 1j * k * wd[a]) < 1e-3:
                    return b
        return None

    idx = (lambda n: n.split("_")[1]) if cross else (lambda n: n[1:])
    virt = (lambda a, b: f"{a}_{idx(b)}") if cross else (lambda a, b: f"M{idx(a)}{idx(b)}")
    moves = {"SwitchLeft": 1, "SwitchRight": -1}
    if case == "SimpleMap4Switch2":
        moves.update({"SwitchLeft2": 2, "SwitchRight2": -2})
    for a in lanes:
        for mv, k in moves.items():
            b = neighbour(a, k)
            st.add("entries", 2)
            E1, E2 = enum.Enum("Tr", [a]), enum.Enum("Ag", ["Normal", mv])
            for x in ((a, "Normal", mv), (E1[a], E2.Normal, E2[mv])):
                ex = m.h_exist(*x)
                if bool(ex) != (b is not None):
                    raise Violation("h_exist disagrees with the lanes of the map", query=str(x), got=ex, neighbour=b)
                if b is not None and m.h(*x) != virt(a, b):
                    raise Violation("h leads to another lane", query=str(x), got=m.h(*x), expected=virt(a, b))
            if b is None:
                continue
            v = virt(a, b)
            if m.h(v, mv, "Normal") != b or not m.h_exist(v, mv, "Normal"):
                raise Violation("the lane change does not end in the neighbour", query=(v, mv, "Normal"), expected=b)
            if LaneMap.get_phys_lane(v) != a:
                raise Violation("physical lane of a lane change", lane=v, got=LaneMap.get_phys_lane(v), expected=a)
            if m.h_exist(v, mv, mv) and cross:
                raise Violation("a lane change cannot be continued into another", lane=v)
            st.outcome((case, a, mv, v, b))
            for nm, kk in (("left_lane", 1), ("right_lane", -1)):
                if hasattr(m, nm) and neighbour(a, kk) is not None and getattr(m, nm)(a) != neighbour(a, kk):
                    raise Violation(nm, lane=a, got=getattr(m, nm)(a), expected=neighbour(a, kk))


# ---- OpenDRIVE -------------------------------------------------------------------------------------------
OD_LANES = [(("driving", 3.5),), (("driving", 3.5), ("driving", 4.0)), (("sidewalk", 1.5), ("driving", 3.5)), (("driving", 3.0), ("sidewalk", 1.0), ("driving", 3.5), ("driving", 2.5))]


def od_xml(refs, lanes, side):
    geo, s = "", 0.0
    for r in refs:
        shape = "<line/>" if r.kind != "a" else f'<arc curvature="{r.sgn / r.size!r}"/>'
        geo += f'<geometry s="{s!r}" x="{r.z.real!r}" y="{r.z.imag!r}" hdg="{r.th!r}" length="{r.len!r}">{shape}</geometry>'
        s += r.len
    ls = "".join(f'<lane id="{i+1}" type="{t}"><width sOffset="0" a="{w}" b="0" c="0" d="0"/></lane>' for i, (t, w) in enumerate(lanes))
    road = f'<road id="0"><planView>{geo}</planView><lanes><laneSection s="0"><{side}>{ls}</{side}></laneSection></lanes></road>'
    return f'<?xml version="1.0"?><OpenDRIVE>{road}<road id="9"/></OpenDRIVE>'


def opendrive(case, st):
    from verse.map import opendrive_map

    specs, pose, li = case
    refs = chain([SEGS[i] for i in specs], POSES[pose])
    lanes = OD_LANES[li]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "m.xodr")
        with open(f, "w") as h:
            h.write(od_xml(refs, lanes, "left"))
        m = opendrive_map(f)
    off, o = [], 0.0
    for t, w in lanes:
        if t == "driving":
            off.append((o + w / 2, w))
        o += w
    ids = [f"T{i}" for i in range(len(off))]
    if sorted(m.lane_dict) != ids:
        raise Violation("lanes of an OpenDRIVE road", got=sorted(m.lane_dict), expected=ids)
    for i, (o, w) in enumerate(off):
        l = m.lane_dict[f"T{i}"]
        if len(l.segment_list) != len(refs):
            raise Violation("segments of an OpenDRIVE lane", got=len(l.segment_list))
        for sg, r in zip(l.segment_list, refs):
            for f in (0.0, 0.3, 0.7):
                st.add("points")
                L = r.len if r.kind != "a" else (r.size - o * r.sgn) * abs(r.ang)
                for d in (-w / 3, 0.0, w / 3):
                    p, q = sg.position(f * L, d), r.point(f * r.len, o + d)
                    if abs(complex(*p) - q) > 1e-5 or not near(sg.width, w):
                        raise Violation("geometry of an OpenDRIVE lane", lane=i, at=f, got=p, expected=[q.real, q.imag], width=[sg.width, w])
        st.outcome((case, i))
        # lanes are numbered from the centre line outwards, so the next one is on the left of the road
        for mv, b in (("SwitchRight", i - 1), ("SwitchLeft", i + 1)):
            ok = 0 <= b < len(off)
            if m.h_exist(f"T{i}", "Normal", mv) != ok or (ok and (m.h(f"T{i}", "Normal", mv) != f"M{i}{b}" or m.h(f"M{i}{b}", mv, "Normal") != f"T{b}")):
                raise Violation("lane change of an OpenDRIVE map", lane=i, move=mv, table={str(k): v for k, v in m.h_dict.items()})


def od_cases():
    out = []
    n = [0, 1, 4, 5, 6, 7]
    for k in (1, 2, 3):
        for j, sp in enumerate(itertools.product(n, repeat=k)):
            for li in range(len(OD_LANES)) if k < 3 or THOROUGH else (j % 4,):
                # the outermost offset has to stay inside the arcs
                if any(SEGS[i][0] == "a" and SEGS[i][2] > 0 and SEGS[i][1] < 11 and li == 3 for i in sp):
                    continue
                out.append((sp, j % len(POSES), li))
    return out


CASES = {"lane": lane, "near_lane": near_lane, "names": names, "table": table, "opendrive": opendrive}


def main():
    ck = core.Check("C09")
    ck.bounds = {
        "lane": f"all chains of 1-3 segments out of {len(SEGS)} (straight, corner, arc up to 170 degrees), 4 poses, 2 widths (quick: one pose and width for chains of 3), 30 points per segment, alone or sharing its segments with a second lane",
        "near_lane": "every segment kind x 4 poses x 2 widths x forbidden or not, 121 points on, beside, before and behind it; configurations written and read back",
        "names": "all two-digit combinations of lane names",
        "table": f"every lane and change of {len(shipped())} shipped maps",
        "opendrive": "1-3 geometries of lines and arcs x 4 lane profiles on the left side",
    }
    ck.assumptions = ["arcs turn by less than 180 degrees", "where several segments contain a point (within 3 m before a segment, at corners) the coordinates of any of them are accepted"]
    ck.explore("lane", lane, lane_cases())
    ck.explore("near_lane", near_lane, near_lane_cases())
    ck.explore("names", names, list(itertools.product(range(10), repeat=2)))
    ck.explore("table", table, list(shipped()))
    ck.explore("opendrive", opendrive, od_cases())
    c = ck.stats.c
    n = c.get("points", 0) + c.get("entries", 0) + c.get("names", 0)
    return ck.finish(n, n, n)
