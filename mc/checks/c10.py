"""C10: lane functions in guards over sets of positions.

Lanes of C09 (chains of straights, corners, arcs) x boxes placed on them: for every box the verifier has to find the
guards `lane function >= c` / `<= c` possible for every c that the function reaches at some point of the box, and on
boxes inside one segment impossible beyond the exact range.  The range is enumerated over a grid (and its exact
extremes on one segment) with the geometric reference of C09.
"""
import itertools, math, cmath, re
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..world import RateAgent, cfg, enums, mode_t
from . import c06, c09
from verse import Scenario
from verse.map import LaneMap, Lane, StraightLane

W = 9.0
SEGS = [("s", 20.0, 0), ("k", 20.0, 45), ("k", 20.0, -30), ("a", 15.0, 90), ("a", 15.0, -90), ("a", 10.0, 150), ("a", 12.0, -170), ("s", 5.0, 0)]
POSES = [(0, 0, 0), (-7.5, 3.25, 2.5), (4.0, -11.0, -2.2), (1.0, 1.0, math.pi), (0.5, 0.25, math.pi / 2)]
HALF = [(0.0, 0.0), (0.4, 0.4), (1.5, 0.7), (0.5, 2.5), (2.5, 2.5)]
MODES = (("AMode", tuple("ABCDEFGHI")), ("TrackMode", ("T0", "T1", "M01")))
FIELDS = (("x", "float"), ("y", "float"), ("mode", "AMode"), ("track_mode", "TrackMode"))
EGO = "track_map.get_{}(ego.track_mode, [ego.x, ego.y])"


def ctl(tests):
    b = [("if", t, [("set", "mode", f"AMode.{m}")], []) for t, m in zip(tests, "BCDEFGHI")]
    return Ctl([("if", "ego.mode == AMode.A", b, [])], modes=MODES, fields=FIELDS, sig="ego: State, others: List[State], track_map")


class FreeMap(LaneMap):
    """every mode change keeps the lane"""

    def h_exist(self, lane, src, dst):
        return True

    def h(self, lane, src, dst):
        return lane if isinstance(lane, str) else lane.name


def the_map(refs):
    m = FreeMap()
    m.add_lanes([Lane("T0", [r.real(f"s{i}", W) for i, r in enumerate(refs)])])
    o = c09.chain([("s", 50.0, 0)], (-20, 40, 0.3))
    m.add_lanes([Lane("T1", [r.real("o", W) for r in o])])
    return m


def cands(refs, starts, p):
    out = []
    for j, q in enumerate(refs):
        a, b = q.local(p)
        if -3 <= a < q.len and abs(b) <= W / 2:
            out.append((j, starts[j] + a, b))
    return out


def grid(c, h, n):
    xs = [c.real - h[0] + 2 * h[0] * i / n for i in range(n + 1)] if h[0] else [c.real]
    ys = [c.imag - h[1] + 2 * h[1] * i / n for i in range(n + 1)] if h[1] else [c.imag]
    return [complex(x, y) for x in xs for y in ys]


def enabled(ags, map_, boxes):
    """modes the first agent may change to in one step from the boxes"""
    s = Scenario(cfg(init_seg_length=1))
    for i, (c, d) in enumerate(ags):
        s.add_agent(RateAgent(f"a{i}", code=c.source() if c else None))
    s.set_map(map_)
    s.set_init([[list(b[0]), list(b[1])] for b in boxes], [enums(ags[0][0], d) for _, d in ags])
    t = s.verify(0.5, 0.5, max_height=2)
    return {mode_t(c.mode["a0"])[0] for c in t.root.child}


def exact(r, start, c, h):
    """exact extremes of (longitudinal, lateral) over a box, on one segment"""
    corners = grid(c, h, 1)
    loc = [r.local(p) for p in corners]
    lon = [a for a, _ in loc]
    lat = [b for _, b in loc]
    if r.kind == "a":
        dx = max(abs(c.real - r.c.real) - h[0], 0)
        dy = max(abs(c.imag - r.c.imag) - h[1], 0)
        near = math.hypot(dx, dy)
        lat.append(r.sgn * (r.size - near))
    return (start + min(lon), start + max(lon)), (min(lat), max(lat))


def boxes_on(refs, starts):
    """boxes whose points all lie on the lane, with the values at their points"""
    for i, r in enumerate(refs):
        for f, d, h in itertools.product((0.1, 0.35, 0.6, 0.97), (-1.5, 0.0, 1.25), HALF):
            c = r.point(f * r.len, d)
            pts = [(p, cands(refs, starts, p)) for p in grid(c, h, 8)]
            if any(not k for _, k in pts):
                continue
            yield i, c, h, pts


def single(case, st):
    specs, pose, part = case
    refs = c09.chain([SEGS[i] for i in specs], POSES[pose])
    starts = [sum(r.len for r in refs[:i]) for i in range(len(refs))]
    m = the_map(refs)
    for n, (i, c, h, pts) in enumerate(boxes_on(refs, starts)):
        if n % PARTS != part:
            continue
        lon, lat = [], []
        for p, ks in pts:
            if len(ks) > 1:  # the one simulation uses
                q = [p.real, p.imag]
                lon.append(m.get_longitudinal_position("T0", q))
                lat.append(m.get_lateral_distance("T0", q))
            else:
                lon.append(ks[0][1])
                lat.append(ks[0][2])
        tests, must = [], []
        e = 2e-3
        for fn, v in (("longitudinal_position", lon), ("lateral_distance", lat)):
            tests += [f"{EGO.format(fn)} >= {max(v) - e!r}", f"{EGO.format(fn)} <= {min(v) + e!r}"]
        must = set("BCDE")
        one = {k[0] for _, ks in pts for k in ks}
        never = set()
        if len(one) == 1:
            j = one.pop()
            # no other segment may claim the box either
            if all(not (-3.5 <= r.local(p)[0] <= r.len + 0.5) or k == j for p, _ in pts for k, r in enumerate(refs)):
                xs = exact(refs[j], starts[j], c, h)
                for fn, (lo, hi) in zip(("longitudinal_position", "lateral_distance"), xs):
                    tests += [f"{EGO.format(fn)} >= {hi + e!r}", f"{EGO.format(fn)} <= {lo - e!r}"]
                never = set("FGHI")
        a = ctl(tests)
        got = enabled([(a, ("A", ("T0", "M01")[n % 2]))], m, [((c.real - h[0], c.imag - h[1]), (c.real + h[0], c.imag + h[1]))])
        st.add("boxes")
        st.add("points", len(pts))
        st.add("exact_boxes", bool(never))
        st.outcome((specs, pose, n, sorted(got)))
        if must - got:
            raise Violation("a lane guard that holds at some position of the set is not found possible", box=[str(c), h], segment=i, missing=[tests["BCDEFGHI".index(k)] for k in sorted(must - got)], source=a.source())
        if never & got:
            raise Violation("a lane guard beyond the exact range of the set is found possible", box=[str(c), h], segment=i, spurious=[tests["BCDEFGHI".index(k)] for k in sorted(never & got)], source=a.source())


PARTS = 2


def single_cases():
    out = []
    n = len(SEGS)
    for k in (1, 2, 3):
        for j, sp in enumerate(itertools.product(range(n), repeat=k)):
            poses = range(len(POSES)) if k == 1 or THOROUGH and k == 2 else [draw(sp, len(POSES))]
            if k == 3 and not (THOROUGH or pick((sp, 1), 29)):
                continue
            if k == 2 and not (THOROUGH or pick((sp, 1), 2)):
                continue
            for p in poses:
                for part in range(PARTS):
                    out.append((sp, p, part))
    return out


# ---- two agents: distances along and across lanes ----------------------------------------------------------
REL = [
    "track_map.get_longitudinal_position(o.track_mode, [o.x, o.y]) - track_map.get_longitudinal_position(ego.track_mode, [ego.x, ego.y]) {} {!r}",
    "track_map.get_lateral_distance(o.track_mode, [o.x, o.y]) + track_map.get_lateral_distance(ego.track_mode, [ego.x, ego.y]) {} {!r}",
    "track_map.get_lateral_distance(ego.track_mode, [o.x, o.y]) {} {!r}",
]


def pair(case, st):
    specs, pose, off = case
    refs = c09.chain([SEGS[i] for i in specs], POSES[pose])
    starts = [sum(r.len for r in refs[:i]) for i in range(len(refs))]
    m = the_map(refs)
    bs = list(boxes_on(refs, starts))
    a = bs[off % len(bs)]
    b = bs[(off * 7 + 3) % len(bs)]
    val = []
    for _, _, _, pts in (a, b):
        v = []
        for p, ks in pts:
            q = [p.real, p.imag]
            v.append((m.get_longitudinal_position("T0", q), m.get_lateral_distance("T0", q)) if len(ks) > 1 else ks[0][1:])
        val.append(v)
    lon = [[x for x, _ in v] for v in val]
    lat = [[y for _, y in v] for v in val]
    rng = [(min(lon[1]) - max(lon[0]), max(lon[1]) - min(lon[0])), (min(lat[1]) + min(lat[0]), max(lat[1]) + max(lat[0])), (min(lat[1]), max(lat[1]))]
    tests = []
    e = 2e-3
    for t, (lo, hi) in zip(REL, rng):
        tests += [f"any({t.format('>=', hi - e)} for o in others)", f"any({t.format('<=', lo + e)} and o.mode == AMode.B for o in others)"]
    mid = [(lo + hi) / 2 for lo, hi in rng]
    tests.append(f"all({REL[0].format('>=', mid[0])} or {REL[1].format('<=', rng[1][0] + e)} for o in others)")
    c = ctl(tests)
    box = lambda t: ((t[1].real - t[2][0], t[1].imag - t[2][1]), (t[1].real + t[2][0], t[1].imag + t[2][1]))
    got = enabled([(c, ("A", "T0")), (None, ("B", "M01"))], m, [box(a), box(b)])
    st.add("boxes")
    st.add("points", len(val[0]) + len(val[1]))
    st.outcome((case, sorted(got)))
    miss = set("BCDEFGH") - got
    if miss:
        raise Violation("a relation between two agents' lane positions that holds for some states is not found possible", boxes=[box(a), box(b)], missing=[tests["BCDEFGHI".index(k)] for k in sorted(miss)], source=c.source())


def pair_cases():
    out = []
    for j, sp in enumerate([(0,), (3,), (4,), (6,), (0, 3), (3, 0), (4, 0), (0, 4), (1, 2), (0, 3, 4), (3, 3), (0, 1, 3), (7, 3)]):
        for p in range(len(POSES)):
            out += [(sp, p, o) for o in range(40) if THOROUGH or pick((sp, p, o), 7)]
    return out


# ---- map functions inside the logic of a guard -------------------------------------------------------------
class Road(FreeMap):
    def __init__(self):
        super().__init__()
        self.add_lanes([Lane("T0", [StraightLane("s", [-10, 0], [90, 0], 20)]), Lane("T1", [StraightLane("t", [-5, 3], [95, 3], 20)])])

    def h(self, lane, src, dst):
        n = lambda v: getattr(v, "name", v)
        return n(lane) if (n(src), n(dst)) != ("A", "C") else None

    def h_exist(self, *a):
        return self.h(*a) is not None

    def altitude(self, lane):
        return {"T0": 0.25, "T1": 1.25, "M01": 0.75}[getattr(lane, "name", lane)]


class RefRoad:
    """the same functions for points, on straight lanes along the first axis"""

    def h_exist(self, lane, src, dst):
        return (src.name, dst.name) != ("A", "C")

    def altitude(self, lane):
        return {"T0": 0.25, "T1": 1.25, "M01": 0.75}[lane.name]

    def get_longitudinal_position(self, lane, p):
        return p[0] + {"T0": 10, "M01": 10, "T1": 5}[lane.name]

    def get_lateral_distance(self, lane, p):
        return p[1] - {"T0": 0, "M01": 0, "T1": 3}[lane.name]

    def get_lane_width(self, lane):
        return 20.0


LAT, LON = ("track_map.get_%s({0}.track_mode, [{0}.x, {0}.y])" % n for n in ("lateral_distance", "longitudinal_position"))
# (test, the coordinates it depends on, whether a lane function over sets is in it)
ATOMS = [
    (LAT.format("ego") + " >= 0.5", "y", True),
    (LON.format("ego") + " <= 11", "x", True),
    ("ego.x >= 1", "x", False),
    ("ego.y < 0.75", "y", False),
    ("track_map.h_exist(ego.track_mode, ego.mode, AMode.B)", "", False),
    ("track_map.h_exist(ego.track_mode, ego.mode, AMode.C)", "", False),
    ("track_map.altitude(ego.track_mode) - ego.y > -0.5", "y", False),
    ("ego.track_mode == TrackMode.T0", "", False),
    (f"any({LAT.format('o')} - {LAT.format('ego')} > 0.5 for o in others)", "yv", True),
    (f"all({LON.format('o')} >= {LON.format('ego')} and o.track_mode == ego.track_mode for o in others)", "xu", True),
    ("any(o.track_mode == ego.track_mode or track_map.altitude(o.track_mode) > 1 for o in others)", "", False),
    ("track_map.get_lane_width(ego.track_mode) > 10", "", False),
    ("1 > track_map.altitude(ego.track_mode) - ego.y > -0.25", "y", False),
    (f"any(track_map.h_exist(o.track_mode, o.mode, AMode.C) and {LAT.format('o')} > 0 for o in others)", "v", True),
]
LFORMS = ("{0} and {1}", "{0} or {1}", "{0} and ({1} or {2})", "{0} or ({1} and {2})", "({0} or {1}) and not ({2} and {0})")
LBOX = [(((0.75, 0.375), (1.25, 0.875)), ("A", "T0")), (((0.5, 0.625), (0.75, 1.0)), ("A", "M01")), (((1.25, 3.25), (1.25, 3.75)), ("A", "T1"))]
LOTH = ((), ((((1.0, 0.75), (1.0, 1.25)), ("B", "T0")),), ((((0.75, 3.25), (1.25, 3.25)), ("A", "T1")), (((2.0, 0.5), (2.0, 0.5)), ("C", "M01"))))
# names of the fields: no variable may be mistaken for another that it is a prefix of
NAMES = (("x", "y", "mode", "track_mode"), ("t", "a", "amode", "track_mode"), ("m", "track", "mode", "track_mode"), ("x", "x_1", "mode", "track_mode"))


def logic(case, st):
    atoms, signs, form, oth, nm = case
    x, y, mode, track = NAMES[nm]
    ts = ["(" + sg + ATOMS[i][0] + ")" for i, sg in zip(atoms, signs)]
    g = LFORMS[form].format(*ts)
    for old, new in ((".x", "." + x), (".y", "." + y), (".mode", "." + mode)):
        g = re.sub(rf"\b(ego|o){re.escape(old)}\b", lambda k: f"{k[1]}@{new}", g)
    fields = ((x, "float"), (y, "float"), (mode, "AMode"), (track, "TrackMode"))
    body = [("set", mode, "AMode.B")]
    if (sum(atoms) + form) % 2:  # the successor named by the map
        body.append(("set", track, f"track_map.h(ego.{track}, ego.{mode}, AMode.B)"))
    c = Ctl([("if", f"ego.{mode} == AMode.A", [("if", g.replace("@", ""), body, [])], [])], modes=(("AMode", tuple("ABC")), MODES[1]), fields=fields, sig="ego: State, others: List[State], track_map")
    ref = RefRoad()
    ref.h = lambda lane, src, dst: lane
    st.add("boxes", len(LBOX))
    # a lane function is an interval of its own: where another test looks at the same coordinate the result may be larger
    loose = any(ATOMS[i][2] and set(ATOMS[i][1]) & set(ATOMS[j][1]) for i in atoms for j in atoms if i != j) or (form == 4 and ATOMS[atoms[0]][2])
    for b in LBOX:
        try:
            c06.compare(c, [b], LOTH[oth], st, map_=Road(), extra={"track_map": ref})
        except Violation as v:
            if v.detail.get("missing") or not v.detail.get("spurious") or not loose:
                raise
            st.add("larger")


def logic_cases():
    out = []
    n = range(len(ATOMS))
    S = ("", "not ")
    for i in n:
        for oth in range(3):
            for nm in range(len(NAMES)):
                out += [((i, i), (s, s), 0, oth, nm) for s in S]
    for k, (i, j) in enumerate(itertools.combinations(n, 2)):
        for f in (0, 1):
            for q, s in enumerate(itertools.product(S, S)):
                for nm in range(len(NAMES)) if THOROUGH else (draw((i, j, s, f), len(NAMES)),):
                    out.append(((i, j), s, f, draw((i, j, s, f, nm, 1), 3), nm))
    for k, t in enumerate(itertools.permutations(n, 3)):
        if t[1] > t[2] or not (THOROUGH or pick(t, 3)):
            continue
        for f in (2, 3, 4):
            out.append((t, tuple(S[draw((t, f, b), 2)] for b in range(3)), f, draw((t, f, 3), 3), draw((t, f, 4), len(NAMES))))
    return out


CASES = {"single": single, "pair": pair, "logic": logic}


def main():
    ck = core.Check("C10")
    ck.bounds = {
        "single": f"chains of 1-3 out of {len(SEGS)} segments (quick: half of the pairs, a 29th of the triples) x up to 5 poses, 12 positions and 5 box sizes per segment that stay on the lane",
        "pair": "13 chains x 2-5 poses x 14-40 pairs of boxes, 7 relations",
        "logic": f"{len(ATOMS)} tests with map functions, 1-3 of them in {len(LFORMS)} logical forms with negations, 3 boxes, 3 environments, {len(NAMES)} choices of field names",
    }
    ck.assumptions = ["all points of a box lie on the lane (within its width)", "exact ranges are required on boxes inside one segment only"]
    ck.explore("single", single, single_cases())
    ck.explore("pair", pair, pair_cases())
    ck.explore("logic", logic, logic_cases())
    c = ck.stats.c
    return ck.finish(c.get("points", 0), c.get("boxes", 0), c.get("boxes", 0))
