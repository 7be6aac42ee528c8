"""C06/C07: one decision step of the verifier on boxes of states is exact.

Every program of the expression/value/structure grammars of C01 x boxes that straddle its thresholds; oracle: the
source interpreted at every point of a grid that has a representative of every cell of the threshold arrangement.
"""
import itertools
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..world import RateAgent, cfg, enums, norm_asserts, mode_t, rnd
from . import c01, c02
from verse import Scenario
from verse.analysis.verifier import ReachabilityMethod
from verse.sensor.base_sensor_stars import BaseStarSensor
from verse.stars.starset import StarSet

STARS = False  # C19 runs these families with star sets in place of boxes


def grid(box, k=1):
    axes = []
    for lo, hi in zip(*box):
        n = max(1, int(round((hi - lo) / 0.125))) * k if hi > lo else 0
        axes.append([lo + (hi - lo) * i / n for i in range(n + 1)] if n else [lo])
    return list(itertools.product(*axes))


def box_step(ctl, ebox, disc, others, extra=None, k=1, discs=None):
    """Reference: -> (assert info, {var: {stmt id: (lo, hi)}}, mode values) over all points of the boxes.
    others: [(box, disc)]"""
    enabled, hull, hits = set(), {}, {}
    og = [grid(b, k) for b, _ in others]
    for p in grid(ebox, k):
        for q in itertools.product(*og):
            env = {"ego": ctl.obj(p, disc), "others": [ctl.obj(c, d) for c, (_, d) in zip(q, others)]}
            if extra:
                env.update(extra)
            asserts, out, seen = ctl.step(env, full=True)
            for i, lab, bad, pre, cond in asserts:
                h = hits.setdefault(i, [lab, False, False, False])
                h[1] |= bad
                h[2] |= pre
                h[3] |= not cond
            for combo in itertools.product(*[[(v, i) for i in out[v]] for v in sorted(out)]):
                if combo:
                    enabled.add(combo)
            for i, v in seen.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    a = hull.get(i)
                    hull[i] = (min(a[0], v), max(a[1], v)) if a else (v, v)
                else:
                    hull.setdefault(i, set()).add(getattr(v, "name", v))
    return hits, enabled, hull


def expected(ctl, ebox, disc, enabled, hull):
    """-> set of (dest disc, rect)"""
    cn, dn = ctl.cont(), ctl.disc()
    res = set()
    for combo in enabled:
        lo, hi = list(ebox[0]), list(ebox[1])
        ds = [[x] for x in disc]
        for k, i in combo:
            if k in dn:
                ds[dn.index(k)] = sorted(hull[i])
            else:
                lo[cn.index(k)], hi[cn.index(k)] = hull[i]
        for d in itertools.product(*ds):
            res.add((d, rbox((lo, hi))))
    return res


def rbox(b):
    return tuple(tuple(rnd(v, 5) for v in e) for e in b)


def rows(r):
    """the bounds of a set: a box, or the bounding rectangle of a star"""
    return r.overapprox_rectangle() if isinstance(r, StarSet) else r


def impl_step(ctl, ebox, disc, others, map_=None, conf=None):
    if STARS:
        return map_
    s = Scenario(cfg(init_seg_length=1, **(conf or {})))
    s.add_agent(RateAgent("ego1", code=ctl.source()))
    for i in range(len(others)):
        s.add_agent(RateAgent(f"o{i}", code=None))
    if map_ is not None:
        s.set_map(map_)
    return s


def star_step(map_, ctl, ebox, disc, others):
    s = Scenario(cfg(reachability_method=ReachabilityMethod.STAR_SETS, pca=False))
    for i, (b, d) in enumerate([(ebox, disc)] + list(others)):
        a = RateAgent(f"o{i - 1}" if i else "ego1", code=None if i else ctl.source())
        a.set_initial(StarSet.rect_to_star(list(b[0]), list(b[1])), enums(ctl, d))
        s.add_agent(a)
    if map_ is not None:
        s.set_map(map_)
    s.set_sensor(BaseStarSensor())
    return s


def run_impl(s, ctl, ebox, disc, others, dt=0.5):
    if STARS:
        return star_step(s, ctl, ebox, disc, others).verify(dt, dt, max_height=2).root
    s.set_init([[list(e) for e in ebox]] + [[list(e) for e in b] for b, _ in others], [enums(ctl, disc)] + [enums(ctl, d) for _, d in others])
    tree = s.verify(dt, dt, max_height=2)
    s.past_runs.clear()
    return tree.root


def compare(ctl, boxes, others, st, map_=None, extra=None, allowed=None):
    s = impl_step(ctl, boxes[0][0], boxes[0][1], others, map_)
    for ebox, disc in boxes:
        root = run_impl(s, ctl, ebox, disc, others)
        st.add("verify_steps")
        got = set()
        for c in root.child:
            for r in c.init["ego1"]:
                got.add((mode_t(c.mode["ego1"]), rbox(rows(r))))
            for i, (b, d) in enumerate(others):
                if [rbox(rows(r)) for r in c.init[f"o{i}"]] != [rbox(b)] or mode_t(c.mode[f"o{i}"]) != tuple(d):
                    raise Violation("another agent's state changed in the successor", other=i, got=c.init[f"o{i}"], expected=b)
        for k in (1, 4):
            hits, enabled, hull = box_step(ctl, ebox, disc, others, extra, k)
            exp = expected(ctl, ebox, disc, enabled, hull)
            if allowed is not None:
                exp = {e for e in exp if allowed(disc, e[0])}
            st.add("points", 1)
            if got == exp:
                break
        st.outcome(sorted(exp))
        if exp:
            st.add("boxes_with_transition")
        st.add("successors", len(got))
        if got != exp:
            raise Violation(
                "successor sets of one decision step over a box differ from the source",
                box=ebox, mode=disc, others=others, missing=sorted(exp - got), spurious=sorted(got - exp), source=ctl.source(),
            )


def B(x0, x1, y0, y1):
    return ((x0, y0), (x1, y1))


EBOXES = [
    (B(0.5, 1.5, 0.5, 1.5), ("A",)), (B(0.0, 0.5, 1.0, 1.0), ("A",)), (B(1.25, 2.0, 0.0, 0.75), ("B",)),
    (B(1.0, 1.0, 0.25, 1.25), ("C",)), (B(-0.5, 0.0, -0.5, 0.0), ("A",)), (B(2.0, 3.0, 2.0, 2.5), ("B",)),
]
OTHERS = (
    (),
    ((B(0.75, 1.25, 0.0, 0.0), ("B",)),),
    ((B(0.0, 0.0, 1.0, 2.0), ("A",)), (B(1.5, 2.0, 1.0, 1.0), ("B",))),
    ((B(2.0, 2.0, 2.0, 2.0), ("C",)), (B(2.0, 2.5, 0.0, 0.0), ("C",))),
)


def expr_cases():
    cs = c01.expr_cases()
    out = []
    # membership tests are rejected by the verifier with an explicit error: not part of its language
    rej = {i for i, a in enumerate(c01.ATOMS) if " in [" in a}
    cs = [c for c in cs if not (rej & ({c[1]} if isinstance(c[1], int) else set(c[1])))]
    for n, c in enumerate(cs):
        if c[0] == "atom":
            out.append((c, OTHERS[c[2]] and c[2], tuple(range(len(EBOXES)))))
        else:
            need = any("others" in c01.ATOMS[i] for i in c[1])
            k = 1 + draw(c, 2) if need else 0
            bs = (0, 1 + draw((c, 1), 5)) if not THOROUGH else (0, 1, 2, 3, 4, 5)
            if THOROUGH or pick((c, 2), 2):
                out.append((c, k, bs))
    return [(c, k if k else 0, bs) for c, k, bs in out]


def expr(case, st):
    c, k, bs = case
    st.add("programs")
    compare(c01.expr_prog(c), [EBOXES[b] for b in bs], OTHERS[k], st)


def structure_cases():
    cs = [c for c in c01.structure_cases()]
    return [c for i, c in enumerate(cs) if THOROUGH or pick(c, 9) or len(c[2]) <= 1 or len(c[1]) <= 1 and pick(c, 3)]


def structure(case, st):
    sk, ts, ss = case
    ctl = Ctl(c01.fill(sk, [c01.TESTS[t] for t in ts], [c01.SETS[s] for s in ss]), modes=c01.MODES4)
    st.add("programs")
    compare(ctl, [EBOXES[0], (B(1.25, 1.5, 0.5, 1.25), ("D",))], (), st)


# ---- reset images -----------------------------------------------------------------------------------
VALS = (
    "ego.x + 1", "ego.y", "-ego.x", "2 * ego.x - ego.y", "ego.x - (ego.y - 3)", "(ego.x + 1) * (ego.y - 2)", "5", "ego.x / 4", "-2.5", "lim", "f(ego)", "loc",
    "g(ego.y, ego.x)", "ego.x + ego.y + ego.z", "ego.x - ego.x2", "ego.x2 * 2", "ego.y - ego.x * ego.x2", "1e-3 * ego.x", "3 - ego.y - ego.z", "-(ego.x2 - ego.y)",
)
VF = (
    (("x", "float"), ("x2", "float"), ("y", "float"), ("z", "float"), ("mode", "AMode")),
    (("z", "float"), ("mode", "AMode"), ("x2", "float"), ("y", "float"), ("x", "float")),
)
PRE3 = c01.PRE3
RB = (
    {"x": (0.5, 1.5), "x2": (-1.0, 2.0), "y": (-0.5, 0.5), "z": (2.0, 2.0)},
    {"x": (-2.0, -1.0), "x2": (-3.0, -2.5), "y": (-1e-5, 1e-5), "z": (-4.0, -1.0)},
    {"x": (1.0, 1.0), "x2": (3.0, 4.0), "y": (0.0, 0.0), "z": (0.0, 1.0)},
)


VG = ("ego.x + ego.z > -100", "ego.x2 < 2.5", "ego.x2 - ego.x < 0.5", "ego.x > ego.x2")


def value_cases():
    return [(i, j, lay, form) for i in range(len(VALS)) for j in range(len(VALS)) for lay in range(2) for form in range(3) if THOROUGH or (i + 2 * j + lay + form) % 3 == 0]


def value(case, st):
    i, j, lay, form = case
    if VALS[j] == "ego." + ("y", "x", "x2")[form]:
        st.add("identity_programs_skipped")
        return
    a, b = ("set", "x", VALS[i]), ("set", ("y", "x", "x2")[form], VALS[j])
    body = [("if", VG[(i + j + form) % len(VG)], [a, ("set", "mode", "AMode.B")], []), ("if", "ego.mode == AMode.A", [b], [])]
    ctl = Ctl([("raw", "loc = ego.y + lim")] + body, modes=c01.MODES2, fields=VF[lay], preamble=PRE3)
    st.add("programs")
    s = impl_step(ctl, None, None, ())
    for rb in RB:
        ebox = tuple(tuple(rb[f][e] for f in ctl.cont()) for e in (0, 1))
        root = run_impl(s, ctl, ebox, ("A",), ())
        st.add("verify_steps")
        got = {(mode_t(c.mode["ego1"]), rbox(rows(r))) for c in root.child for r in c.init["ego1"]}
        # all assigned expressions are multi-affine: hulls are attained at corners
        enabled, hull = set(), {}
        for p in itertools.product(*zip(*ebox)):
            _, out, seen = ctl.step({"ego": ctl.obj(p, ("A",)), "others": []}, full=True)
            enabled.update(itertools.product(*[[(v, i) for i in out[v]] for v in sorted(out)]))
            for k, v in seen.items():
                if isinstance(v, (int, float)):
                    h = hull.get(k)
                    hull[k] = (min(h[0], v), max(h[1], v)) if h else (v, v)
                else:
                    hull.setdefault(k, set()).add(v.name)
        exp = expected(ctl, ebox, ("A",), enabled, hull)
        st.outcome(sorted(exp))
        st.add("successors", len(got))
        if got != exp:
            raise Violation("reset image of a box is not the hull of the assigned expression", box=rb, got=sorted(got), expected=sorted(exp), source=ctl.source())


# ---- lane maps ---------------------------------------------------------------------------------------
def lane_cases():
    E = list(c02.lane_edges())
    return [(e1, e2, t) for i, e1 in enumerate(E) for j, e2 in enumerate(E) for t in range(len(c02.TABLES)) if e1[0] == "Normal" and (THOROUGH or pick((i, j, t), 5))]


LB = [(B(0.5, 1.5, 0.5, 1.25), ("Normal", "T0")), (B(0.0, 0.5, 0.5, 1.0), ("SwitchLeft", "M01")), (B(0.0, 1.0, 0.0, 0.5), ("Normal", "T1")), (B(0.5, 1.5, 0.0, 1.0), ("Brake", "T0"))]


def lane(case, st):
    e1, e2, t = case
    ctl = c02.lane_ctl((e1, e2))
    rm = c02.RefMap(c02.TABLES[t])

    def allowed(src, dst):
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    compare(ctl, LB, (), st, map_=c02.TableMap(c02.TABLES[t]), extra={"track_map": rm}, allowed=allowed)


CASES = {"expressions": expr, "structure": structure, "values": value, "lane": lane}


def main():
    ck = core.Check("C06")
    ck.bounds = {
        "expressions": f"the {len(c01.ATOMS)} atomic tests and 2/3-atom combinations of C01 over {len(EBOXES)} boxes x {len(OTHERS)} environments of boxes",
        "structure": "the statement structures of C01 (quick: about a ninth) over 2 boxes",
        "values": f"{len(VALS)} assigned expressions pairwise, 3 forms, 2 layouts (quick: a third), 3 boxes (degenerate and sign-changing included)",
        "lane": "lane-change edges pairwise x 3 tables x 4 boxes",
    }
    ck.assumptions = ["assigned expressions are affine in each variable (the verifier documents affine resets)", "static agents: reachable segment = initial box"]
    for n, f, c in (("expressions", expr, expr_cases()), ("structure", structure, structure_cases()), ("values", value, value_cases()), ("lane", lane, lane_cases())):
        ck.explore(n, f, c)
    c = ck.stats.c
    return ck.finish(c.get("verify_steps", 0), c.get("successors", 0), c.get("cases", 0))
