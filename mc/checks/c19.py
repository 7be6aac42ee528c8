"""C19: star sets are what they say, and verification with star sets covers every execution.

Operations: all stars of a bounded family (dimensions, generators, constraint systems with vertices in a small lattice) x
all arguments; the reference enumerates the vertices of the coefficient polytope (all intersections of constraints), which
makes every linear question about the star a finite one.  Verification: the automata of C08 with star sets as initial
sets (boxes, parallelograms, triangles), executions from the vertices, edges and centre of the star.
"""
import itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent, ref_tree
from ..world import RateAgent, cfg, enums, explored_by, norm_asserts, mode_t
from . import c02, c06, c08, c10
from verse import Scenario
from verse.analysis.verifier import ReachabilityMethod
from verse.sensor.base_sensor_stars import BaseStarSensor
from verse.sensor.example_sensor.craft_star_sensor import CraftStarSensor
from verse.stars import starset as S
from verse.stars.starset import StarSet
from verse.utils.star_manhattan import star_manhattan_distance

TOL = 1e-6


# ---- reference ------------------------------------------------------------------------------------------
def vertices(C, g):
    """Vertices of {a : C a <= g} (bounded), by intersecting every choice of constraints."""
    C, g = np.array(C, float), np.array(g, float)
    m = C.shape[1]
    out = []
    for rows in itertools.combinations(range(len(C)), m):
        A = C[list(rows)]
        if abs(np.linalg.det(A)) < 1e-9:
            continue
        a = np.linalg.solve(A, g[list(rows)])
        if np.all(C @ a <= g + 1e-9) and not any(np.allclose(a, b) for b in out):
            out.append(a)
    return out


def points(star):
    """Vertices of the coefficients mapped into the state space."""
    return [star[0] + a @ star[1] for a in vertices(star[2], star[3])]


def in_hull2(p, V, tol=0.0):
    """p in the convex hull of V (1-D or 2-D), by supporting lines"""
    V = np.array(V)
    if len(V) == 0:
        return False
    if V.shape[1] == 1:
        return V.min() - tol <= p[0] <= V.max() + tol
    dirs = [np.array(d, float) for d in ((1, 0), (0, 1), (-1, 0), (0, -1))]
    for a, b in itertools.combinations(V, 2):
        e = b - a
        n = np.linalg.norm(e)
        if n > 1e-12:
            dirs += [np.array([e[1], -e[0]]) / n, np.array([-e[1], e[0]]) / n, e / n, -e / n]
    return all(d @ p <= max(V @ d) + tol for d in dirs)


def margin(p, V):
    """True / False / None (too close to call) for p in hull(V)"""
    if in_hull2(p, V, -1e-3) if len(V) else False:
        return True
    if not in_hull2(p, V, 1e-3):
        return False
    return True if in_hull2(p, V, 1e-9) else None


# ---- stars ---------------------------------------------------------------------------------------------
CENTERS = [(0.0, 0.0), (1.0, -0.5)]
BASES2 = [((1, 0), (0, 1)), ((1, 0.5), (0, 1)), ((0.5, 0), (0, -1)), ((0, 1), (1, 0.25)), ((1, 1), (1, -1)), ((1, 2),), ((1, 0), (0, 1), (1, 1))]


def box(m, lo, hi):
    C = np.vstack([np.vstack([np.eye(m)[i], -np.eye(m)[i]]) for i in range(m)])
    g = np.array([v for _ in range(m) for v in (hi, -lo)], float)
    return C, g


def systems(m):
    """name -> constraints on m coefficients"""
    out = {"unit": box(m, -1, 1), "positive": box(m, 1, 2), "negative": box(m, -3, -1), "point": box(m, 1, 1), "empty": box(m, 1, -1), "degenerate": box(m, 0, 0.5)}
    C = np.vstack([-np.eye(m), np.ones((1, m))])
    out["simplex"] = (C, np.array([0.0] * m + [1.0]))
    out["left"] = (np.vstack([np.eye(m), -np.ones((1, m))]), np.array([0.0] * m + [1.5]))
    C, g = box(m, -1, 1)
    out["cut"] = (np.vstack([C, np.ones((1, m))]), np.append(g, 0.5))
    out["redundant"] = (np.vstack([C, np.ones((1, m))]), np.append(g, 10.0))
    return out


def all_stars():
    out = []
    for c in CENTERS:
        for b in BASES2:
            for k in systems(len(b)):
                out.append((2, c, b, k))
    for c in ((0.0,), (0.75,)):
        for b in (((1,),), ((-0.5,),)):
            for k in systems(1):
                out.append((1, c, b, k))
    out.append((3, (0.0, 1.0, -1.0), ((1, 0, 0.5), (0, 1, 0), (0.25, 0, 1)), "unit"))
    out.append((3, (0.0, 1.0, -1.0), ((1, 0, 0.5), (0, 1, 0), (0.25, 0, 1)), "left"))
    out.append((3, (0.0, 1.0, -1.0), ((1, 0, 0.5), (0, 1, 0)), "simplex"))
    return out


def make(case):
    n, c, b, k = case
    C, g = systems(len(b))[k]
    return (np.array(c, float), np.array(b, float), C, g), StarSet(np.array(c, float), np.array(b, float), C, g)


DIRS = {1: [(1,), (-1,)], 2: [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 2), (2, 1)], 3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (1, 1, 1), (1, -1, 0.5)]}


def close(a, b):
    return np.allclose(np.array(a, float), np.array(b, float), atol=TOL)


def need(ok, msg, **k):
    if not ok:
        raise Violation(msg, **k)


def support(st, s, V, what, **k):
    """The star s has the support of the points V in all directions (LP answers of the code against vertices)"""
    n = s.dimension()
    for d in DIRS[n]:
        p = np.array(s.maximize(np.array([[float(x)] for x in d]))).reshape(-1)
        w = max(np.array(V) @ np.array(d, float))
        st.add("queries")
        need(abs(p @ np.array(d, float) - w) < TOL * 10, f"{what}: extent in a direction is wrong", direction=d, got=p, want=w, **k)
    r = s.overapprox_rectangle()
    st.add("queries")
    need(close(r[0], np.min(V, axis=0)) and close(r[1], np.max(V, axis=0)), f"{what}: bounding rectangle is wrong", got=r, want=(np.min(V, axis=0), np.max(V, axis=0)), **k)


def query(case, st):
    """questions about one star"""
    ref, s = make(case)
    V = points(ref)
    st.add("stars")
    empty = not V
    st.outcome((case[2], case[3], empty))
    st.add("queries")
    need(bool(s.is_empty()) == empty, "is_empty is wrong", star=case, want=empty)
    n = case[0]
    if not empty:
        support(st, s, V, "star", star=case)
        for i in range(n):
            lo, hi = s.get_max_min(i)
            need(close((lo, hi), (min(v[i] for v in V), max(v[i] for v in V))), "get_max_min is wrong", star=case, i=i, got=(lo, hi))
        mid = [(min(v[i] for v in V) + max(v[i] for v in V)) / 2 for i in range(n)]
        need(close(s.get_true_center(), mid), "get_true_center is not the middle", star=case, got=s.get_true_center(), want=mid)
        w = max(float(np.abs(a - b).sum()) for a in V for b in V)
        d, ok = star_manhattan_distance(ref[0], ref[1], ref[2], ref[3])
        st.add("queries")
        need(ok == 1 and abs(d - w) < 1e-4, "the Manhattan diameter is wrong", star=case, got=(d, ok), want=w)
        for dims in ((0, 1), ()) if n == 2 else ():
            xs, ys = s.get_verts(*dims)
            for d in DIRS[2]:
                got = max(x * d[0] + y * d[1] for x, y in zip(xs, ys))
                need(got <= max(np.array(V) @ np.array(d)) + 1e-5, "an outline point lies outside the star", star=case)
    if n <= 2:
        grid = [i * 0.5 for i in range(-5, 6)] if n == 1 else [i * 0.75 + 0.125 for i in range(-4, 5)]
        for off in itertools.product(grid, repeat=n):
            p = ref[0] + np.array(off)
            w = margin(p, V)
            if w is None:
                continue
            st.add("queries", 2)
            need(bool(s.contains_point(p)) == w, "contains_point is wrong", star=case, point=p, want=w)
            need(bool(S.containment_poly(s, p)) == w, "containment_poly is wrong", star=case, point=p, want=w)
    # half spaces, from touching it widely to missing it
    for d in DIRS[n]:
        d = np.array(d, float)
        ext = [V_ @ d for V_ in V] or [float(ref[0] @ d)]
        for r in (min(ext) - 0.5, min(ext) + 0.25 * (max(ext) - min(ext)) + 0.01, max(ext) - 0.01 * (max(ext) - min(ext)) - 0.001, max(ext) + 0.5):
            st.add("queries", 2)
            need(bool(s.satisfies(d, r)) == all(e <= r for e in ([] if empty else ext)), "satisfies is wrong", star=case, halfspace=(d, r))
            h = StarSet.get_halfspace_intersection(s, d, r)
            C2, g2 = np.vstack([ref[2], (ref[1] @ d)[None]]), np.append(ref[3], r - ref[0] @ d)
            V2 = points((ref[0], ref[1], C2, g2))
            need(bool(h.is_empty()) == (not V2), "intersection with a half space: emptiness is wrong", star=case, halfspace=(d, r))
            if V2:
                support(st, h, V2, "intersection with a half space", star=case, halfspace=(d, r))
    need(close(s.center, ref[0]) and close(s.basis, ref[1]) and close(s.C, ref[2]) and close(s.g, ref[3]), "a question changed the star", star=case)


MAPS = [np.array([[1.0, 0.5], [0.0, 1.0]]), np.array([[0.0, -1.0], [1.0, 0.0]]), np.array([[0.5, 0.0], [0.0, 0.0]])]


class Affine:
    def __init__(self, A, b):
        self.A, self.b = A, b

    def at(self, x, t):
        """flow with A nilpotent or diagonalisable: exact by scipy"""
        from scipy.linalg import expm

        n = len(x)
        M = np.zeros((n + 1, n + 1))
        M[:n, :n], M[:n, n] = self.A, self.b
        return (expm(M * t) @ np.append(x, 1.0))[:n]


def images(case, st):
    """maps of one star"""
    ref, s = make(case)
    V = points(ref)
    if not V or case[0] != 2:
        return
    st.add("stars")
    for A in MAPS:
        b = np.array([0.25, -1.0])
        f = lambda x, t=0: A @ np.array(x) + b
        q = s.post_cont(f, 1.0)
        support(st, q, [f(v) for v in V], "post_cont", star=case, A=A)
        fl = Affine(A - np.eye(2), b)
        sim = lambda mode, x, T, dt, lane_map=None: np.array([[round(i * dt, 10)] + list(fl.at(x, i * dt)) for i in range(int(round(T / dt)) + 1)])
        tube = s.calc_reach_tube_linear(("m",), 1.0, 0.25, sim, None)
        need([round(float(t), 8) for t, _ in tube] == [0.0, 0.25, 0.5, 0.75, 1.0], "times of a linear tube", star=case)
        for t, e in tube:
            support(st, e, [fl.at(v, t) for v in V], "calc_reach_tube_linear", star=case, t=t)
    rst = lambda x, expr, vars: np.array([x[1] + 1, -0.5 * x[0]])
    support(st, s.apply_reset(rst, None, None), [rst(v, 0, 0) for v in V], "apply_reset", star=case)
    for nb in ((ref[1] * 2), -ref[1]):
        q = s.superposition(np.array([3.0, 4.0]), nb)
        support(st, q, [np.array([3.0, 4.0]) + a @ nb for a in vertices(ref[2], ref[3])], "superposition", star=case)
    for q in (s.copy(), s.starcopy()):
        support(st, q, V, "copy", star=case)
        q.intersection_halfspace(np.array([1.0, 0.0]), -100.0)
        q.center[0] = 77
        support(st, s, V, "star after its copy changed", star=case)
    # the predicate of the derived basis is scaled to contain the points
    if len(ref[1]) == 2 and abs(np.linalg.det(ref[1])) > 1e-9 and case[3] in ("unit", "cut", "simplex"):
        P = np.array([v * 1.5 + np.array([0.25, 0.125]) for v in V])
        for nb in (np.eye(2), np.array([[1.0, 1.0], [-1.0, 1.0]])):
            q = S.post_cont_pca(s, nb, P)
            for p in P:
                st.add("queries")
                need(in_hull2(p, points((q.center, q.basis, q.C, q.g)), 1e-6), "post_cont_pca does not contain a point", star=case, basis=nb, point=p)


def pair_cases():
    A = [c for c in all_stars() if c[0] == 2 and c[3] in ("unit", "negative", "simplex", "cut") and (len(c[2]) == 2 or THOROUGH)]
    out = [(a, b) for i, a in enumerate(A) for j, b in enumerate(A) if THOROUGH or pick((i, j), 4)]
    return out


def pair(case, st):
    """bounding star of several"""
    R = [make(c) for c in case]
    V = [v for r, _ in R for v in points(r)]
    lo, hi = np.min(V, axis=0), np.max(V, axis=0)
    corners = [np.array(c) for c in itertools.product(*zip(lo, hi))]
    st.add("stars", 2)
    support(st, StarSet.combine_stars([s for _, s in R]), corners, "combine_stars", stars=case)
    from verse.analysis.incremental import combine_all

    support(st, combine_all([s for _, s in R], True), corners, "combine_all", stars=case)
    support(st, StarSet.rect_to_star(list(lo), list(hi)), corners, "rect_to_star", stars=case)


# ---- guards --------------------------------------------------------------------------------------------
# conditions over ego and the others as (operator, parts) of linear atoms (coefficients of ego.x, ego.y, o.x, o.y; bound),
# each atom meaning coefficients . state <= bound
ATOMS = {
    "sum": (1, 1, 0, 0), "-sum": (-1, -1, 0, 0), "diff": (1, -1, 0, 0), "x": (1, 0, 0, 0), "-x": (-1, 0, 0, 0), "y": (0, 1, 0, 0),
    "gap": (-1, 0, 1, 0), "-gap": (1, 0, -1, 0), "rel": (1, 1, -1, -1), "ox": (0, 0, 1, 0), "-oy": (0, 0, 0, -1), "2x-o": (2, 0, 0, -1),
}
CONDS = [(k,) for k in ATOMS] + [("and", "x", "diff"), ("and", "-x", "sum"), ("or", "x", "-sum"), ("not", "sum"), ("and", "x", "gap"), ("and", "rel", "-oy"), ("or", "gap", "diff"), ("not", "rel"), ("and", "-gap", "y")]
FAR = ("gap", "-gap", "rel", "ox", "-oy", "2x-o")
LIST = ("any", "all")
SIGS = {"others": "ego: State, others: List[State]", "cars": "ego: State, other_cars: List[State]", "other": "ego: State, other: State", "front_car": "ego: State, front_car: State"}
PAIRS = [((0, 0), (1, 2)), ((1, 3), (0, 1)), ((4, 0), (2, 2)), ((2, 3), (6, 1)), ((5, 0), (4, 0))]
SYS = ("positive", "simplex", "cut", "point")


def guard_cases():
    out = []
    for i, c in enumerate(CONDS):
        far = any(k in FAR for k in c)
        for sg in SIGS if far else ("others",):
            for red in (LIST if sg in ("others", "cars") else ("",)) if far else ("",):
                for j, p in enumerate(PAIRS):
                    for m in range(1, 3) if far and red else (1,):
                        for q in range(6):
                            if THOROUGH or pick((c, sg, red, j, m, q), 4):
                                out.append((c, sg, red, j, m, q))
    return out


def atom_src(k, bound, o):
    vs = ("ego.x", "ego.y", f"{o}.x", f"{o}.y")
    return " + ".join((v if c == 1 else f"({c}) * {v}") for v, c in zip(vs, ATOMS[k]) if c) + f" <= {bound!r}"


def product(stars):
    """constraints and the affine map of the product of stars"""
    n = sum(len(s[1]) for s in stars)
    C, g, M, c0, at = [], [], [], [], 0
    for s in stars:
        for row, b in zip(s[2], s[3]):
            r = np.zeros(n)
            r[at : at + len(s[1])] = row
            C.append(r)
            g.append(b)
        at += len(s[1])
    return np.array(C), np.array(g)


def feasible(C, g):
    """Whether {a: C a <= g} (bounded) is empty, with the slack of the best vertex: batched vertex enumeration"""
    m = C.shape[1]
    idx = np.array(list(itertools.combinations(range(len(C)), m)))
    A, b = C[idx], g[idx]
    ok = np.abs(np.linalg.det(A)) > 1e-9
    a = np.linalg.solve(A[ok], b[ok][..., None])[..., 0]
    return bool(np.any(np.all(a @ C.T <= g + 1e-9, axis=1)))


def holds_somewhere(stars, dnf):
    """Some point of the product satisfies a conjunction of the dnf; atoms are (ego coeffs, {k: coeffs of other k}, bound)"""
    C, g = product(stars)
    for conj in dnf:
        C2, g2 = [C], [g]
        for coef, bound in conj:  # coef: list of 2-vectors, one per star
            row, rhs = [], bound
            for s, w in zip(stars, coef):
                row.append(s[1] @ np.array(w, float))
                rhs -= float(s[0] @ np.array(w, float))
            C2.append(np.concatenate(row)[None])
            g2.append(np.array([rhs]))
        if feasible(np.vstack(C2), np.concatenate(g2)):
            return True
    return False


class Standing(StarSet):
    """A star that keeps its shape: with calc_reach_tube, only its bounding rectangle is left at the first segment already"""

    def calc_reach_tube(self, mode, T, dt, *rest, **more):
        return [[i * dt, self] for i in range(int(round(T / dt)))]


def guard(case, st):
    """Over standing stars, a transition is found and an assertion is reported iff some states of the stars satisfy (violate) the condition"""
    c, sg, red, j, m, q = case
    egos = make((2, CENTERS[0], BASES2[PAIRS[j][0][0]], SYS[PAIRS[j][0][1]]))
    oth = [make((2, CENTERS[(1 + k) % 2], BASES2[(PAIRS[j][1][0] + k) % 5], SYS[PAIRS[j][1][1]])) for k in range(m)]
    refs = [egos[0]] + [o[0] for o in oth]
    V = [points(r) for r in refs]
    name = SIGS[sg].split(", ")[1].split(":")[0]
    o = "o" if red else name
    atoms = [k for k in c if k in ATOMS]
    op = c[0] if c[0] not in ATOMS else "and"
    bounds = []
    for n, k in enumerate(atoms):
        w = ATOMS[k]
        e, f = [v @ np.array(w[:2], float) for v in V[0]], [v @ np.array(w[2:], float) for v in V[1]]
        lo, hi = min(e) + min(f), max(e) + max(f)
        f = (-0.35, 0.03, 0.3, 0.6, 0.97, 1.35)[(q + 2 * n) % 6] if hi > lo else (-1, -1, -1, 1, 1, 1)[(q + 2 * n) % 6]
        bounds.append(round(float(lo + f * (hi - lo or 1)) + 0.00037, 5))
    srcs = [atom_src(k, b, o) for k, b in zip(atoms, bounds)]
    inner = f"not ({srcs[0]})" if op == "not" else f" {op} ".join(f"({s})" for s in srcs)
    src = f"{red}({inner} for o in {name})" if red else inner

    def atom(k, b, i):
        w = ATOMS[k]
        return ([w[:2]] + [w[2:] if i == n else (0, 0) for n in range(m)], b)

    def neg(a):
        return ([tuple(-x for x in w) for w in a[0]], -a[1] - 1e-7)

    def form(i):
        A = [atom(k, b, i) for k, b in zip(atoms, bounds)]
        return [[neg(A[0])]] if op == "not" else [A] if op == "and" else [[x] for x in A]

    def unform(i):
        A = [atom(k, b, i) for k, b in zip(atoms, bounds)]
        return [[A[0]]] if op == "not" else [[neg(x)] for x in A] if op == "and" else [[neg(x) for x in A]]

    def conj(fs):
        return [sum(t, []) for t in itertools.product(*fs)]

    if red == "all":
        pos, no = conj([form(i) for i in range(m)]), sum((unform(i) for i in range(m)), [])
    else:
        pos, no = sum((form(i) for i in range(m)), []), conj([unform(i) for i in range(m)])
    some, notall = holds_somewhere(refs, pos), holds_somewhere(refs, no)
    st.add("queries", 2)
    st.add("stars", 1 + m)
    st.outcome((c, some, notall))
    Z = {"A": (0.0, 0.0), "B": (0.0, 0.0), "C": (0.0, 0.0)}

    def run(stmts):
        ctl = Ctl(stmts, sig=SIGS[sg])
        s = Scenario(cfg(reachability_method=ReachabilityMethod.STAR_SETS, pca=False))
        for k, star in enumerate([egos[1]] + [x[1] for x in oth]):
            ag = RateAgent(f"a{k}", code=ctl.source() if k == 0 else None, rates=Z)
            ag.set_initial(Standing(star.center, star.basis, star.C, star.g), enums(ctl, ("A",)))
            s.add_agent(ag)
        s.set_sensor(BaseStarSensor())
        return ctl, s.verify(1.0, 0.5, max_height=2).root

    ctl, r = run([("if", "ego.mode == AMode.A", [("if", src, [("set", "mode", "AMode.B")], [])], [])])
    need(bool(r.child) == some, "a transition is found iff some states satisfy the guard", condition=src, found=len(r.child), want=some, stars=case)
    ctl, r = run([("assert", src, "safe")])
    need(bool(norm_asserts(r.assert_hits)) == notall, "an assertion is reported iff some states violate it", condition=src, got=r.assert_hits, want=notall, stars=case)


# ---- one decision step over stars that are boxes: the families of C06 and C10 ------------------------------------
def step_cases():
    out = [("expr", c) for c in (c06.expr_cases()) if THOROUGH or pick((c, 7), 8)]
    out += [("structure", c) for c in (c06.structure_cases()) if THOROUGH or pick((c, 7), 8)]
    # star sets are closed under affine resets only (the code documents: assume linear function)
    affine = [i for i, v in enumerate(c06.VALS) if not any(n in v for n in (") * (", "ego.x * ego"))]
    out += [("value", c) for c in (c for c in c06.value_cases() if c[0] in affine and c[1] in affine) if THOROUGH or pick((c, 7), 4)]
    out += [("logic", c) for c in (c10.logic_cases()) if THOROUGH or pick((c, 7), 16)]
    out += [("lane", c) for c in (c06.lane_cases()) if THOROUGH or pick((c, 7), 8)]
    return out


def step(case, st):
    kind, c = case
    c06.STARS = True
    try:
        {"expr": c06.expr, "structure": c06.structure, "value": c06.value, "logic": c10.logic, "lane": c06.lane}[kind](c, st)
    finally:
        c06.STARS = False


# ---- verification --------------------------------------------------------------------------------------
SHAPES = {
    "box": lambda lo, hi: StarSet.rect_to_star(list(lo), list(hi)),
    "centered": lambda lo, hi: StarSet((np.array(lo) + np.array(hi)) / 2, np.diag((np.array(hi) - np.array(lo)) / 2), *box(len(lo), -1, 1)),
    # the diagonal band of the rectangle and its lower left half
    "skew": lambda lo, hi: StarSet(np.array(lo), np.array([[(hi[0] - lo[0]) * 0.5, (hi[1] - lo[1]) * 0.5], [(hi[0] - lo[0]) * 0.5, 0.0]]), *box(2, 0, 1)),
    "triangle": lambda lo, hi: StarSet(np.array(lo), np.diag(np.array(hi) - np.array(lo)), *systems(2)["simplex"]),
}


class SNode(c08.VNode):
    """Nodes of a tree of star sets; the stars of such a tree are rectangles (without PCA), read back as rows."""

    def __init__(self, n, explored, dt):
        self.mode = {a: mode_t(m) for a, m in n.mode.items()}
        self.hits = norm_asserts(n.assert_hits)
        self.start = n.start_time
        self.explored = explored(n)
        self.tr = {}
        for a, t in n.trace.items() if self.explored else ():
            rows = []
            for time, star in t:
                V = points((star.center, star.basis, star.C, star.g))
                rows.append([time] + list(np.min(V, axis=0)))
                rows.append([time + dt] + list(np.max(V, axis=0)))
            self.tr[a] = np.array(rows, dtype=float)
        self.init = n.init
        self.child = [SNode(c, explored, dt) for c in n.child]


def starts(star):
    V = points((star.center, star.basis, star.C, star.g))
    mid = np.mean(V, axis=0)
    out = V + [mid] + [(v + mid) / 2 for v in V] + [(a + b) / 2 for a, b in itertools.combinations(V, 2)]
    return [tuple(float(x) for x in p) for p in out]


def verify(ragents, stars, T, dt, st, mh=None, aligned=True, seg=1000, conf=None, map_=None, allowed=None, extra=None):
    s = Scenario(cfg(init_seg_length=seg, reachability_method=ReachabilityMethod.STAR_SETS, pca=False, **(conf or {})))
    for a, star in zip(ragents, stars):
        ag = RateAgent(a.id, code=a.ctl.source() if a.ctl else None, rates=a.rates)
        ag.set_initial(star, enums(a.ctl or ragents[0].ctl, a.disc))
        s.add_agent(ag)
    if map_ is not None:
        s.set_map(map_)
    s.set_sensor(BaseStarSensor())
    tree = s.verify(T, dt, max_height=mh)
    V = SNode(tree.root, explored_by(T, mh), dt)
    st.add("verify_nodes", len(tree.nodes))
    src = [a.ctl.source() if a.ctl else None for a in ragents]
    P = [starts(x) for x in stars]
    if len(P) > 1:
        P = [p[:5] for p in P]
    for p in itertools.product(*P):
        ags = [RAgent(a.id, a.ctl, a.rates, x, a.disc) for a, x in zip(ragents, p)]
        r = ref_tree(ags, T, dt, mh, False, allowed, extra, stats=st)
        st.add("executions")
        st.outcome(r[5] and r)
        w = c08.match(r, V, len(ragents), aligned, st)
        if w is not None:
            raise Violation("an execution from the initial star is not covered by verification", start=p, why=w, source=src, tree=c08.show(V))
    return tree, V


def tree_cases():
    return [c + (sh,) for i, c in enumerate(c08.single_cases()) for j, sh in enumerate(SHAPES) if pick((c, sh), 4 if THOROUGH else 16)]


def tree(case, st):
    e1, e2, k, b, o, sh = case
    ctl = Ctl(c02.edge_stmts([(s, c08.GUARDS[g], d, c08.RESETS[r]) for s, g, d, r in (e1, e2)]))
    T, dt = ((2.0, 0.5), (1.5, 0.25), (2.5, 0.5))[o]
    verify([RAgent("a", ctl, c08.RATES[k], (0, 0), ("A",))], [SHAPES[sh](*c08.BOXES[b])], T, dt, st, mh=4, aligned=False)


def multi_cases():
    return [(c, sh) for i, c in enumerate(c08.multi_cases()) for j, sh in enumerate(SHAPES) if THOROUGH or pick((c, sh), 4)]


def multi(case, st):
    case, sh = case
    ags = [RAgent(f"a{i}", Ctl(c08.MULTI[p]) if c08.MULTI[p] else None, c08.RATES[k], (0, 0), ("A",)) for i, (p, k, _) in enumerate(case)]
    if ags[0].ctl is None:
        return
    stars = [SHAPES[sh](*c08.MB[b]) for _, _, b in case]
    verify(ags, stars, 1.5, 0.5, st, mh=6, aligned=False)


def seg_cases():
    return [c + (sl,) for i, c in enumerate(tree_cases()) for sl in (1, 2) if THOROUGH or pick((c, sl, 3), 8)]


def seg(case, st):
    """How many initial stars are combined does not matter."""
    *c, sl = case
    e1, e2, k, b, o, sh = c
    ctl = Ctl(c02.edge_stmts([(s, c08.GUARDS[g], d, c08.RESETS[r]) for s, g, d, r in (e1, e2)]))
    verify([RAgent("a", ctl, c08.RATES[k], (0, 0), ("A",))], [SHAPES[sh](*c08.BOXES[b])], 2.0, 0.5, st, mh=4, aligned=False, seg=sl)


def lane_cases():
    return [(c, sh) for i, c in enumerate(c08.lane_cases()) for j, sh in enumerate(SHAPES) if THOROUGH or pick((c, sh, 3), 16)]


def lane(case, st):
    (e1, e2, t, b), sh = case
    rm = c02.RefMap(c02.TABLES[t])

    def allowed(a, src, dst):
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    verify([RAgent("a", c02.lane_ctl((e1, e2)), c02.LRATES, (0, 0), ("Normal", "T0"))], [SHAPES[sh](*c08.BOXES[b])], 2.0, 0.5, st, mh=4, aligned=False, map_=c02.TableMap(c02.TABLES[t]), allowed=allowed, extra={"track_map": rm})


# ---- the star sensors ------------------------------------------------------------------------------------
CRAFT = ("xp", "yp", "xd", "yd", "total_time", "cycle_time")
CRAFT_SRC = """from enum import Enum, auto
import copy
from typing import List
class CraftMode(Enum):
    ProxA = auto()
    ProxB = auto()
class State:
    {}
    craft_mode: CraftMode
    def __init__(self, {}, craft_mode: CraftMode):
        pass
def decisionLogic(ego: State, others: List[State]):
    output = copy.deepcopy(ego)
    if ego.craft_mode == CraftMode.ProxA and ego.xp >= 1:
        output.craft_mode = CraftMode.ProxB
    return output
""".format("\n    ".join(f"{x}: float" for x in CRAFT), ", ".join(CRAFT))


def sensor_cases():
    return [(n, ego, order, modes, sim) for n in (1, 2, 3) for ego in range(n) for order in itertools.permutations(range(n)) for modes in itertools.product(("ProxA", "ProxB"), repeat=n) for sim in (False, True)]


def sensor(case, st):
    """Both star sensors report the star of each agent for each of its fields, and its modes."""
    n, ego, order, modes, sim = case
    ags = {f"a{i}": RateAgent(f"a{i}", code=CRAFT_SRC, rates={"ProxA": [0.0] * 6, "ProxB": [0.0] * 6}) for i in range(n)}
    stars = {f"a{i}": StarSet(np.arange(6.0) + i, np.eye(6), np.concatenate([np.eye(6), -np.eye(6)]), np.ones(12)) for i in range(n)}
    state = {f"a{i}": ([0.5, stars[f"a{i}"]], (modes[i],), []) for i in order}
    exp = {f"ego.{x}": stars[f"a{ego}"] for x in CRAFT}
    disc = {"ego.craft_mode": modes[ego]}
    for i in order:
        if i != ego:
            for x in CRAFT:
                exp.setdefault(f"others.{x}", []).append(stars[f"a{i}"])
            disc.setdefault("others.craft_mode", []).append(modes[i])
    for cls in (BaseStarSensor, CraftStarSensor):
        c, d, l = cls().sense(ags[f"a{ego}"], state, None, sim)
        st.add("queries")
        same = c.keys() == exp.keys() and all(c[k] is v if not isinstance(v, list) else len(c[k]) == len(v) and all(a is b for a, b in zip(c[k], v)) for k, v in exp.items())
        need(same, "a star sensor reports something else than the stars of the agents", sensor=cls.__name__, case=case, got={k: str(v) for k, v in c.items()})
        need(d == disc and l["others"] == n - 1, "a star sensor reports other modes", sensor=cls.__name__, case=case, got=(d, l), want=disc)
    st.outcome((n, ego, modes))


GROUPS = {
    "sensor": (sensor, sensor_cases),
    "query": (query, all_stars), "images": (images, all_stars), "pair": (pair, pair_cases), "guard": (guard, guard_cases), "step": (step, step_cases),
    "tree": (tree, tree_cases), "seg": (seg, seg_cases), "multi": (multi, multi_cases), "lane": (lane, lane_cases),
}
CASES = {n: f for n, (f, _) in GROUPS.items()}


def main():
    ck = core.Check("C19")
    ck.bounds = {
        "query/images": f"{len(all_stars())} stars (1-3 dimensions, {len(BASES2)} generator choices, 10 constraint systems, empty, degenerate and with redundant constraints among them) x directions, points of a grid, half spaces from touching widely to missing, 3 affine maps",
        "pair": "pairs of stars (quick: a quarter)",
        "guard": f"{len(CONDS)} conditions over ego and up to 2 others x 4 signatures x 5 choices of stars x thresholds on both sides of the extremes (quick: a quarter), as guard and as assertion",
        "step": "the decision-step families of C06 and the map-function family of C10 over stars (quick: an eighth)",
        "tree/seg": "the two-edge automata of C08 from 4 star shapes (quick: a sixteenth), combining 1, 2 or all initial stars",
        "sensor": "both star sensors, 1-3 agents in every order and mode",
        "multi": "the pairs and triples of C08 (quick: one shape each)",
        "lane": "the lane-changing agents of C08 (quick: a quarter, one shape each)",
    }
    ck.assumptions = [
        "pca=False (the sampling-based tube needs scikit-learn, which is not installed, and claims no soundness)",
        "flows are decoupled and constant-rate, so the tubes DryVR learns are exact",
        "resets are affine and read the agent's own variables (documented limits of star resets)",
        "times are relative to the segment in which an agent first enters a mode",
    ]
    for n, (f, c) in GROUPS.items():
        ck.explore(n, f, c())
    c = ck.stats.c
    return ck.finish(c.get("stars", 0) + c.get("verify_nodes", 0), c.get("queries", 0), c.get("queries", 0) + c.get("executions", 0))
