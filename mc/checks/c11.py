"""C11: the tube of one mode encloses all trajectories from its initial set, for every reachability method.

DryVR (PW, GLOBAL, discrete): agents whose flows are x_i(t) = f_i(t) x_i(0) + g_i(t), where learning from samples is
exact, so that the whole tube is known; for other flows the tube has to contain every trajectory it was learned from.
Mixed monotone (continuous, discrete in its three forms): all trajectories from the corners, edges and middle of the
set under all sequences of extreme disturbances.
Modes entered by several sets, for every method.
"""
import io, itertools, math, sys, types
import numpy as np
from scipy.linalg import expm
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..world import cfg, times, enums
from verse import BaseAgent, Scenario
from verse.analysis import ReachabilityMethod as RM
from verse.parser.parser import ControllerIR

try:  # astunparse needs it, and old releases of six do not provide it on Python 3.12
    import six.moves
except ImportError:
    sys.modules["six.moves"] = types.ModuleType("six.moves")
    sys.modules["six.moves"].cStringIO = io.StringIO

FLOWS = {
    "const": (lambda t: 1.0 + 0 * t, lambda t: 0 * t),
    "up": (lambda t: 1.0 + 0 * t, lambda t: 1.5 * t),
    "down": (lambda t: 1.0 + 0 * t, lambda t: -0.75 * t),
    "grow": (lambda t: np.exp(0.5 * t), lambda t: 0 * t),
    "decay": (lambda t: np.exp(-t), lambda t: t),
    "flip": (lambda t: 1 - 2 * t, lambda t: 0.3 * t),
    "sway": (lambda t: 1.0 + 0 * t, lambda t: np.sin(3 * t)),
    "vanish": (lambda t: np.maximum(0.0, 1 - 2 * t), lambda t: -t),
    "bump": (lambda t: 1 + t * np.exp(-t), lambda t: 0 * t),
}
FN = list(FLOWS)
SIZES = [(0.0, 0.0), (3.0, 0.0), (0.0, 0.5), (-40.0, 2.0), (1.5, 1e-3), (200.0, 30.0)]  # center, half width
TIMES = [(1, 0.25), (0.5, 0.5), (1, 0.1), (0.9, 0.3), (2, 0.125), (1.1, 0.1)]
METHODS = [("PW", RM.DRYVR, {}), ("PW", RM.DRYVR, {"bloating_method": "PW"}), ("GLOBAL", RM.DRYVR, {"bloating_method": "GLOBAL"}), ("PW", RM.DRYVR_DISC, {}), ("GLOBAL", RM.DRYVR_DISC, {"bloating_method": "GLOBAL"})]


class Flow(BaseAgent):
    def __init__(self, id, fs, code=None):
        if code is None:
            self.id = id
            self.decision_logic = ControllerIR.empty()
            self.init_cont = self.init_disc = self.static_parameters = self.uncertain_parameters = None
        else:
            super().__init__(id, code=code)
        self.fs = fs
        self.log = []

    def run(self, x0, t):
        return np.array([FLOWS[f][0](t) * x + FLOWS[f][1](t) for f, x in zip(self.fs, x0)]).T

    def TC_simulate(self, mode, init, T, dt, lane_map=None):
        t = times(T, dt)
        self.log.append((mode, tuple(init), T, dt, lane_map))
        return np.hstack([t.reshape(-1, 1), self.run(init, t)])


def envelope(t, v, x):
    """upper concave envelope of the points (t, v) at x"""
    best = -math.inf
    for i in range(len(t)):
        for j in range(len(t)):
            if t[i] <= x <= t[j]:
                y = v[i] if i == j else v[i] + (v[j] - v[i]) * (x - t[i]) / (t[j] - t[i])
                best = max(best, y)
    return best


def radius(kind, f, r, t):
    """half width of the tube at each sample"""
    s = np.abs(FLOWS[f][0](t))
    if kind == "PW":
        return r * s
    if r == 0:  # nothing to learn: a small constant
        return np.r_[0.0, np.full(len(t) - 1, 1e-6)]
    v = np.log(np.maximum(s, 1e-6))
    v[0] = 0.0
    return r * np.exp([envelope(t, v, x) for x in t])


def rows_expected(t, lo, hi, disc):
    if disc:
        return [(np.r_[t[i], lo[i]], np.r_[t[i], hi[i]]) for i in range(len(t))]
    return [(np.r_[t[i], np.minimum(lo[i], lo[i + 1])], np.r_[t[i + 1], np.maximum(hi[i], hi[i + 1])]) for i in range(len(t) - 1)]


def compare_rows(tr, exp, tol, what):
    tr = np.array(tr)
    if len(tr) != 2 * len(exp):
        raise Violation(f"{what}: number of segments", got=len(tr) / 2, expected=len(exp), tube=tr)
    for i, (a, b) in enumerate(exp):
        w = tol * (1 + np.abs(a) + np.abs(b))
        if np.any(np.abs(tr[2 * i] - a) > w) or np.any(np.abs(tr[2 * i + 1] - b) > w):
            raise Violation(f"{what}: segment differs", segment=i, got=tr[2 * i : 2 * i + 2], expected=[a, b])


def flow(case, st):
    fs, sizes, tk, mk = case
    T, dt = TIMES[tk]
    kind, method, params = METHODS[mk]
    fs = [FN[i] for i in fs]
    box = [[SIZES[s][0] - SIZES[s][1] for s in sizes], [SIZES[s][0] + SIZES[s][1] for s in sizes]]
    keep = [list(b) for b in box]
    ag = Flow("a", fs)
    s = Scenario(cfg(reachability_method=method))
    s.add_agent(ag)
    s.set_init_single("a", box, ("m",))
    tree = s.verify(T, dt, params=params)
    tr = tree.root.trace["a"]
    t = times(T, dt)
    mid = ag.run([SIZES[k][0] for k in sizes], t)
    rad = np.array([radius(kind, f, SIZES[k][1], t) for f, k in zip(fs, sizes)]).T
    compare_rows(tr, rows_expected(t, mid - rad, mid + rad, method == RM.DRYVR_DISC), 2e-6, "tube of the mode")
    if box != keep:
        raise Violation("the initial set was modified", got=box, expected=keep)
    for mode, x, TT, d, lm in ag.log:
        if list(mode) != ["m"] or abs(TT - T) > 1e-9 or d != dt or lm is not s.map:
            raise Violation("dynamics were called with other arguments", got=str((mode, TT, d, lm)))
        if any(not (lo - 1e-9 <= v <= hi + 1e-9) for lo, v, hi in zip(box[0], x, box[1])):
            raise Violation("simulated from outside of the initial set", got=x, box=box)
    st.add("segments", len(tr) // 2)
    st.outcome((case, round(float(np.sum(tr)), 4)))


def flow_cases():
    out = []
    n = len(FN)
    S = range(len(SIZES))
    for f in range(n):
        for k, t, m in itertools.product(S, range(len(TIMES)), range(len(METHODS))):
            out.append(((f,), (k,), t, m))
    for f, g in itertools.product(range(n), repeat=2):
        for j, (a, b) in enumerate(itertools.product(S, repeat=2)):
            for m in range(len(METHODS)):
                if THOROUGH or pick((j, f, g, m), 9):
                    for t in range(len(TIMES)) if THOROUGH else (draw((j, f, g, m, 1), len(TIMES)),):
                        out.append(((f, g), (a, b), t, m))
    for j, (fs, ks) in enumerate(itertools.product(itertools.product((1, 4, 5), (3, 6, 7), (0, 8)), itertools.product((0, 2, 3, 4), repeat=3))):
        for m in (0, 2, 3, 4):
            if THOROUGH or pick((j, m), 13):
                out.append((fs, ks, draw((j, m, 1), len(TIMES)), m))
    return out


# ---- other dynamics: at least what it was learned from ------------------------------------------------------
class Free(Flow):
    KINDS = ("swap", "mix", "mul", "wall", "quad")

    def run(self, x0, t):
        k = self.fs
        x, y = x0
        if k == "swap":
            return np.array([x * np.cos(t) - y * np.sin(t), x * np.sin(t) + y * np.cos(t)]).T
        if k == "mix":
            return np.array([x + y * t, y + 0 * t]).T
        if k == "mul":
            return np.array([x + x * y * t, y + t]).T
        if k == "wall":
            return np.array([np.minimum(x + t, max(x, 1.0)), np.maximum(y - x * t, min(y, -1.0))]).T
        return np.array([x + 0.1 * x * x * t, y - x * t * t]).T

    def TC_simulate(self, mode, init, T, dt, lane_map=None):
        r = super().TC_simulate(mode, init, T, dt, lane_map)
        self.out = getattr(self, "out", []) + [r.copy()]
        return r


def free(case, st):
    kind, sizes, tk, mk = case
    T, dt = TIMES[tk]
    _, method, params = METHODS[mk]
    box = [[SIZES[s][0] - SIZES[s][1] for s in sizes], [SIZES[s][0] + SIZES[s][1] for s in sizes]]
    ag = Free("a", kind)
    s = Scenario(cfg(reachability_method=method))
    s.add_agent(ag)
    s.set_init_single("a", box, ("m",))
    tr = np.array(s.verify(T, dt, params=params).root.trace["a"])
    t = times(T, dt)
    disc = method == RM.DRYVR_DISC
    n = len(t) if disc else len(t) - 1
    if len(tr) != 2 * n:
        raise Violation("number of segments", got=len(tr) / 2, expected=n)
    if len(ag.out) < 2 and any(SIZES[k][1] for k in sizes):
        raise Violation("sensitivity was not learned from several trajectories", got=len(ag.out))
    w = 1e-6 * (1 + np.abs(tr).max())
    for i in range(n):
        for j in (i,) if disc else (i, i + 1):
            for r in ag.out:
                if np.any(r[j] < tr[2 * i] - w) or np.any(r[j] > tr[2 * i + 1] + w):
                    raise Violation("a simulated trajectory leaves the tube", segment=i, state=r[j], tube=tr[2 * i : 2 * i + 2])
        if i == 0 and (np.any(tr[0][1:] > np.array(box[0]) + w) or np.any(tr[1][1:] < np.array(box[1]) - w)):
            raise Violation("the tube does not start with the initial set", got=tr[:2], box=box)
    st.add("segments", n)
    st.outcome((case, round(float(tr.sum()), 3)))


def free_cases():
    return [
        (k, (a, b), t, m)
        for j, (k, a, b, t, m) in enumerate(itertools.product(Free.KINDS, range(len(SIZES)), range(len(SIZES)), range(len(TIMES)), range(len(METHODS))))
        if THOROUGH or j % 7 == 0
    ]


# ---- mixed monotone ------------------------------------------------------------------------------------------
LIN = {  # A, B, c
    "up": ([[0.5]], [[1.0]], [0.0]),
    "down": ([[-1.0]], [[-2.0]], [0.3]),
    "chain": ([[0.0, 1.0], [0.0, -0.5]], [[0.0], [1.0]], [0.0, 0.2]),
    "anti": ([[-0.2, -1.0], [-0.5, 0.1]], [[1.0, 0.0], [0.0, -1.0]], [0.0, 0.0]),
    "spin": ([[0.0, -1.0], [1.0, 0.0]], [[0.0], [0.0]], [0.1, 0.0]),
    "three": ([[-1.0, 0.5, 0.0], [0.0, -1.0, -0.5], [0.3, 0.0, 0.0]], [[1.0], [0.0], [-1.0]], [0.0, 1.0, 0.0]),
}
WS = [(0.0, 0.0), (-0.1, 0.2), (0.3, 0.3), (-1.0, 1.0)]


class Bare(BaseAgent):
    def __init__(self, id, code=None):
        if code is None:
            self.id = id
            self.decision_logic = ControllerIR.empty()
            self.init_cont = self.init_disc = self.static_parameters = self.uncertain_parameters = None
        else:
            super().__init__(id, code=code)


class LinCont(Bare):
    def __init__(self, id, sys, code=None):
        super().__init__(id, code)
        self.A, self.B, self.c = (np.array(m) for m in LIN[sys])

    def dynamics(self, x, args):
        return (self.A @ np.array(x) + self.B @ np.array(args) + self.c).tolist()

    def decomposition(self, x, w, xhat, what):
        x, w, xhat, what = (np.array(v) for v in (x, w, xhat, what))
        D = np.diag(np.diag(self.A))
        M = self.A - D
        return D @ x + np.maximum(M, 0) @ x + np.minimum(M, 0) @ xhat + np.maximum(self.B, 0) @ w + np.minimum(self.B, 0) @ what + self.c


def cont(case, st):
    name, sizes, wk, tk = case
    A, B, c = (np.array(m) for m in LIN[name])
    n, m = B.shape
    T, dt = TIMES[tk]
    box = [[SIZES[s][0] - SIZES[s][1] for s in sizes], [SIZES[s][0] + SIZES[s][1] for s in sizes]]
    wb = [[WS[(wk + i) % len(WS)][0] for i in range(m)], [WS[(wk + i) % len(WS)][1] for i in range(m)]]
    keep = str((box, wb))
    ag = LinCont("a", name)
    s = Scenario(cfg(reachability_method=RM.MIXMONO_CONT))
    s.add_agent(ag)
    s.set_init_single("a", box, ("m",), uncertain_param=wb)
    tr = np.array(s.verify(T, dt).root.trace["a"])
    t = times(T, dt)
    # the embedding system, exactly
    D = np.diag(np.diag(A))
    P, N = D + np.maximum(A - D, 0), np.minimum(A - D, 0)
    E = np.block([[P, N], [N, P]])
    Bp, Bn = np.maximum(B, 0), np.minimum(B, 0)
    u = np.r_[Bp @ wb[0] + Bn @ wb[1] + c, Bp @ wb[1] + Bn @ wb[0] + c]
    F = expm(np.block([[E, u.reshape(-1, 1)], [np.zeros((1, 2 * n + 1))]]) * dt)
    z = np.r_[box[0], box[1], 1.0]
    lo, hi = [z[:n]], [z[n : 2 * n]]
    for _ in t[1:]:
        z = F @ z
        lo.append(z[:n])
        hi.append(z[n : 2 * n])
    compare_rows(tr, rows_expected(t, np.array(lo), np.array(hi), False), 1e-4, "mixed monotone tube")
    # trajectories under piecewise constant disturbances
    W = sorted(set(itertools.product(*(((a, b) if a != b else (a,)) for a, b in zip(*wb)))))
    step = {w: expm(np.block([[A, (B @ np.array(w) + c).reshape(-1, 1)], [np.zeros((1, n + 1))]]) * dt) for w in W}
    cur = {tuple(x) for x in itertools.product(*({a, (a + b) / 2, b} for a, b in zip(*box)))}
    tol = 1e-4 * (1 + np.abs(tr).max())
    for i in range(len(t) - 1):
        nxt = {}
        for x in cur:
            for w in W:
                y = (step[w] @ np.r_[x, 1.0])[:n]
                nxt[tuple(np.round(y, 9))] = y
                for p in (np.array(x), y):
                    if np.any(p < tr[2 * i][1:] - tol) or np.any(p > tr[2 * i + 1][1:] + tol):
                        raise Violation("a trajectory leaves the mixed monotone tube", segment=i, state=p, tube=tr[2 * i : 2 * i + 2], w=w)
        st.add("states", len(nxt))
        cur = list(nxt.values())
        if len(cur) > 200:  # the extreme ones in every direction
            M = np.array(cur)
            ds = [np.array(d) for d in itertools.product((-1, 0, 1), repeat=n) if any(d)]
            cur = [M[k] for k in sorted({int(f(M @ d)) for d in ds for f in (np.argmax, np.argmin)})]
    if str((box, wb)) != keep:
        raise Violation("the initial set or the parameters were modified", got=str((box, wb)), expected=keep)
    st.add("segments", len(tr) // 2)
    st.outcome((case, round(float(tr.sum()), 3)))


def cont_cases():
    out = []
    for name, (A, B, c) in LIN.items():
        for j, (ks, w, t) in enumerate(itertools.product(itertools.product(range(len(SIZES)), repeat=len(A)), range(len(WS)), range(len(TIMES)))):
            if THOROUGH and (len(A) < 3 or j % 5 == 0) or j % {1: 1, 2: 5, 3: 41}[len(A)] == 0:
                out.append((name, ks, w, t))
    return out


class Dec(Bare):
    """decomposition given"""


class Jac(Bare):
    """jacobian given"""


class Src(Bare):
    """source read"""


def lv(x1, x2, w1, w2, dt):
    return [x1 + dt * (x1 * (1.1 + w1 - x1 - 0.1 * x2)), x2 + dt * (x2 * (4 + w2 - 3 * x1 - x2))]


class LVSrc(Src):
    def dynamics(self, x, args):
        w1, w2, dt = args
        x1, x2 = x
        """Begin Dynamic"""
        x1_plus = x1 + dt * (x1 * (1.1 + w1 - x1 - 0.1 * x2))
        x2_plus = x2 + dt * (x2 * (4 + w2 - 3 * x1 - x2))
        """End Dynamic"""
        return [x1_plus, x2_plus]


class LVJac(Jac):
    def dynamics(self, x, args):
        return lv(*x, *args)

    def dynamics_jac(self, x, args):
        (x1, x2), (w1, w2, dt) = x, args
        return np.array([[1 + dt * (1.1 + w1 - 2 * x1 - 0.1 * x2), -0.1 * dt * x1, dt * x1, 0], [-3 * dt * x2, 1 + dt * (4 + w2 - 3 * x1 - 2 * x2), 0, dt * x2]])


class LVDec(Dec):
    def dynamics(self, x, args):
        return lv(*x, *args)

    def decomposition(self, x, w, xhat, what, dt):
        return [lv(x[0], xhat[1], w[0], w[1], dt)[0], lv(xhat[0], x[1], w[0], w[1], dt)[1]]


def ln(p, q, v, dt):
    return [p + dt * (2 * q - v), q - dt * (p + 0.5 * q) + 0.25 * v, -0.5 * p + 0.75]


class LNSrc(Src):
    def dynamics(self, state, args):
        return ln(*state[:2], *args)

    def dynamics(self, x, args):
        v, dt = args
        p, q, r = x
        """Begin Dynamic"""
        p_plus = p + dt * (2 * q - v)
        q_plus = q - dt * (p + 0.5 * q) + 0.25 * v
        r_plus = -0.5 * p + 0.75
        """End Dynamic"""
        return [p_plus, q_plus, r_plus]


class LNJac(Jac):
    def dynamics(self, x, args):
        return ln(x[0], x[1], *args)

    def dynamics_jac(self, x, args):
        dt = args[-1]
        return np.array([[1, 2 * dt, 0, -dt], [-dt, 1 - 0.5 * dt, 0, 0.25], [-0.5, 0, 0, 0]])


class LNDec(Dec):
    def dynamics(self, x, args):
        return ln(x[0], x[1], *args)

    def decomposition(self, x, w, xhat, what, dt):
        return [ln(x[0], x[1], what[0], dt)[0], ln(xhat[0], x[1], w[0], dt)[1], ln(xhat[0], x[1], w[0], dt)[2]]


def nm(beta, E, gamma, w, I, dt):
    return [beta + dt * (w + gamma), E - dt * beta + 2 * dt * I, 0.25]


class NMSrc(Src):
    def dynamics(self, x, args):
        w, I, dt = args
        beta, E, gamma = x
        """Begin Dynamic"""
        beta_plus = beta + dt * (w + gamma)
        E_plus = E - dt * beta + 2 * dt * I
        gamma_plus = 0.25
        """End Dynamic"""
        return [beta_plus, E_plus, gamma_plus]


class NMJac(Jac):
    def dynamics(self, x, args):
        return nm(*x, *args)

    def dynamics_jac(self, x, args):
        dt = args[-1]
        return np.array([[1, 0, dt, dt, 0], [-dt, 1, 0, 0, 2 * dt], [0, 0, 0, 0, 0]])


class NMDec(Dec):
    def dynamics(self, x, args):
        return nm(*x, *args)

    def decomposition(self, x, w, xhat, what, dt):
        return [nm(*x, *w, dt)[0], nm(xhat[0], *x[1:], *w, dt)[1], 0.25]


DISC = {
    "nm": (nm, (NMSrc, NMJac, NMDec), 3, [([0.0, 1.0, 0.5], [1.0, 1.0, 1.5]), ([2.0, -3.0, 0.25], [2.5, -1.0, 0.25])], [([0.0, 0.0], [0.0, 0.0]), ([-0.5, 1.0], [1.0, 2.0])], [(0.75, 0.25), (0.5, 0.5)]),
    "lv": (lv, (LVSrc, LVJac, LVDec), 2, [([1.0, 1.0], [1.0, 1.0]), ([0.9, 1.2], [1.1, 1.2]), ([0.9, 1.0], [1.1, 1.3])], [([0.0, 0.0], [0.0, 0.0]), ([-0.1, 0.0], [0.1, 0.2]), ([0.2, -0.1], [0.2, 0.0])], [(0.3, 0.1), (0.05, 0.05), (0.2, 0.05)]),
    "ln": (lambda p, q, r, v, dt: ln(p, q, v, dt), (LNSrc, LNJac, LNDec), 3, [([0.0, 0.0, 0.0], [0.0, 0.0, 0.0]), ([-1.0, 2.0, 0.0], [1.0, 2.5, 0.0]), ([5.0, -3.0, 1.0], [5.5, 3.0, 2.0])], [([0.0], [0.0]), ([-0.5], [1.0]), ([2.0], [2.0])], [(0.75, 0.25), (0.5, 0.5), (1.0, 0.25)]),
}


def disc(case, st):
    name, form, bk, wk, tk = case
    f, cls, n, boxes, ws, ts = DISC[name]
    (lo, hi), wb, (T, dt) = boxes[bk], ws[wk], ts[tk]
    ag = cls[form]("a")
    s = Scenario(cfg(reachability_method=RM.MIXMONO_DISC))
    s.add_agent(ag)
    s.set_init_single("a", [list(lo), list(hi)], ("m",), uncertain_param=[list(wb[0]), list(wb[1])])
    tr = np.array(s.verify(T, dt).root.trace["a"])
    t = times(T, dt)
    # exact boxes: the map is monotone in every variable here, so that extremes are at corners
    L, H = [np.array(lo)], [np.array(hi)]
    for _ in t[1:]:
        v = np.array([f(*x, *w, dt) for x in itertools.product(*zip(L[-1], H[-1])) for w in itertools.product(*zip(*wb))])
        L.append(v.min(axis=0))
        H.append(v.max(axis=0))
    compare_rows(tr, rows_expected(t, np.array(L), np.array(H), False), 1e-5, "mixed monotone tube")
    cur = list(itertools.product(*({a, (a + b) / 2, b} for a, b in zip(lo, hi))))
    tol = 1e-5 * (1 + np.abs(tr).max())
    for i in range(len(t) - 1):
        nxt = set()
        for x in cur:
            for w in itertools.product(*({a, b} for a, b in zip(*wb))):
                y = f(*x, *w, dt)
                nxt.add(tuple(round(v, 9) for v in y))
                for p in (np.array(x), np.array(y)):
                    if np.any(p < tr[2 * i][1:] - tol) or np.any(p > tr[2 * i + 1][1:] + tol):
                        raise Violation("a trajectory leaves the mixed monotone tube", segment=i, state=p, tube=tr[2 * i : 2 * i + 2], w=w)
        cur = sorted(nxt)[:: max(1, len(nxt) // 300)]
        st.add("states", len(nxt))
    st.add("segments", len(tr) // 2)
    st.outcome((case, round(float(tr.sum()), 4)))


def disc_cases():
    return [(k, form, b, w, t) for k, d in DISC.items() for form in range(3) for b in range(len(d[3])) for w in range(len(d[4])) for t in range(len(d[5]))]


# ---- a mode entered by several sets ------------------------------------------------------------------------
MODES = (("AMode", ("A", "B")),)
FIELDS = (("x", "float"), ("y", "float"), ("mode", "AMode"))
ENTRY = [("PW", RM.DRYVR, {}), ("GLOBAL", RM.DRYVR, {"bloating_method": "GLOBAL"}), ("DISC", RM.DRYVR_DISC, {}), ("DISCG", RM.DRYVR_DISC, {"bloating_method": "GLOBAL"}), ("MC", RM.MIXMONO_CONT, {}), ("MD", RM.MIXMONO_DISC, {})]


class Mover(Flow):
    """both modes move by the same rates, whatever the method asks for"""

    R = (1.0, 0.5)

    def run(self, x0, t):
        return np.array([x0[0] + self.R[0] * t, x0[1] + self.R[1] * t]).T

    def dynamics(self, x, args):
        if len(args) == 2:
            return [x[0] + self.R[0] * args[-1], x[1] + self.R[1] * args[-1]]
        return list(self.R)

    def decomposition(self, x, w, xhat, what, dt=None):
        return [x[0] + self.R[0] * dt, x[1] + self.R[1] * dt] if dt is not None else list(self.R)


def entry(case, st):
    mk, wid, c, reset, slack = case
    kind, method, params = ENTRY[mk]
    acts = [("set", "mode", "AMode.B")] + ([("set", "x", "ego.x - 10")] if reset else [])
    ctl = Ctl([("if", f"ego.mode == AMode.A and ego.x >= {c!r} and ego.x <= {c + slack!r}", acts, [])], modes=MODES, fields=FIELDS)
    ag = Mover("a", None, code=ctl.source())
    s = Scenario(cfg(reachability_method=method))
    s.add_agent(ag)
    T, dt = 3.0, 0.5
    box = [[0.0, -1.0], [wid, 1.0]]
    s.set_init_single("a", box, enums(ctl, ("A",)), uncertain_param=[[0.0], [0.0]])
    tree = s.verify(T, dt, params=params)
    kids = [(k.start_time, np.array(k.trace["a"])) for k in tree.root.child if k.mode["a"][0] == "B"]
    t = times(T, dt)
    n = 0
    for x0 in np.linspace(0.0, wid, 13):
        for i, te in enumerate(t[:-1]):
            x = x0 + te
            if not (c <= x <= c + slack) or any(c <= x0 + u <= c + slack for u in t[:i]):
                continue
            e = x - 10 if reset else x
            for y0 in (-1.0, 0.0, 1.0):
                n += 1
                ok = False
                for ts, tr in kids:
                    good = True
                    for k in range(len(tr) // 2):
                        u = k * dt
                        if te + u > T + 1e-9:
                            break
                        p = np.array([e + u, y0 + 0.5 * te + 0.5 * u])
                        if np.any(p < tr[2 * k][1:] - 1e-4) or np.any(p > tr[2 * k + 1][1:] + 1e-4):
                            good = False
                            break
                    ok |= good
                if not ok:
                    raise Violation("an execution that entered the mode is not in its tube", entered_at=te, state=[e, y0 + 0.5 * te], tubes=[(a, b[:4].tolist()) for a, b in kids], method=kind)
    st.add("entries", n)
    st.outcome((case, n, len(kids)))


def entry_cases():
    return [(m, w, c, r, sl) for m in range(len(ENTRY)) for w in (0.0, 0.3, 1.0, 1.9) for c in (0.9, 1.2, 1.6) for r in (0, 1) for sl in (0.7, 1.4, 90.0)]


CASES = {"flow": flow, "free": free, "cont": cont, "disc": disc, "entry": entry}


def main():
    ck = core.Check("C11")
    ck.bounds = {
        "flow": "all flows (9) x sizes (6) x time grids (5) x methods (5) in one dimension, all pairs (quick: a 9th), triples",
        "free": "5 coupled or nonlinear flows, 36 boxes, time grids, methods (quick: a 7th)",
        "cont": "6 linear systems with disturbances, exact embedding solution; all corner/edge/middle states under all extreme disturbance sequences (beyond 200 states: the extreme ones)",
        "disc": "2 systems x 3 forms x 3 boxes x 3 disturbance sets x 3 time grids",
        "entry": "6 methods x 72 scenarios in which a mode is entered by several sets",
    }
    ck.assumptions = ["DryVR's sampling is exact for decoupled affine flows", "a trajectory of a mode entered at several times is compared by its time since entry", "discrete mixed monotone dynamics are monotone in each variable on the sets"]
    ck.explore("flow", flow, flow_cases())
    ck.explore("free", free, free_cases())
    ck.explore("cont", cont, cont_cases())
    ck.explore("disc", disc, disc_cases())
    ck.explore("entry", entry, entry_cases())
    c = ck.stats.c
    return ck.finish(c.get("segments", 0) + c.get("states", 0), c.get("states", 0) + c.get("entries", 0), c.get("segments", 0))
