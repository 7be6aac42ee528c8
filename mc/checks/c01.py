"""C01: the compiled decision logic means what the controller source says (one decision step).

Every program of a bounded grammar x every abstract state; oracle: a direct interpreter of the source text.
The step is observed through the public API: one simulation of one time step of a scenario of static agents.
"""
import itertools
from .. import core
from ..core import Violation, THOROUGH
from ..prog import Ctl
from ..world import RateAgent, cfg, enums, norm_asserts, mode_t, rvec
from verse import Scenario

TESTS = ("ego.x > 1", "ego.y > 1", "ego.mode == AMode.A")
SETS = (("set", "mode", "AMode.B"), ("set", "mode", "AMode.C"), ("set", "y", "ego.x + 2"), ("set", "x", "-ego.y"))


def observe(ctl, states, others=(), stats=None, sc_cfg=None, map_=None, static=None, octl=None):
    """Simulate one step from every state; yield (state, successors, asserts)."""
    s = Scenario(cfg(**(sc_cfg or {})))
    s.add_agent(RateAgent("ego1", code=ctl.source()))
    for i in range(len(others)):
        s.add_agent(RateAgent(f"o{i}", code=None))
    if map_ is not None:
        s.set_map(map_)
    for cont, disc in states:
        oc = [o[0] for o in others]
        om = [o[1] for o in others]
        s.set_init([[list(cont)]] + [[list(c)] for c in oc], [enums(ctl, disc)] + [enums(octl or ctl, m) for m in om])
        tree = s.simulate(0.5, 0.5, max_height=2)
        s.past_runs.clear()
        root = tree.root
        succ = {(mode_t(c.mode["ego1"]), rvec(c.init["ego1"])) for c in root.child}
        if stats is not None:
            stats.add("impl_steps")
            stats.add("impl_successors", len(succ))
        yield (cont, disc), succ, norm_asserts(root.assert_hits).get("ego1", frozenset()), root


def compare(ctl, states, others, stats, mk_env=None):
    for (cont, disc), succ, hits, root in observe(ctl, states, others, stats):
        env = {"ego": ctl.obj(cont, disc), "others": [ctl.obj(*o) for o in others]}
        if mk_env:
            mk_env(env)
        asserts, out = ctl.step(env)
        bad = {l for _, l, v in asserts if v}
        exp = {(d, rvec(c)) for d, c in ctl.apply(out, cont, disc)} if not bad else set()
        stats.outcome((sorted(exp), sorted(bad)))
        stats.add("states_compared")
        if exp:
            stats.add("enabled_states")
        if bad != set(hits):
            raise Violation("assertions differ", state=[cont, disc], got=sorted(hits), expected=sorted(bad), source=ctl.source(), others=others)
        if succ != exp:
            raise Violation(
                "successor set of one decision step differs from the source",
                state=[cont, disc], others=others, got=sorted(succ), expected=sorted(exp),
                missing=sorted(exp - succ), extra=sorted(succ - exp), source=ctl.source(),
            )


# ---- group 1: statement structure ---------------------------------------------------------
def blocks(ifs, sets, depth, top):
    """All statement-list skeletons with exactly `ifs` ifs and `sets` assignments; unlabelled."""
    if ifs == 0 and sets == 0:
        yield ()
        return
    # first statement is a set
    if sets > 0 and not top:
        for rest in blocks(ifs, sets - 1, depth, top):
            yield ("s",) + rest
    if ifs > 0 and depth > 0:
        for i1 in range(ifs):
            for s1 in range(sets + 1):
                for a in blocks(i1, s1, depth - 1, False):
                    if not a:
                        continue
                    for i2 in range(ifs - i1):
                        for s2 in range(sets - s1 + 1):
                            for b in blocks(i2, s2, depth - 1, False):
                                for rest in blocks(ifs - 1 - i1 - i2, sets - s1 - s2, depth, top):
                                    yield (("i", a, b),) + rest


def nslots(sk):
    t = s = 0
    for x in sk:
        if x == "s":
            s += 1
        else:
            a, b = nslots(x[1]), nslots(x[2])
            t += 1 + a[0] + b[0]
            s += a[1] + b[1]
    return t, s


def fill(sk, ts, ss):
    ts, ss = iter(ts), iter(ss)

    def go(sk):
        out = []
        for x in sk:
            if x == "s":
                out.append(next(ss))
            else:
                t = next(ts)
                a = go(x[1])
                b = go(x[2])
                out.append(("if", t, a, b))
        return out

    return go(sk)


def ident(stmts, ctx=()):
    return False


STATES8 = [((x, y), (m,)) for x in (0.0, 2.0) for y in (0.5, 3.0) for m in ("A", "D")]
MODES4 = (("AMode", ("A", "B", "C", "D")),)


def structure_cases():
    cases = []
    lim = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)] + ([(3, 3), (3, 1), (1, 4)] if THOROUGH else [])
    for ifs, sets in lim:
        for sk in blocks(ifs, sets, 3, True):
            nt, ns = nslots(sk)
            if ns != sets:
                continue
            # an else branch with nothing in it is the same program as no else: skeletons already differ only there
            for ts in itertools.product(range(3), repeat=nt):
                # canonical up to renaming of the tests for 3-if programs
                if nt >= 3 and not THOROUGH and any(t > max((-1,) + ts[:i]) + 1 for i, t in enumerate(ts)):
                    continue
                for ss in itertools.product(range(4), repeat=ns):
                    if ns >= 3 and not THOROUGH and not (ss[0] in (0, 2)):
                        continue
                    cases.append((sk, ts, ss))
    return cases


def structure(case, st):
    sk, ts, ss = case
    ctl = Ctl(fill(sk, [TESTS[t] for t in ts], [SETS[s] for s in ss]), modes=MODES4)
    st.add("programs")
    compare(ctl, STATES8, (), st)


# ---- group 2: expressions ---------------------------------------------------------------------
ATOMS = (
    "ego.x > 1", "ego.x >= 1", "ego.y < 1", "ego.y <= 1", "ego.x == ego.y", "ego.x != 1",
    "ego.mode == AMode.A", "ego.mode != AMode.B", "AMode.C == ego.mode", "ego.mode in [AMode.A, AMode.C]",
    "0 < ego.x <= 1", "ego.x + ego.y * 2 > 3", "ego.x - ego.y - 1 < 0", "(ego.x - (ego.y - 1)) < 1", "-ego.x < -1", "2 * (ego.x + ego.y) >= 4",
    "ego.x / 2 - ego.y > 0", "ego.x ** 2 > 2", "far(ego)", "near(ego, 1)", "lam(ego)", "lim < ego.x", "swap(ego.y, ego.x)", "nest(ego)",
    "any(o.x > ego.x for o in others)", "all(o.x > ego.x for o in others)", "any(o.mode == AMode.B for o in others)",
    "all(o.mode == ego.mode for o in others)", "any(gap(ego, o) < 1.5 for o in others)", "all(not (o.y <= ego.y) for o in others)",
    "any((o.x < ego.x and o.y > ego.y) for o in others)", "any(0 < o.x - ego.x < 2 for o in others)",
    "all((o.x > 0 or o.mode == AMode.A) for o in others)", "near2(ego, others)", "any(o.x > 1 for o in others if o.y > ego.y)",
    "all(o.x > 1 for o in others if o.y > ego.y)", "any(o.x > ego.x for o in others if o.mode == AMode.B)", "ego.x > lim2", "lim2 - lim > ego.y",
)
PRE = """
def far(e):
    return e.x > 1
def near(e, d):
    g = e.x - e.y
    return g < d
lam = lambda e: e.x + e.y > 2
lim = 1
def swap(x, y):
    return x - y > 0
def gap(a, b):
    return b.x - a.x
def nest(e):
    return far(e) or near(e, 0)
def near2(e, os):
    return any(gap(e, o) > 0 for o in os)
"""
OTHER_CFGS = ((), (((1.0, 0.0), ("B",)),), (((0.0, 2.0), ("A",)), ((2.0, 1.0), ("B",))), (((2.0, 2.0), ("C",)), ((2.0, 0.0), ("C",))))
STATES27 = [((x, y), (m,)) for x in (0.0, 1.0, 2.0) for y in (0.0, 1.0, 2.0) for m in ("A", "B", "C")]
STATES_S = [((x, y), (m,)) for x in (0.0, 1.0, 2.0) for y in (0.0, 2.0) for m in ("A", "B")]


def expr_cases():
    n = len(ATOMS)
    cases = [("atom", i, k) for i in range(n) for k in range(len(OTHER_CFGS))]
    pairs = [(i, j) for i in range(n) for j in range(n) if THOROUGH or (i * 7 + j) % 3 == 0 or i == j]
    forms = ("and", "or", "notand", "ornot", "elseif", "nestif")
    cases += [(f, (i, j), 2) for (i, j) in pairs for f in forms]
    tri = [0, 6, 10, 18, 24, 25, 28, 33]
    for i, j, k in itertools.product(tri, repeat=3):
        if len({i, j, k}) == 3:
            cases += [(f, (i, j, k), 2) for f in ("aob", "oab", "not3")]
    return cases


def expr_prog(case):
    f, a, k = case
    yes, no = ("set", "mode", "AMode.C"), ("set", "y", "ego.x - 5")
    raw = ("raw", "lim2 = 2 * ego.y - ego.x")
    if f == "atom":
        st = [("if", ATOMS[a], [yes], [no])]
    else:
        t = [f"({ATOMS[i]})" for i in a]
        if f == "and":
            st = [("if", f"{t[0]} and {t[1]}", [yes], [no])]
        elif f == "or":
            st = [("if", f"{t[0]} or {t[1]}", [yes], [no])]
        elif f == "notand":
            st = [("if", f"not ({t[0]} and {t[1]})", [yes], [no])]
        elif f == "ornot":
            st = [("if", f"{t[0]} or not {t[1]}", [yes], [no])]
        elif f == "elseif":
            st = [("if", t[0], [yes], [("if", t[1], [no], [("set", "x", "ego.y * 3 + 1")])])]
        elif f == "nestif":
            st = [("if", t[0], [("if", t[1], [yes], [])], [no])]
        elif f == "aob":
            st = [("if", f"{t[0]} and ({t[1]} or {t[2]})", [yes], [no])]
        elif f == "oab":
            st = [("if", f"{t[0]} or {t[1]} and {t[2]}", [yes], [no])]
        else:
            st = [("if", f"not ({t[0]} or not {t[1]}) or not {t[2]}", [yes], [no])]
    return Ctl([raw] + st, preamble=PRE)


def expr(case, st):
    st.add("programs")
    compare(expr_prog(case), STATES27 if case[0] == "atom" else STATES_S, OTHER_CFGS[case[2]], st)


# ---- group 3: assigned values and state layout ----------------------------------------------------
VALS = (
    ("x", "ego.x + 1"), ("x", "ego.y"), ("x", "-ego.x"), ("x", "2 * ego.x - ego.y"), ("x", "ego.x - (ego.y - 3)"), ("x", "(ego.x + 1) * (ego.y - 2)"),
    ("y", "5"), ("y", "ego.x / 4"), ("y", "ego.x ** 2 - 1"), ("y", "-2.5"), ("y", "lim"), ("y", "f(ego)"), ("y", "loc"), ("y", "g(ego.y, ego.x)"), ("z", "ego.x + ego.y + ego.z"),
    ("mode", "AMode.B"), ("mode", "AMode.A"), ("smode", "BMode.Q"), ("smode", "BMode.P"), ("mode", "ego.mode"),
)
PRE3 = """
lim = 7
def f(e):
    return e.x - 2 * e.y
def g(a, b):
    h = a - b
    return h * 2
"""
FIELDS = {
    0: (("x", "float"), ("y", "float"), ("z", "float"), ("mode", "AMode"), ("smode", "BMode")),
    1: (("mode", "AMode"), ("z", "float"), ("y", "float"), ("smode", "BMode"), ("x", "float")),
    2: (("smode", "BMode"), ("x", "float"), ("mode", "AMode"), ("z", "float"), ("y", "float")),
}
MODES2 = (("AMode", ("A", "B")), ("BMode", ("P", "Q", "A")))


def value_cases():
    n = len(VALS)
    c = [(lay, form, (i, j)) for lay in FIELDS for form in ("both", "two", "alt", "over", "dep") for i in range(n) for j in range(n)]
    return c


def value(case, st):
    lay, form, (i, j) = case
    a, b = ("set",) + VALS[i], ("set",) + VALS[j]
    if any(v == ("mode", "ego.mode") for v in (VALS[i], VALS[j])):
        # the identity assignment: in the source it is indistinguishable from leaving the variable alone
        st.add("identity_programs_skipped")
        return
    t1, t2 = "ego.x > 1", "ego.mode == AMode.A"
    if form == "both":
        body = [("if", t1, [a, b], [])]
    elif form == "two":
        body = [("if", t1, [a], []), ("if", t2, [b], [])]
    elif form == "alt":
        body = [("if", t1, [a], [b])]
    elif form == "over":
        body = [("if", t1, [a, ("if", t2, [b], [])], [])]
    else:
        body = [("if", t2, [("raw", "w = ego.y - 1"), ("set", "z", "w * ego.x"), a], [("raw", "w = ego.x"), b])]
    ctl = Ctl([("raw", "loc = ego.y + lim")] + body, modes=MODES2, fields=FIELDS[lay], preamble=PRE3)
    dn = ctl.disc()
    states = []
    for x, y in ((0.0, 1.0), (2.0, 3.0), (4.0, -1.0)):
        for m in ("A", "B"):
            d = {"mode": m, "smode": "P"}
            cv = {"x": x, "y": y, "z": 0.5}
            states.append((tuple(cv[f] for f in ctl.cont()), tuple(d[f] for f in dn)))
    st.add("programs")
    compare(ctl, states, (), st)


CASES = {"structure": structure, "expressions": expr, "values": value}


def main():
    ck = core.Check("C01")
    ck.bounds = {
        "structure": "all programs with <=3 ifs, <=3 assignments, nesting <=3, over 3 tests and 4 assignments; 8 states each",
        "expressions": f"{len(ATOMS)} atomic tests, all 2-atom and/or/not/elif/nested forms (quick: one third of pairs), 3-atom forms; 27/12 states x 4 environments",
        "values": f"{len(VALS)} assigned expressions pairwise, 5 forms, 3 state layouts, 6 states",
    }
    ck.assumptions = ["one decision step is observed through a one-step simulation of static agents"]
    ck.explore("structure", structure, structure_cases())
    ck.explore("expressions", expr, expr_cases())
    ck.explore("values", value, value_cases())
    c = ck.stats.c
    return ck.finish(c.get("states_compared", 0), c.get("impl_successors", 0), c.get("cases", 0))
