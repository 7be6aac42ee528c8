"""C16: verification with partitioned initial sets (verify_partitioned) covers every execution and loses nothing else.

The families of C08 (automata x flows x boxes, several agents, lane maps, assertions) run through verify_partitioned for
every number of partitions and choice of partitioned dimensions; every execution of the reference executor from a grid
of the initial set has to be matched by the tree.  The flows make the tubes exact, so that partitions change nothing:
the tree is also compared, node by node, with that of verify.
"""
import itertools
import numpy as np
from .. import core
from ..core import Violation, THOROUGH, draw, pick
from ..prog import Ctl
from ..refsim import RAgent, ref_tree
from ..world import RateAgent, cfg, enums, norm_asserts, mode_t, explored_by
from . import c02, c08
from verse import Scenario
from verse.analysis import ReachabilityMethod as RM

PARTS = [(1, None), (2, None), (3, None), (2, [1]), (3, [2]), (2, [0, 1, 2]), (4, []), (2, [2, 1])]


def flat(v):
    """Canonical form of a tree: modes, start times, bounds of the tube, reported assertions, children in any order."""
    tr = []
    if v.explored:
        for a, A in v.tr.items():
            tr.append((a, tuple(tuple(round(float(e), 5) + 0.0 for e in row) for row in A)))
    return (tuple(sorted(v.mode.items())), round(v.start, 6), tuple(sorted(tr)), tuple(sorted((a, tuple(sorted(h))) for a, h in v.hits.items())), tuple(sorted((flat(c) for c in v.child), key=repr)))


def close(a, b, eps=2e-5):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(close(x, y, eps) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= eps
    return a == b


def scen(ragents, boxes, conf, map_):
    s = Scenario(cfg(**conf))
    for a in ragents:
        s.add_agent(RateAgent(a.id, code=a.ctl.source() if a.ctl else None, rates=a.rates))
    if map_ is not None:
        s.set_map(map_)
    s.set_init([[list(e) for e in b] for b in boxes], [enums(a.ctl or ragents[0].ctl, a.disc) for a in ragents])
    return s


def check(ragents, boxes, T, dt, st, part, mh=4, conf=None, map_=None, allowed=None, extra=None, same=True, initial=False, params=None):
    conf = dict(conf or {})
    n, dims = part
    s = scen(ragents, boxes, conf, map_)
    kw = {"params": params} if params else {}
    kw.update({} if dims is None else {"partition_dims": list(dims)})
    tree = s.verify_partitioned(T, dt, n, max_height=mh, partition_initial=initial, **kw)
    V = c08.VNode(tree.root, explored_by(T, mh))
    st.add("verify_nodes", len(tree.nodes))
    src = [a.ctl.source() if a.ctl else None for a in ragents]
    if conf.get("reachability_method") != RM.DRYVR_DISC:
        for p in itertools.product(*[c08.pts(b) for b in boxes]):
            ags = [RAgent(a.id, a.ctl, a.rates, x, a.disc) for a, x in zip(ragents, p)]
            r = ref_tree(ags, T, dt, mh, False, allowed, extra, stats=st)
            st.add("executions")
            st.outcome(r[5] and r)
            w = c08.match(r, V, len(ragents), False, st)
            if w is not None:
                raise Violation("an execution from the initial set is not covered by the partitioned tree", start=p, why=w, parts=part, source=src, tree=c08.show(V))
    if same:
        o = scen(ragents, boxes, conf, map_).verify(T, dt, max_height=mh, params=params or {})
        O = c08.VNode(o.root, explored_by(T, mh))
        a, b = flat(V), flat(O)
        st.add("pairs")
        if not close(a, b):
            raise Violation("the tree of exact tubes depends on the partitions", parts=part, source=src, partitioned=c08.show(V), plain=c08.show(O))


def single_cases():
    out = []
    for i, c in enumerate(c08.single_cases()):
        for j in range(len(PARTS)):
            if THOROUGH or pick((c, j), 16):
                out.append(c + (j,))
    return out


def single(case, st):
    e1, e2, k, b, o, j = case
    ctl = Ctl(c02.edge_stmts([(s, c08.GUARDS[g], d, c08.RESETS[r]) for s, g, d, r in (e1, e2)]))
    T, dt = ((2.0, 0.5), (1.5, 0.25), (2.5, 0.5))[o]
    check([RAgent("a", ctl, c08.RATES[k], (0, 0), ("A",))], [c08.BOXES[b]], T, dt, st, PARTS[j], initial=bool(draw(case, 2)))


def wide_cases():
    """Initial sets so wide that a guard is hit in many segments; the flow enters it at very different times."""
    out = []
    for g, d, r, k, w, j in itertools.product(range(len(c08.GUARDS)), "BC", range(len(c08.RESETS)), range(3), range(3), range(len(PARTS))):
        if THOROUGH or pick((g, d, r, k, w, j), 4):
            out.append((g, d, r, k, w, j))
    return out


WIDE = c08.off((((-1.0, -0.5), (0.75, 0.5)), ((-1.5, 0.25), (1.25, 0.25)), ((0.0, -2.0), (0.25, 0.75))))


def wide(case, st):
    g, d, r, k, w, j = case
    e2 = ("B", (g + 1) % 5, "C", 2)
    ctl = Ctl(c02.edge_stmts([(s, c08.GUARDS[q], t, c08.RESETS[z]) for s, q, t, z in (("A", g, d, r), e2)]))
    check([RAgent("a", ctl, c08.RATES[k], (0, 0), ("A",))], [WIDE[w]], 2.5, 0.5, st, PARTS[j])


def multi_cases():
    return [(c, draw(c, len(PARTS))) for c in c08.multi_cases() if THOROUGH or pick((c, 1), 4)]


def multi(case, st):
    c, j = case
    ags = [RAgent(f"a{i}", Ctl(c08.MULTI[p]), c08.RATES[k], (0, 0), ("A",)) for i, (p, k, b) in enumerate(c)]
    boxes = [c08.MB[b] for _, _, b in c]
    if len(c) == 3:
        boxes = [(b[0], (b[1][0], b[0][1])) for b in boxes]
    check(ags, boxes, 1.5, 0.5, st, PARTS[j], mh=6)


def lane_cases():
    return [(c, draw(c, len(PARTS))) for c in c08.lane_cases() if THOROUGH or pick((c, 2), 4)]


def lane(case, st):
    (e1, e2, t, b), j = case
    rm = c02.RefMap(c02.TABLES[t])

    def allowed(a, src, dst):
        return src == dst or dst[1] == rm.h(src[1], src[0], dst[0])

    check([RAgent("a", c02.lane_ctl((e1, e2)), c02.LRATES, (0, 0), ("Normal", "T0"))], [c08.BOXES[b]], 2.0, 0.5, st, PARTS[j], map_=c02.TableMap(c02.TABLES[t]), allowed=allowed, extra={"track_map": rm})


def asserting_cases():
    out = []
    for p, k, b, j, uc, m in itertools.product((6, 7), range(3), range(3), range(len(PARTS)), (False, True), ("DRYVR", "DRYVR_DISC", "DRYVR GLOBAL", "DRYVR_DISC GLOBAL")):
        if THOROUGH or pick((p, k, b, j, uc, m), 3):
            out.append((p, k, b, j, uc, m))
    return out


def asserting(case, st):
    """Reported assertions, continuing past them, and the discrete form of DryVR."""
    p, k, b, j, uc, m = case
    ags = [RAgent("a0", Ctl(c08.MULTI[p]), c08.RATES[k], (0, 0), ("A",)), RAgent("a1", Ctl(c08.MULTI[3]), c08.RATES[1], (0, 0), ("A",))]
    m, *g = m.split()
    check(ags, [c08.MB[b], c08.MB[1]], 1.5, 0.5, st, PARTS[j], conf={"unsafe_continue": uc, "reachability_method": RM[m]}, same=not g or PARTS[j][0] == 1, params={"bloating_method": "GLOBAL"} if g else None)


CASES = {"single": single, "wide": wide, "multi": multi, "lane": lane, "asserting": asserting}


def main():
    ck = core.Check("C16")
    ck.bounds = {
        "single": f"the two-edge automata of C08 x {len(PARTS)} partitions (quick: a sixteenth)",
        "wide": "5 guards x 4 resets x 3 flows x 3 wide boxes x partitions (quick: a quarter)",
        "multi": "C08's pairs and triples, one partition each (quick: a quarter)",
        "lane": "C08's lane-changing agents, one partition each (quick: a quarter)",
        "asserting": "2 asserting controllers x 3 flows x 3 boxes x partitions x unsafe_continue x 2 methods x 2 bloating options (quick: a third)",
    }
    ck.assumptions = ["flows are decoupled and constant-rate, so the tubes DryVR learns are exact", "guards are half-spaces the flow enters and stays in", "times are relative to the segment in which an agent first enters a mode"]
    for n, f, c in (("single", single, single_cases()), ("wide", wide, wide_cases()), ("multi", multi, multi_cases()), ("lane", lane, lane_cases()), ("asserting", asserting, asserting_cases())):
        ck.explore(n, f, c)
    c = ck.stats.c
    return ck.finish(c.get("verify_nodes", 0), c.get("pairs", 0), c.get("executions", 0))
