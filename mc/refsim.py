"""Reference executor of the documented hybrid semantics, for scenarios of exactly integrable agents."""
import itertools
from .prog import Ctl
from .world import rnd, rvec, times


class RAgent:
    def __init__(self, id, ctl, rates, init, disc, flow=None):
        self.id, self.ctl, self.rates, self.init, self.disc = id, ctl, rates, tuple(init), tuple(disc)
        self.flow = flow

    def trace(self, disc, init, T, dt):
        r = (self.rates or {}).get(disc[0]) if disc else None
        t = times(T, dt)
        r = r or (0.0,) * len(init)
        return [tuple(float(x) + ri * ti for x, ri in zip(init, r)) for ti in t]


def envs(agents, who, disc, row, other_arg="others", is_list=True):
    a = agents[who]
    env = {"ego": a.ctl.obj(row[a.id], disc[a.id])}
    oth = [b for b in agents.values() if b.id != who]
    env[other_arg] = [a.ctl.obj(row[b.id], disc[b.id]) for b in oth]
    if not is_list and oth:
        env[other_arg] = env[other_arg][0]
    return env


def label_of(i, lab):
    return lab if lab is not None else f"<assert {i}>"


def ref_tree(agents, horizon, dt, max_height=None, unsafe_continue=False, allowed=None, extra_env=None, branch="nondet", stats=None, view=None):
    """-> canonical tree in the format of world.canon_sim.
    allowed(agent, src_disc, dest_disc) -> bool: map constraint on lane transitions."""
    mh = float("inf") if max_height is None else max_height
    agents = {a.id: a for a in agents}

    def node(start, disc, init, height):
        modes = tuple((a, disc[a]) for a in sorted(disc))
        inits = tuple((a, rvec(init[a])) for a in sorted(init))
        remain = round(horizon - start, 10)
        if height >= mh - 1 or remain <= 0:
            return (rnd(start), modes, inits, None, (), ())
        tr = {a.id: a.trace(disc[a.id], init[a.id], remain, dt) for a in agents.values()}
        ts = [start + t for t in times(remain, dt)]
        n = len(ts)
        end, hits, trans = n, {}, {}
        for i in range(n):
            row = {a: tr[a][i] for a in tr}
            if stats is not None:
                stats.add("ref_steps")
            hit, en = {}, {}
            for a in agents.values():
                if a.ctl is None:
                    continue
                e = (view or envs)(agents, a.id, disc, row)
                if extra_env:
                    e.update(extra_env)
                asserts, out = a.ctl.step(e)
                bad = [label_of(k, l) for k, l, v in asserts if v]
                if bad:
                    hit[a.id] = tuple(sorted(set(bad)))
                    continue
                succ = a.ctl.apply(out, row[a.id], disc[a.id])
                if allowed is not None:
                    succ = {s for s in succ if allowed(a, disc[a.id], s[0])}
                if succ:
                    en[a.id] = succ
            if hit:
                hits = hit
                end = n if unsafe_continue else i
                break
            if en:
                trans = en
                end = i + 1
                break
        trace = tuple((a, tuple(rvec((ts[i],) + tuple(tr[a][i])) for i in range(end))) for a in sorted(tr))
        ch = set()
        if trans:
            i = end - 1
            keys = sorted(trans)
            for combo in itertools.product(*[sorted(trans[k]) for k in keys]):
                d, c = dict(disc), {a: tr[a][i] for a in tr}
                for k, (dd, cc) in zip(keys, combo):
                    d[k], c[k] = dd, cc
                ch.add(node(ts[i], d, c, height + 1))
        return (rnd(start), modes, inits, trace, tuple(sorted(hits.items())), tuple(sorted(ch, key=repr)))

    return node(0.0, {a.id: a.disc for a in agents.values()}, {a.id: a.init for a in agents.values()}, 0)
