"""Controller programs as small data, their Python source, and the reference semantics of one decision step.

A program is a list of statements:
    ("set", var, expr)            output.<var> = <expr>
    ("if", test, [then], [else])
    ("assert", test, label|None)
    ("raw", text)                 a line emitted verbatim (a local binding), executed as plain Python by the reference
Expressions/tests are Python source over `ego`, `others`, helper functions; the reference evaluates them with the
Python interpreter on concrete objects, so nothing of the code under test is involved in the oracle.

Reference semantics (docs/source/parser.md, "Conditional Values"): an `if` is nondeterministic -- when its test holds
the body *may* be taken -- so a variable has a set of possible values.  A decision step is enabled iff some variable
has a possible value that was assigned under satisfied conditions; its successors take, for every such variable, any
of the assigned values.
"""
import itertools, types, enum

HEADER = """from enum import Enum, auto
import copy
from typing import List
"""


def class_src(name, members):
    return f"class {name}(Enum):\n" + "".join(f"    {m} = auto()\n" for m in members)


def state_src(name, fields):
    """fields: [(field, type)]"""
    s = f"class {name}:\n"
    for f, t in fields:
        s += f"    {f}: {t}\n"
    args = ", ".join(f for f, _ in fields)
    return s + f"    def __init__(self, {args}):\n        pass\n"


def stmts_src(stmts, ind=1, out="output"):
    pad = "    " * ind
    r = ""
    for st in stmts:
        if st[0] == "set":
            r += f"{pad}{out}.{st[1]} = {st[2]}\n"
        elif st[0] == "raw":
            r += f"{pad}{st[1]}\n"
        elif st[0] == "assert":
            r += f"{pad}assert {st[1]}" + (f", {st[2]!r}" if st[2] is not None else "") + "\n"
        else:
            _, test, a, b = st
            r += f"{pad}if {test}:\n" + (stmts_src(a, ind + 1, out) or f"{pad}    pass\n")
            if b:
                r += f"{pad}else:\n" + stmts_src(b, ind + 1, out)
    return r


class Ctl:
    """A controller: modes, state fields, helpers, statements."""

    def __init__(self, stmts, modes=(("AMode", ("A", "B", "C")),), fields=(("x", "float"), ("y", "float"), ("mode", "AMode")),
                 preamble="", sig="ego: State, others: List[State]", extra_states=(), state="State"):
        self.stmts = list(stmts)
        self.modes = tuple(modes)
        self.fields = tuple(fields)
        self.preamble = preamble
        self.sig = sig
        self.extra_states = tuple(extra_states)
        self.state = state
        self._ns = None
        self._code = {}

    def head(self):
        s = HEADER
        for n, m in self.modes:
            s += class_src(n, m)
        s += state_src(self.state, self.fields)
        for n, f in self.extra_states:
            s += state_src(n, f)
        return s + self.preamble

    def source(self):
        body = stmts_src(self.stmts)
        return self.head() + f"def decisionLogic({self.sig}):\n    output = copy.deepcopy(ego)\n{body}    return output\n"

    # -- reference side
    @property
    def ns(self):
        if self._ns is None:
            self._ns = {}
            exec(self.head(), self._ns)
        return self._ns

    def enum(self, field, fields=None):
        return self.ns[dict(fields or self.fields)[field]]

    def cont(self):
        return [f for f, t in self.fields if "mode" not in f and f != "type"]

    def disc(self):
        return [f for f, t in self.fields if "mode" in f]

    def obj(self, cont, disc, fields=None):
        fields = fields or self.fields
        d, ci, di = {}, iter(cont), iter(disc)
        for f, t in fields:
            d[f] = self.ns[t][next(di)] if "mode" in f else next(ci)
        return types.SimpleNamespace(**d)

    def _eval(self, src, loc):
        c = self._code.get(src)
        if c is None:
            c = self._code[src] = compile(src, "<ref>", "eval")
        g = dict(self.ns)
        g.update(loc)
        return eval(c, g)

    def step(self, env, full=False):
        """-> ([(i, label, violated)], {var: [values]} of conditionally assigned values).
        full: asserts also carry (path condition, condition); values are ids of the assigning statements, and a third
        result maps every assignment executed on any path to the value it assigns here."""
        S = {}
        asserts = []
        seen = {} if full else None

        def run(stmts, S, loc, conds):
            for st in stmts:
                if st[0] == "raw":
                    g = dict(self.ns)
                    g.update(loc)
                    d = {}
                    exec(st[1], g, d)
                    loc.update(d)
                elif st[0] == "set":
                    S[st[1]] = [("v", self._eval(st[2], loc), id(st))]
                    if seen is not None:
                        seen[id(st)] = S[st[1]][0][1]
                elif st[0] == "assert":
                    c = bool(self._eval(st[1], loc))
                    asserts.append((len(asserts), st[2], conds and not c) + ((conds, c) if full else ()))
                else:
                    _, test, a, b = st
                    t = bool(self._eval(test, loc))
                    A = {k: list(v) for k, v in S.items()}
                    B = {k: list(v) for k, v in S.items()}
                    run(a, A, dict(loc), conds and t)
                    run(b, B, dict(loc), conds and not t)
                    for k, vs in (A if t else B).items():
                        base = S.setdefault(k, [UNCH])
                        for v in vs:
                            if v not in base:
                                base.append(v)

        run(self.stmts, S, dict(env), True)
        out = {}
        for k, vs in S.items():
            vals = [v[2] if full else v[1] for v in vs if v is not UNCH and v != UNCH]
            if vals:
                out[k] = vals
        return (asserts, out, seen) if full else (asserts, out)

    def successors(self, env, cont, disc):
        """-> set of (disc tuple, cont tuple) successors of one decision step, empty if not enabled"""
        _, out = self.step(env)
        return self.apply(out, cont, disc)

    def apply(self, out, cont, disc):
        if not out:
            return set()
        cn, dn = self.cont(), self.disc()
        keys = sorted(out)
        res = set()
        for combo in itertools.product(*[out[k] for k in keys]):
            c, d = list(cont), list(disc)
            for k, v in zip(keys, combo):
                if isinstance(v, enum.Enum):
                    v = v.name
                if k in dn:
                    d[dn.index(k)] = v
                else:
                    c[cn.index(k)] = float(v)
            res.add((tuple(d), tuple(c)))
        return res


UNCH = ("unch",)
