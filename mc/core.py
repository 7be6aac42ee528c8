"""Common machinery: parallel exhaustive enumeration, watchdogs, evidence, replay files, known findings."""
import os, sys, json, time, signal, traceback, hashlib, contextlib, resource, io, multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERSE_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NPROC = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "60"))


def draw(case, n):
    """A fixed number in range(n) for a case, unrelated to its components: neither a subset of cases chosen by it
    nor a parameter set from it lines up with a pattern of the enumeration, as strides over the indices do."""
    return int(hashlib.blake2b(repr(case).encode(), digest_size=6).hexdigest(), 16) % n


def pick(case, n):
    """Every n-th case, roughly (quick tier); thorough tiers take all."""
    return draw(case, n) == 0


class CaseTimeout(BaseException):
    pass


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


NULL = Null()


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints (it prints a lot)."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = NULL, NULL
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def jsonable(x, depth=0):
    import numpy as np

    if depth > 12:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


class Stats:
    """Measured counters of one run; merged from workers."""

    def __init__(self):
        self.c = {}
        self.outcomes = set()
        self.samples = []

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.blake2b(repr(o).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(jsonable(s))

    def merge(self, o):
        for k, v in o.c.items():
            self.add(k, v)
        self.outcomes |= o.outcomes
        for s in o.samples:
            if sum(1 for x in self.samples if x.get("group") == s.get("group")) < 2:
                self.sample(s)


class Violation(Exception):
    """Raised by a case's oracle: the code under test broke the property on this case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


_CASE_FN = None
_LAZY = None


def _alarm(sig, frm):
    raise CaseTimeout()


def run_one(fn, case, stats, timeout=None):
    """-> None or (message, detail).  Exceptions escaping from the code under test are violations:
    every case handed to it is one the reference gives a defined result for."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or CASE_TIMEOUT)
    try:
        with quiet():
            fn(case, stats)
        return None
    except Violation as v:
        return (v.msg, jsonable(v.detail))
    except CaseTimeout:
        return (f"no result within {timeout or CASE_TIMEOUT:.0f}s (case normally takes milliseconds)", {})
    except MemoryError:
        return ("memory exhausted on a tiny case", {})
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else f.filename}:{f.lineno}" for f in tb][-4:]
        return (f"{type(e).__name__}: {str(e)[:300]}", {"raised_at": where})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class HarnessError(Exception):
    """The harness itself is wrong (never the code under test)."""


def _work(arg):
    group, chunk, limit = arg
    fn = _CASE_FN
    st, out = Stats(), []
    for case in chunk:
        st.add("cases")
        r = run_one(fn, case, st)
        if len(st.samples) < 1:
            st.sample({"group": group, "case": case, "verdict": "ok" if r is None else r[0]})
        if r is not None:
            out.append((case, r))
            if len(out) >= limit:
                break
    return st, out


def _init_worker():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class Check:
    def __init__(self, prop, level="model_checking", technique=""):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.stats = Stats()
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.extra = {}
        self.bounds = {}
        self.groups = {}
        rd = os.path.join(HERE, "evidence", "replay")
        if os.path.isdir(rd):
            for f in os.listdir(rd):
                if f.startswith(prop + "_"):
                    os.unlink(os.path.join(rd, f))
        p = os.path.join(HERE, "known_findings.json")
        self.known = {}
        if os.path.exists(p):
            for e in json.load(open(p)).get("findings", []):
                if e["property"] == prop and e.get("status", "open") == "open":
                    self.known[e["key"]] = e

    # -- enumeration ---------------------------------------------------------------------
    def explore(self, name, fn, cases, keyf=None, chunk=None, limit=3, procs=None, budget=None):
        """Run fn(case, stats) on every case (all of them, in order), over all cores."""
        global _CASE_FN
        t = time.time()
        cases = list(cases)
        if not cases:
            raise HarnessError(f"group {name} is empty")
        _CASE_FN = fn
        procs = procs or NPROC
        n0 = dict(self.stats.c)
        bad = []
        if procs == 1 or len(cases) < 4:
            _init = _work((name, cases, limit))
            res = [_init]
            st, out = _init
            self.stats.merge(st)
            bad += out
        else:
            size = chunk or max(1, min(200, len(cases) // (procs * 8) + 1))
            chunks = [(name, cases[i : i + size], limit) for i in range(0, len(cases), size)]
            ctx = mp.get_context("fork")
            with ctx.Pool(procs, initializer=_init_worker) as pool:
                for st, out in pool.imap(_work, chunks):
                    self.stats.merge(st)
                    bad += out
                    if len(bad) >= 40:
                        pool.terminate()
                        break
        self.groups[name] = {
            "cases": len(cases),
            "wall_s": round(time.time() - t, 2),
            "completed": self.stats.c.get("cases", 0) - n0.get("cases", 0),
        }
        for case, (msg, det) in bad:
            self.report(name, case, msg, det, keyf(case) if keyf else None)
        return bad

    def report(self, group, case, msg, det, key=None):
        key = key or f"{group}:" + hashlib.blake2b(repr(case).encode(), digest_size=6).hexdigest()
        if key in self.known:
            self.known_hit.append(key)
            return
        self.violations.append((group, case, msg, det, key))

    def known_case(self, key, fn, case):
        """A listed finding: must be in known_findings.json; reported as KNOWN-FINDING while it fails."""
        st = Stats()
        st.add("cases")
        r = run_one(fn, case, st)
        self.stats.add("known_finding_cases_run")
        if r is None:
            return
        if key in self.known:
            self.known_hit.append(key)
        else:
            self.violations.append(("listed-case", case, r[0], r[1], key))

    # -- result --------------------------------------------------------------------------
    def finish(self, states, transitions, validated, samples=None, exhaustive=True):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": {
                "states": int(states),
                "transitions": int(transitions),
                "traces_validated_against_impl": int(validated),
                "samples": samples or self.stats.samples or [repr(self.groups)],
                "distinct_outcomes": len(self.stats.outcomes),
                "exhaustive": bool(exhaustive and not self.violations),
                "counters": self.stats.c,
                "groups": self.groups,
                "bounds": self.bounds,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        tmp = os.path.join(HERE, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{self.prop}.json"))
        for k in sorted(set(self.known_hit)):
            print(f"KNOWN-FINDING: property={self.prop} {self.known[k]['what']}")
        print(
            f"{self.prop} [{TIER}] states={states} transitions={transitions} validated={validated} "
            f"outcomes={len(self.stats.outcomes)} cases={self.stats.c.get('cases', 0)} wall={ev['wall_s']}s"
        )
        for g, v in self.groups.items():
            print(f"  {g}: {v}")
        if not self.violations:
            return 0
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (group, case, msg, det, key) in enumerate(self.violations[:10]):
            p = os.path.join(rd, f"{self.prop}_{i}.json")
            with open(p, "w") as f:
                json.dump(
                    {
                        "property": self.prop,
                        "group": group,
                        "key": key,
                        "message": msg,
                        "detail": det,
                        "case": jsonable(case),
                        "case_repr": repr(case),
                        "replay_with": f"./run.sh {self.prop} --replay {os.path.relpath(p, HERE)}",
                    },
                    f,
                    indent=1,
                )
            print(f"  [{group}] {key}: {msg}")
            print(f"VIOLATION property={self.prop} replay={p}")
        return 1
