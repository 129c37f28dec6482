"""Bounded exhaustive exploration of the real hrosailing code.

A check is a module in /verif/checks with an ID, a LEVEL and scenarios.
Two kinds of scenario exist:

* ``@scenario(cases)``: ``cases(tier)`` enumerates a finite space completely;
  the body runs one element of it against the implementation and compares
  every observation with a reference computed independently.
* ``history(...)``: explicit-state breadth-first search over operation
  sequences.  Every state is the operation history that reaches it; the real
  object is rebuilt and the operations replayed, the reference model runs in
  lock-step, and the two are compared after every single step.

A failing case is written to out/<ID>/... and can be replayed alone with
``./check.sh <ID> --replay <path>``.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120
JOBS = int(os.environ.get("VF_JOBS") or os.cpu_count() or 1)


class Violation(Exception):
    """The implementation disagreed with the property."""


class HarnessError(Exception):
    """The check itself is wrong; never reported as a violation."""


class _Timeout(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg() if callable(msg) else (msg % args if args else msg))


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_plain(v) for v in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def digest(x):
    return hashlib.blake2b(
        json.dumps(_plain(x), sort_keys=True, default=repr).encode(),
        digest_size=12,
    ).hexdigest()


def close(a, b, rtol=1e-7, atol=1e-9):
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False)
    )


def same(actual, expected, what, rtol=1e-7, atol=1e-9):
    if not close(actual, expected, rtol, atol):
        fail(f"{what}: got {_short(actual)}, expected {_short(expected)}")


def angle_close(a, b, atol=1e-6, period=360.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    d = np.abs((a - b + period / 2) % period - period / 2)
    return bool(np.all(d <= atol))


def same_angle(actual, expected, what, atol=1e-6):
    if not angle_close(actual, expected, atol):
        fail(f"{what}: got {_short(actual)}, expected (mod 360) {_short(expected)}")


def _short(x, n=600):
    with np.printoptions(precision=10, threshold=60):
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def raises(exc, fn, what):
    """fn must be rejected with one of exc (a class or tuple)."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # other exception
        fail(f"{what}: raised {type(e).__name__}: {e}, expected {exc}")
    fail(f"{what}: accepted and returned {_short(r)}, expected {exc}")


# --------------------------------------------------------------------------
class Ctx:
    """Counters for one run of one check."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == "thorough"
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.defaultdict(set)  # scenario -> digests
        self.scn = ""

    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(self.scn + digest(key))

    def outcome(self, *key):
        if len(self.outcomes[self.scn]) < 200000:
            self.outcomes[self.scn].add(digest(key))


class Scenario:
    def __init__(self, name, cases, run, doc=""):
        self.name, self.cases, self.run, self.doc = name, cases, run, doc


class Registry:
    def __init__(self):
        self.scenarios = []

    def scenario(self, cases, name=None):
        """Decorator: run(ctx, case) for every element of cases(tier)."""

        def deco(fn):
            gen = cases if callable(cases) else (lambda tier: cases)
            self.scenarios.append(
                Scenario(name or fn.__name__, gen, fn, (fn.__doc__ or "").strip())
            )
            return fn

        return deco

    def history(self, name, init, ops, depth, make, apply, compare,
                canon=None, doc=""):
        """Breadth-first search over histories.

        init(tier)  -> iterable of JSON-able initial descriptors
        ops(tier)   -> list of JSON-able operations
        depth(tier) -> bound
        make(d)     -> (impl, model)
        apply(impl, model, op) -> (impl, model)    (compares replies itself)
        compare(impl, model) -> None
        canon(model) -> hashable/JSON canonical form (default: model)
        """
        scn = Scenario(name, None, None, doc)
        scn.bfs = (init, ops, depth, make, apply, compare, canon or (lambda m: m))
        self.scenarios.append(scn)

        def run(ctx, case):
            d, seq = case
            impl, model = make(d)
            compare(impl, model)
            ctx.state(canon(model) if canon else model)
            for op in seq:
                impl, model = apply(impl, model, op)
                ctx.step()
                compare(impl, model)
            ctx.state(canon(model) if canon else model)
            ctx.outcome(canon(model) if canon else model)
            return model

        scn.run = run
        return scn


@contextlib.contextmanager
def _deadline(seconds):
    def on_alarm(sig, frame):
        raise _Timeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_case(scn, ctx, case):
    """-> (message or None, value)"""
    try:
        with _deadline(CASE_TIMEOUT), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(12345)
            with np.errstate(all="ignore"):
                return None, scn.run(ctx, case)
    except Violation as v:
        return str(v), None
    except HarnessError:
        raise
    except _Timeout:
        return f"did not terminate within {CASE_TIMEOUT}s", None
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:]
        )
        return f"unexpected {type(e).__name__}: {e} [{where}]", None


def load_known(pid):
    path = os.path.join(HERE, "KNOWN_FINDINGS.json")
    with open(path) as fh:
        return [f for f in json.load(fh)["findings"] if f["property"] == pid]


def _match_known(known, scn, case, msg):
    key = json.dumps(_plain(case), sort_keys=True)
    for f in known:
        if f["scenario"] == scn.name and f["match"] in msg and (
            json.dumps(f["case"], sort_keys=True) == key
        ):
            return f
    return None


class Runner:
    MAX_VIOLATIONS = int(os.environ.get("VF_MAX", "3"))

    def __init__(self, mod, tier, seed, only=None):
        self.mod, self.pid = mod, mod.ID
        self.ctx = Ctx(tier, seed)
        self.tier, self.seed = tier, seed
        self.known = load_known(self.pid)
        self.known_hit = []
        self.violations = []
        self.per = {}
        self.samples = []
        self.only = only

    def _bad(self, scn, case, msg):
        f = _match_known(self.known, scn, case, msg)
        if f:
            if f not in self.known_hit:
                self.known_hit.append(f)
                print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
            return False
        out = os.path.join(HERE, "out", self.pid)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{scn.name}-{digest(case)[:10]}.json")
        with open(path, "w") as fh:
            json.dump(
                {"property": self.pid, "scenario": scn.name, "case": _plain(case),
                 "message": msg,
                 "replay": f"/verif/check.sh {self.pid} --replay {path}"},
                fh, indent=1,
            )
        print(f"  {scn.name} {json.dumps(_plain(case))[:500]}\n    {msg[:1500]}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        self.violations.append(path)
        return True

    def _done(self):
        return len(self.violations) >= self.MAX_VIOLATIONS

    def run(self):
        t0 = time.time()
        for scn in self.mod.R.scenarios:
            if self.only and scn.name not in self.only:
                continue
            self.ctx.scn = scn.name
            s0, t_0, c0, w0 = (len(self.ctx.states), self.ctx.transitions,
                               self.ctx.traces, time.time())
            if hasattr(scn, "bfs"):
                deep = self._bfs(scn)
            else:
                deep = None
                self._enum(scn)
            self.per[scn.name] = {
                "states": len(self.ctx.states) - s0,
                "transitions": self.ctx.transitions - t_0,
                "traces": self.ctx.traces - c0,
                "distinct_outcomes": len(self.ctx.outcomes[scn.name]),
                "wall_s": round(time.time() - w0, 2),
            }
            if deep is not None:
                self.per[scn.name]["max_depth"] = deep
            if self.per[scn.name]["traces"] == 0:
                raise HarnessError(f"scenario {scn.name} explored nothing")
            if self._done():
                break
        return time.time() - t0

    def _enum(self, scn):
        # a case is a JSON-able value, so that a replay file can hold it
        cases = list(scn.cases(self.tier))
        if cases:
            self.samples.append({"scenario": scn.name, "case": _plain(cases[0])})

        def finish(case, value):
            if value is not None:
                self.ctx.outcome(value)
            self.ctx.state("case", case)

        for i, msg, _ in self._each(scn, cases, finish):
            if msg and self._bad(scn, cases[i], msg) and self._done():
                return

    def _bfs(self, scn):
        init, ops, depth, make, apply, compare, canon = scn.bfs
        bound = depth(self.tier)
        alphabet = list(ops(self.tier))
        seen = set()
        frontier = [[d, []] for d in init(self.tier)]
        deepest = 0
        first = True
        for level in range(bound + 1):
            following = []
            for i, msg, k in self._each(scn, frontier, lambda _, model: digest(canon(model))):
                d, seq = frontier[i]
                if msg:
                    if self._bad(scn, frontier[i], msg) and self._done():
                        return deepest
                    continue
                deepest = max(deepest, level)
                if first or (level == bound and len(self.samples) < 12):
                    self.samples.append({"scenario": scn.name, "case": _plain(frontier[i])})
                    first = False
                if k not in seen:
                    seen.add(k)
                    following += [[d, seq + [op]] for op in alphabet]
            frontier = following
        return deepest

    def _each(self, scn, cases, finish):
        """Runs all cases, shared out in blocks to forked processes.

        -> [(number of the case, message or None, what finish made of it)], by number
        """
        n = min(JOBS, len(cases))
        block = max(1, min(16, len(cases) // (n * 4 or 1)))
        shares = [[i for i in range(len(cases)) if i // block % n == k] for k in range(n)]
        if n <= 1:
            return self._share(scn, cases, range(len(cases)), finish)
        sys.stdout.flush()
        children = []
        for k, share in enumerate(shares):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self._child(scn, cases, share, finish, k, w)
            os.close(w)
            children.append((pid, r))
        out = []
        for pid, r in children:
            with os.fdopen(r, "rb") as fh:
                raw = fh.read()
            _, status = os.waitpid(pid, 0)
            if status or not raw:
                raise HarnessError(f"a process of scenario {scn.name} ended with status {status}")
            error, res, ctx = pickle.loads(raw)
            if error:
                raise HarnessError(error)
            out += res
            self.ctx.states |= ctx.states
            self.ctx.transitions += ctx.transitions
            self.ctx.traces += ctx.traces
            self.ctx.outcomes[scn.name] |= ctx.outcomes[scn.name]
        return sorted(out, key=lambda t: t[0])

    def _child(self, scn, cases, share, finish, k, w):
        try:
            ctx = self.ctx = Ctx(self.tier, self.seed)
            ctx.scn = scn.name
            if os.environ.get("VF_SCRATCH"):  # no two processes write the same files
                own = os.path.join(os.environ["VF_SCRATCH"], f"p{k}")
                os.makedirs(own, exist_ok=True)
                os.environ["VF_SCRATCH"] = own
                os.chdir(own)
            error, res = None, []
            try:
                res = self._share(scn, cases, share, finish)
            except BaseException:  # noqa: BLE001  handed to the parent
                error = traceback.format_exc()
            with os.fdopen(w, "wb") as fh:
                pickle.dump((error, res, ctx), fh)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            os._exit(1)
        finally:
            os._exit(0)

    def _share(self, scn, cases, share, finish):
        out, bad = [], len(self.violations)
        for i in share:
            msg, value = _run_case(scn, self.ctx, cases[i])
            self.ctx.traces += 1
            out.append((i, msg, None if msg and hasattr(scn, "bfs") else finish(cases[i], value)))
            if msg and not _match_known(self.known, scn, cases[i], msg):
                bad += 1
                if bad >= self.MAX_VIOLATIONS or msg.startswith("did not terminate"):
                    break
        return out

    def evidence(self, wall):
        level = getattr(self.mod, "LEVEL", "model_checking")
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": len(self.ctx.states),
                "transitions": self.ctx.transitions,
                "traces_validated_against_impl": self.ctx.traces,
                "samples": self.samples[:12],
                "exhaustive": True and not self._done(),
                "scenarios": self.per,
                "distinct_outcomes": sum(len(v) for v in self.ctx.outcomes.values()),
                "model_binding": "every explored trace is executed on the real "
                "code imported from /repo; the reference model only supplies "
                "the expected observations",
            },
            "assumptions": list(getattr(self.mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        if self.known_hit:
            ev["coverage"]["known_findings_reproduced"] = [
                f["what"] for f in self.known_hit
            ]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        return ev


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = only = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = rest.pop(0)
        elif a == "--tier":
            tier = rest.pop(0)
        elif a == "--only":
            only = rest.pop(0).split(",")
        else:
            raise SystemExit(f"unknown argument {a}")
    from . import loader

    if replay:
        replay = os.path.abspath(replay)
    if os.environ.get("VF_SCRATCH"):  # files the code under test writes stay in the scratch folder
        sys.path[:] = [os.path.abspath(q) for q in sys.path]
        os.chdir(os.environ["VF_SCRATCH"])
    warnings.simplefilter("ignore")
    loader.install()
    mod = importlib.import_module(f"checks.{pid}")
    if replay:
        with open(replay) as fh:
            rec = json.load(fh)
        scn = next(s for s in mod.R.scenarios if s.name == rec["scenario"])
        ctx = Ctx(tier, seed)
        ctx.scn = scn.name
        msg, _ = _run_case(scn, ctx, rec["case"])
        print(msg or "held")
        return 1 if msg else 0
    r = Runner(mod, tier, seed, only)
    wall = r.run()
    ev = r.evidence(wall)
    c = ev["coverage"]
    print(
        f"{pid} {tier}: {c['traces_validated_against_impl']} traces, "
        f"{c['states']} states, {c['transitions']} transitions, "
        f"{c['distinct_outcomes']} outcomes, {wall:.1f}s, "
        f"{len(r.violations)} violations"
    )
    for k, v in r.per.items():
        print(f"   {k}: {v}")
    return 1 if r.violations else 0
