"""C19: affine smoothing only replaces plateaus by their linear transition."""
import itertools
from datetime import datetime, timedelta

from hrosailing.core.data import Data
from hrosailing.processing import AffineSmoother, LazySmoother
from vf.core import Registry, check, fail, raises

ID = "C19"
ASSUMPTIONS = [
    "data without missing values (smoothing runs after imputation)",
    "exact values are compared for strictly increasing time stamps only",
]
R = Registry()

T0 = datetime(2023, 3, 29, 11)


def reference(xs, ys, span):
    """Piecewise affine transition between runs of equal values."""
    runs = []
    for i, y in enumerate(ys):
        if runs and runs[-1][2] == y:
            runs[-1][1] = i
        else:
            runs.append([i, i, y])
    nodes = []
    for n, (s, e, y) in enumerate(runs):
        first, last = n == 0, n == len(runs) - 1
        lb = xs[0] if first else (xs[s - 1] + xs[s]) / 2
        ub = xs[-1] if last else (xs[e] + xs[e + 1]) / 2
        left = y if first else (runs[n - 1][2] + y) / 2
        right = y if last else (y + runs[n + 1][2]) / 2
        core = [lb + span, ub - span] if ub - lb >= 2 * span else [(lb + ub) / 2]
        if span == 0 and not (lb == ub):
            # value within the run, transition only at its very border
            nodes += [(lb, ub, y)]
            continue
        nodes.append((lb, left, *[(c, y) for c in core], (ub, right)))
    out = []
    for x in xs:
        val = None
        for node in nodes:
            if len(node) == 3 and not isinstance(node[2], tuple):
                if node[0] <= x <= node[1]:
                    val = node[2]
                    break
                continue
            pts = [(node[0], node[1])] + list(node[2:])
            if not pts[0][0] <= x <= pts[-1][0]:
                continue
            for (a, fa), (b, fb) in zip(pts, pts[1:]):
                if a <= x <= b:
                    val = fb if a == b else fa + (fb - fa) * (x - a) / (b - a)
                    break
            break
        out.append(val)
    return out


STEPS = {
    "regular": [20.0] * 9,
    "dense": [1.0] * 9,
    "long": [100.0] * 9,
    "irregular": [7.0, 40.0, 13.5, 90.0, 0.25, 61.0, 5.0, 5.0, 33.0],
    "growing": [2.0, 5.0, 11.0, 23.0, 47.0, 95.0, 191.0, 1.0, 1.0],
}
SPANS = [None, 0.0, 12.5, 45.0, 1000.0]
LONG = {
    "half days": [43200.0] * 9,
    "days": [86400.0, 172800.0, 3600.0, 90000.0, 86400.0, 7200.0, 86400.0, 86400.0, 86400.0],
    "milliseconds": [0.001, 0.25, 0.004, 1.5, 0.0625, 0.001, 0.001, 0.5, 0.5],
    "years": [31536000.0, 86400.0, 63072000.0, 10.0, 31536000.0, 1.0, 1.0, 1.0, 1.0],
}
LONG_SPANS = {"half days": [3600.0, 43200.0, 21600.0], "days": [30.0, 43200.0, 100000.0], "milliseconds": [0.0005, 0.05, 1.0], "years": [30.0, 86400.0, 1e8]}
STEPS_ALL = {**STEPS, **LONG}
VALUES = {
    "close": (5.0, 5.0 + 1e-9, 5.0005, 5.04),
    "signs": (-3.0, 0.0, 3.0, 1e-7),
    "large": (1e6, 1e6 + 1, -2e7, 0.25),
    "tiny": (0.0, 1e-10, 5e-10, -3e-13),
}


def stamps(name, n):
    out = [T0]
    for s in STEPS_ALL[name][: n - 1]:
        out.append(out[-1] + timedelta(seconds=s))
    return out[:n]


def smoother(span):
    return AffineSmoother() if span is None else AffineSmoother(timedelta(seconds=span))


@R.scenario(lambda tier: [(n, s, v0) for n in range(1, 9 if tier == "thorough" else 8) for s in STEPS for v0 in (1.0, 2.0, 6.5)])
def patterns(ctx, case):
    """Every value pattern, regular and irregular times, all time spans."""
    n, steps, v0 = case
    ts = stamps(steps, n)
    xs = [(t - T0).total_seconds() for t in ts]
    for rest in itertools.product((1.0, 2.0, 6.5), repeat=n - 1):
        ys = [v0, *rest]
        for span in SPANS:
            data = Data.from_dict({"datetime": list(ts), "TWS": list(ys), "TWA": [10 - y for y in ys], "n": list(range(n)), "label": [f"r{i}" for i in range(n)]})
            out = smoother(span).smooth(data)
            ctx.step()
            want = reference(xs, ys, 30.0 if span is None else span)
            check(isinstance(out, Data) and out.keys() == ["datetime", "TWS", "TWA", "n", "label"] and out.n_rows == n, "columns %s with %s rows", out.keys(), out.n_rows)
            check(list(out["datetime"]) == ts and list(out["n"]) == list(range(n)) and list(out["label"]) == [f"r{i}" for i in range(n)], "columns without floats were changed: %s", list(out.rows(return_type=list)))
            for key, f in (("TWS", lambda v: v), ("TWA", lambda v: 10 - v)):
                got = list(out[key])
                check(len(got) == n and all(abs(g - f(w)) <= 1e-9 for g, w in zip(got, want)), "%s %s at %s smoothed by %s s is %s instead of %s", key, [f(y) for y in ys], xs, span, got, [f(w) for w in want])
            if span == 0.0:
                check(all(abs(a - b) < 1e-9 for a, b in zip(out["TWS"], ys)), "without transition time %s becomes %s", ys, out["TWS"])


@R.scenario(lambda tier: [(n, s, v, first) for n in range(2, 7 if tier == "thorough" else 6) for s in ("regular", "irregular", *LONG) for v in VALUES for first in range(4)])
def scales(ctx, case):
    """Values next to each other, of either sign and large; long and short times."""
    n, steps, values, first = case
    vals = VALUES[values]
    ts = stamps(steps, n)
    xs = [(t - T0).total_seconds() for t in ts]
    for rest in itertools.product(vals, repeat=n - 1):
        ys = [vals[first], *rest]
        for span in LONG_SPANS.get(steps, (12.5, 45.0)):
            out = AffineSmoother(timedelta(seconds=span)).smooth(Data.from_dict({"datetime": list(ts), "BSP": list(ys)}))
            ctx.step()
            got, want = list(out["BSP"]), reference(xs, ys, span)
            top = max(map(abs, ys))
            check(len(got) == n and all(abs(g - w) <= 1e-12 * top for g, w in zip(got, want)), "%s at %s smoothed by %s s is %s instead of %s", ys, xs, span, got, want)


SERIES = [[1.0, 1.0, 2.0, 2.0], [3.0], [5.0, 4.0, 4.0], [0.0, 0.0, 0.0, 9.0, 9.0]]


@R.scenario([list(c) for n in (2, 3) for c in itertools.product(range(4), repeat=n)])
def reuse(ctx, case):
    """One smoother used for several time series."""
    sm = AffineSmoother(timedelta(seconds=25))
    for i in case:
        ys = SERIES[i]
        ts = stamps("irregular" if i % 2 else "regular", len(ys))
        out = sm.smooth(Data.from_dict({"datetime": list(ts), "BSP": list(ys)}))
        want = reference([(t - T0).total_seconds() for t in ts], ys, 25.0)
        check(all(abs(a - b) < 1e-9 for a, b in zip(out["BSP"], want)), "series %s of %s becomes %s instead of %s", i, case, out["BSP"], want)
        ctx.step()


@R.scenario(lambda tier: [n for n in range(2, 8 if tier == "thorough" else 7)])
def disorder(ctx, n):
    """Every order of time stamps: only chronological series are smoothed."""
    for perm in itertools.permutations(range(n)):
        ts = stamps("irregular", n)
        data = Data.from_dict({"datetime": [ts[i] for i in perm], "TWS": [float(i % 2) for i in range(n)]})
        ctx.step()
        if perm == tuple(range(n)):
            AffineSmoother().smooth(data)
        else:
            raises(ValueError, lambda: AffineSmoother().smooth(data), f"smoothing rows in order {perm}")


@R.scenario(lambda tier: [n for n in range(1, 7 if tier == "thorough" else 6)])
def simultaneous(ctx, n):
    """Rows recorded at the same time: rows, order and range are kept."""
    for gaps in itertools.product((0.0, 20.0), repeat=n - 1):
        ts = [T0]
        for g in gaps:
            ts.append(ts[-1] + timedelta(seconds=g))
        for ys in itertools.product((1.0, 2.0, 6.5), repeat=n):
            for span in (None, 5.0):
                out = smoother(span).smooth(Data.from_dict({"datetime": list(ts), "TWS": list(ys)}))
                ctx.step()
                got = list(out["TWS"])
                check(list(out["datetime"]) == ts and len(got) == n, "rows %s", list(out.rows(return_type=list)))
                check(all(min(ys) - 1e-9 <= g <= max(ys) + 1e-9 for g in got), "%s at %s becomes %s", ys, ts, got)


@R.scenario([0])
def lazy(ctx, case):
    """The lazy smoother and empty data."""
    cols = {"datetime": stamps("regular", 3)[::-1], "TWS": [1.0, None, 2.0], "label": ["a", None, "b"]}
    out = LazySmoother().smooth(Data.from_dict(cols))
    check({k: list(out[k]) for k in out.keys()} == cols, "lazily smoothed %s", out)
    empty = Data.from_dict({"datetime": [T0], "TWS": [1.0]})[[False]]
    check(AffineSmoother().smooth(empty).n_rows == 0, "smoothing empty data")


@R.scenario(lambda tier: [[n, p, s] for n in (40, 100, 101, 256, 257, 1000) for p in ("alternating", "plateaus", "short ones", "drift", "long plateau") for s in (3.0, 30.0)])
def long_series(ctx, case):
    """Long series: plateaus of every length, values drifting by tiny amounts."""
    n, p, span = case
    ys = {
        "alternating": [float(i % 2) for i in range(n)],
        "plateaus": [float(i * i // 50 % 7) for i in range(n)],
        "short ones": [1.0] * (n // 2) + [float(i % 5) for i in range(n - n // 2)],
        "drift": [5.0 + 1e-9 * (i // 3) for i in range(n)],
        "long plateau": [0.5] + [2.5] * (n - 2) + [1.0],
    }[p]
    xs = [0.0]
    for i in range(n - 1):
        xs.append(xs[-1] + (0.5, 1.0, 7.0, 100.0, 20.0)[i * i % 5])
    ts = [T0 + timedelta(seconds=x) for x in xs]
    out = AffineSmoother(timedelta(seconds=span)).smooth(Data.from_dict({"datetime": list(ts), "BSP": list(ys), "TWS": [3 * y for y in ys]}))
    ctx.step()
    want = reference(xs, ys, span)
    for k, f in (("BSP", 1), ("TWS", 3)):
        got = list(out[k])
        bad = [i for i in range(n) if abs(got[i] - f * want[i]) > 1e-12 * max(map(abs, ys)) * f]
        check(len(got) == n and not bad, "%s of %s rows smoothed by %s s: row %s is %s instead of %s", p, n, span, bad[:1], [got[i] for i in bad[:1]], [f * want[i] for i in bad[:1]])
