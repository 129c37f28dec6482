"""C20: weighers give one weight in [0, 1] per point by their definition."""
import itertools
import math
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing import (
    AllOneWeigher,
    CylindricMeanWeigher,
    CylindricMemberWeigher,
    FluctuationWeigher,

    FuzzyWeigher,
)
from hrosailing.processing.weigher import FuzzyBool
from vf.core import Registry, check, fail, raises

ID = "C20"
ASSUMPTIONS = [
    "cylinders are closed; points on the border are judged where the distances are exact in floating point, elsewhere points within 1e-9 of the border are not part of the enumeration; time windows include their ends",
    "default norms scale wind speed by 1/20, angles by 1/360 and speeds by 1/40, other attributes by 1",
    "arrays given to cylindric weighers with default norm have three columns (wind speed, wind angle, boat speed); time series are chronological",
]
R = Registry()

SCALE = {"TWS": 1 / 20, "AWS": 1 / 20, "TWA": 1 / 360, "AWA": 1 / 360, "BSP": 1 / 40, "SOG": 1 / 40}
POINTS = [(10.0, 40.0, 0.1), (10.0, 40.0, 6.0), (10.0, 55.0, 0.1), (10.0, 180.0, 6.0), (10.75, 40.0, 3.3), (10.75, 350.0, 6.0), (14.0, 55.0, 0.1), (0.0, 0.0, 0.13)]


def scaled(dims):
    sc = [SCALE.get(d, 1) for d in dims]
    return lambda v: math.sqrt(sum((s * x) ** 2 for s, x in zip(sc, v)))


def ambiguous(points, norm, radius):
    return any(abs(norm([a - b for a, b in zip(p, q)]) - radius) < 1e-9 for p in points for q in points)


def mean_reference(points, speeds, norm, radius):
    raw = []
    for p, b in zip(points, speeds):
        near = [s for q, s in zip(points, speeds) if norm([x - y for x, y in zip(q, p)]) <= radius]
        if max(near) == min(near):
            raw.append(0.0)
            continue
        m = math.fsum(near) / len(near)
        std = math.sqrt(math.fsum((s - m) ** 2 for s in near) / len(near))
        raw.append(abs(m - b) / std)
    top = max(raw)
    return [1 - r / top if top > 1e-9 else 1.0 for r in raw]


def member_reference(points, norm, radius, length):
    raw = [sum(norm([x - y for x, y in zip(q[:-1], p[:-1])]) <= radius and abs(q[-1] - p[-1]) <= length for q in points) - 1 for p in points]
    top = max(raw)
    return [r / top if top else 0.0 for r in raw]


def verify(weigher, got, want, what):
    check(isinstance(got, np.ndarray) and got.shape == (len(want),), "%s: weights are %s", what, got)
    check(all(abs(g - w) <= 1e-7 for g, w in zip(got, want)), "%s: weights %s instead of %s", what, got.tolist(), want)
    check(all(-1e-12 <= g <= 1 + 1e-12 for g in got), "%s: weights %s", what, got.tolist())
    st = weigher.get_latest_statistics()
    for key, val in (("average_weight", sum(want) / len(want)), ("minimal_weight", min(want)), ("maximal_weight", max(want))):
        check(abs(st[key] - val) <= 1e-7, "%s: %s %s instead of %s", what, key, st[key], val)


def data_of(points, keys=("TWS", "TWA", "BSP"), **more):
    d = {k: [float(p[i]) for p in points] for i, k in enumerate(keys)}
    d.update(more)
    return Data.from_dict(d)


def max_norm(vec):
    return np.max(np.abs(vec), axis=-1)


NORMS = {"default": (None, scaled(("TWS", "TWA"))), "max": (max_norm, lambda v: max(abs(x) for x in v)), "first": (lambda v: np.abs(v[:, 0]), lambda v: abs(v[0]))}
RADII = {"default": (0.04, 0.05, 0.3, 2.0), "max": (0.5, 16.0, 400.0), "first": (0.1, 3.0)}


def multisets(tier):
    top = 6 if tier == "thorough" else 5
    return [list(c) for n in range(1, top + 1) for c in itertools.combinations_with_replacement(range(len(POINTS)), n)]


@R.scenario(lambda tier: [[c, n] for c in multisets(tier) for n in NORMS])
def cylinders(ctx, case):
    """Both cylinder weighers for every multiset of points, in several orders."""
    idx, name = case
    impl, norm = NORMS[name]
    pts = [POINTS[i] for i in idx]
    orders = list(itertools.permutations(range(len(pts)))) if len(pts) <= 3 else [tuple(range(len(pts))), tuple(reversed(range(len(pts)))), tuple(range(1, len(pts))) + (0,)]
    for radius in RADII[name]:
        if ambiguous([p[:2] for p in pts], norm, radius):
            continue
        mean = CylindricMeanWeigher(radius=radius, norm=impl)
        member = {h: CylindricMemberWeigher(radius=radius, length=h, norm=impl) for h in (0, 3.0)}
        for o in orders:
            ps = [pts[i] for i in o]
            arr = np.array(ps)
            want = mean_reference([p[:2] for p in ps], [p[2] for p in ps], norm, radius)
            verify(mean, mean.weigh(arr), want, f"mean weigher, radius {radius}, norm {name}, points {ps}")
            for h, w in member.items():
                verify(w, w.weigh(arr), member_reference(ps, norm, radius, h), f"member weigher, radius {radius}, length {h}, norm {name}, points {ps}")
            check(np.array_equal(arr, np.array(ps)), "the points were changed to %s", arr)
            ctx.step(3)


LATTICE = [(float(a), float(b), float(c)) for a in (1, 3) for b in (2, 4, 6) for c in (0.5, 1.5)]


@R.scenario(lambda tier: [[list(c), n] for m in ((2, 3, 4, 5) if tier == "thorough" else (2, 3, 4)) for c in itertools.combinations(range(len(LATTICE)), m) for n in ("max", "first")])
def borders(ctx, case):
    """Points exactly on the border of a cylinder belong to it."""
    idx, name = case
    impl, norm = NORMS[name]
    pts = [LATTICE[i] for i in idx]
    arr = np.array(pts)
    for radius in (2.0, 4.0, 1.0):
        w = CylindricMeanWeigher(radius=radius, norm=impl)
        verify(w, w.weigh(arr), mean_reference([p[:2] for p in pts], [p[2] for p in pts], norm, radius), f"mean weigher, radius {radius}, norm {name}, points {pts}")
        for h in (1.0, 0.5, 0):
            w = CylindricMemberWeigher(radius=radius, length=h, norm=impl)
            verify(w, w.weigh(arr), member_reference(pts, norm, radius, h), f"member weigher, radius {radius}, length {h}, norm {name}, points {pts}")
            ctx.step()


KEYS = [("TWS", "TWA", "BSP"), ("BSP", "TWS", "TWA"), ("TWA", "BSP", "TWS"), ("AWS", "AWA", "SOG"), ("TWS", "heel", "BSP"), ("TWS", "BSP"), ("TWS", "TWA", "waves", "BSP"), ("TWS", "TWA", "SOG", "BSP")]
MORE = {"none": {}, "text": ("note", str), "time": ("datetime", None), "int": ("count", int)}
SETS = [[0, 1, 2, 4], [0, 1, 2, 3, 6], [1, 4, 4, 5], [0, 0, 1], [7, 7, 2, 1]]


def build(keys, idx, more):
    cols = {}
    for k in keys:
        src = {"TWS": 0, "AWS": 0, "TWA": 1, "AWA": 1, "BSP": 2, "SOG": 2}.get(k)
        cols[k] = [POINTS[i][src] if src is not None else float((i * 5) % 3) / 2 for i in idx]
        if k == "SOG" and "BSP" in keys:  # not the boat's speed through water
            cols[k] = [3.0 * ((7 * i + 3) % 5) for i in idx]
    if more == "text":
        cols = {"note": ["x"] * len(idx), **cols}
    elif more == "time":
        cols["datetime"] = [datetime(2020, 1, 1, 0, n) for n in range(len(idx))]
    elif more == "int":
        cols["count"] = list(range(len(idx)))
    return cols


def expected(kind, cols, dims, radius, length):
    use = [k for k in (dims if dims is not None else cols) if k in cols and isinstance(cols[k][0], float)]
    if kind == "mean":
        speed = "BSP" if "BSP" in use else "SOG"
        use = [k for k in use if k != speed]
        pts = list(zip(*[cols[k] for k in use]))
        norm = scaled(use)
        if ambiguous(pts, norm, radius):
            return None
        return mean_reference(pts, cols[speed], norm, radius)
    pts = list(zip(*[cols[k] for k in use]))
    norm = scaled(use[:-1])
    if ambiguous([p[:-1] for p in pts], norm, radius):
        return None
    return member_reference(pts, norm, radius, length)


def one(kind, radius, length, dims):
    kw = {} if dims is None else {"dimensions": dims}
    return CylindricMeanWeigher(radius=radius, **kw) if kind == "mean" else CylindricMemberWeigher(radius=radius, length=length, **kw)


@R.scenario([[kind, list(keys), s, more, d] for kind in ("mean", "member") for keys in KEYS for s in range(len(SETS)) for more in MORE for d in (False, True)])
def containers(ctx, case):
    """Measurement tables with several columns in any order, chosen dimensions."""
    kind, keys, s, more, given = case
    cols = build(keys, SETS[s], more)
    choices = [None] if not given else [list(c) for c in itertools.permutations(keys) if len(keys) <= 3] + [[*keys, "note", "count", "missing"]] + ([list(keys[:2]) + [keys[-1]]] if len(keys) > 3 else [])
    for dims in choices:
        for radius in (0.05, 0.6):
            want = expected(kind, cols, dims, radius, 3.0)
            if want is None:
                continue
            keep = None if dims is None else list(dims)
            weigher = one(kind, radius, 3.0, dims)
            data = Data.from_dict({k: list(v) for k, v in cols.items()})
            for turn in range(2):
                verify(weigher, weigher.weigh(data), want, f"{kind} weigher, {cols}, dimensions {keep}, radius {radius}, turn {turn}")
                ctx.step()
            check(dims == keep, "given dimensions were changed from %s to %s", keep, dims)
            check({k: list(data[k]) for k in data.keys()} == cols, "the data was changed to %s", data)


@R.scenario([[kind, a, b] for kind in ("mean", "member") for a in range(len(KEYS)) for b in range(len(KEYS) + 1)])
def reuse(ctx, case):
    """One weigher used for tables with different columns and arrays."""
    kind, a, b = case
    for more in ("none", "text"):
        weigher = one(kind, 0.05, 3.0, None)
        for n, k in enumerate((a, b, a)):
            if k == len(KEYS):
                pts = [POINTS[i] for i in SETS[1]]
                norm = scaled(("TWS", "TWA"))
                want = mean_reference([p[:2] for p in pts], [p[2] for p in pts], norm, 0.05) if kind == "mean" else member_reference(pts, norm, 0.05, 3.0)
                got = weigher.weigh(np.array(pts))
            else:
                cols = build(KEYS[k], SETS[n], more)
                want = expected(kind, cols, None, 0.05, 3.0)
                got = weigher.weigh(Data.from_dict(cols))
            if want is not None:
                verify(weigher, got, want, f"{kind} weigher used for tables {a}, {b}, {a}, use {n}")
            ctx.step()


T0 = datetime(2023, 3, 28, 11)


def fluctuation_reference(times, cols, attrs, before, after, bounds):
    out = []
    for t in times:
        w = 1.0
        near = [i for i, u in enumerate(times) if -before <= u - t <= after]
        for a, ub in zip(attrs, bounds):
            vals = [cols[a][i] for i in near]
            if min(vals) == max(vals):
                continue
            m = math.fsum(vals) / len(vals)
            std = math.sqrt(math.fsum((v - m) ** 2 for v in vals) / len(vals))
            w *= max(0.0, 1 - std / ub) if ub else 0.0
        out.append(w)
    return out


GAPS = (0, 10, 60, 100)
MANY = [("TWS", "TWA", "BSP"), ("BSP", "TWS", "heel"), ("TWA", "heel", "TWS", "BSP"), ("heel", "BSP", "TWA", "TWS")]
MANY_SPANS = [60, (60, 70), (1000, 1000)]
SPANS = [60, (60, 0), (0, 60), (60, 70), (0, 0), (1000, 1000), (5, 10)]


@R.scenario(lambda tier: [[n, list(g)] for n in range(1, 7 if tier == "thorough" else 6) for g in itertools.product(GAPS, repeat=n - 1)])
def fluctuation(ctx, case):
    """All small time series, windows and column orders."""
    n, gaps = case
    times = [0]
    for g in gaps:
        times.append(times[-1] + g)
    stamps = [T0 + timedelta(seconds=t) for t in times]
    for vals in itertools.product((10.1, 8.0, 12.0), repeat=min(n, 3)):
        vals = (list(vals) + [9.0, 11.5, 11.5])[:n]
        cols = {"TWS": vals, "TWA": [30.0 + (7 * i * i) % 5 for i in range(n)]}
        for span in SPANS:
            before, after = (span, 0) if isinstance(span, int) else span
            arg = timedelta(seconds=span) if isinstance(span, int) else tuple(timedelta(seconds=s) for s in span)
            for attrs, bounds in ((["TWS"], [2.0]), (["TWS", "TWA"], [2.5, 3]), (["TWA", "TWS"], [1, 20.0]), (["TWS"], [0]), (["TWA", "TWS"], [5.0, 0.0])):
                order = ["TWS", "datetime", "TWA"] if len(attrs) == 1 or n % 2 else ["TWA", "TWS", "datetime"]
                data = Data.from_dict({k: (list(stamps) if k == "datetime" else list(cols[k])) for k in order})
                w = FluctuationWeigher(attrs, arg, bounds)
                want = fluctuation_reference(times, cols, attrs, before, after, bounds)
                verify(w, np.asarray(w.weigh(data)), want, f"fluctuation of {attrs} bounded by {bounds} in {cols} at {times} s, window {span}")
                ctx.step()
            if n > 1 and span in MANY_SPANS:
                # three and more attributes, some of them fluctuating too much
                cols = {"TWS": vals, "TWA": [30.0 + (7 * i * i) % 5 for i in range(n)], "BSP": [5.0 - i % 2 for i in range(n)], "heel": [1.0] * n}
                for attrs in MANY:
                    limit = {"TWS": 1.5, "TWA": 2.25, "BSP": 0.75, "heel": 0.5}
                    data = Data.from_dict({"datetime": list(stamps), **{k: list(v) for k, v in cols.items()}})
                    w = FluctuationWeigher(list(attrs), arg, [limit[a] for a in attrs])
                    want = fluctuation_reference(times, cols, attrs, before, after, [limit[a] for a in attrs])
                    verify(w, np.asarray(w.weigh(data)), want, f"fluctuation of {attrs} in {cols} at {times} s, window {span}")
                    ctx.step()
    w = FluctuationWeigher(["TWS", "TWA"], timedelta(seconds=60), [2, 4])
    first = np.asarray(w.weigh(data)).tolist()
    w.weigh(data_of([(1.0, 2.0), (9.0, 0.0)], ("TWA", "TWS"), datetime=stamps[:1] * 2))
    check(np.asarray(w.weigh(data)).tolist() == first, "weighing again gives other weights")
    keep = [True] * n
    part = w.weigh(data[keep])
    check(np.asarray(part).tolist() == first, "weights of equal data differ")


WIDE_GAPS = (0.25, 10, 86400, 86405, 172790, 31536000)
WIDE_SPANS = [(0.25, 0), (0.25, 0.5), (15, 15), (86400, 0), (0, 86400), (86410, 172800), (20, 86402.5), (40000000, 100000)]


@R.scenario(lambda tier: [[n, list(g)] for n in range(2, 6 if tier == "thorough" else 5) for g in itertools.product(WIDE_GAPS, repeat=n - 1)])
def time_scales(ctx, case):
    """Time differences and windows from fractions of a second up to years."""
    n, gaps = case
    times = [0]
    for g in gaps:
        times.append(times[-1] + g)
    stamps = [T0 + timedelta(seconds=t) for t in times]
    cols = {"TWS": [10.0 + (i * i % 3) / 2 for i in range(n)], "TWA": [30.0 + (7 * i * i) % 5 for i in range(n)]}
    for before, after in WIDE_SPANS:
        arg = timedelta(seconds=before) if after == 0 else (timedelta(seconds=before), timedelta(seconds=after))
        for attrs, bounds in ((["TWS"], [2.0]), (["TWA", "TWS"], [8, 1.5])):
            w = FluctuationWeigher(attrs, arg, bounds)
            data = Data.from_dict({"datetime": list(stamps), **{k: list(v) for k, v in cols.items()}})
            verify(w, np.asarray(w.weigh(data)), fluctuation_reference(times, cols, attrs, before, after, bounds), f"fluctuation of {attrs} bounded by {bounds} at {times} s, window {before, after}")
            ctx.step()


@R.scenario([0])
def others(ctx, case):
    """Constant and fuzzy weighers, empty data and invalid parameters."""
    arr = np.array(POINTS)
    data = data_of(POINTS)
    one_w = AllOneWeigher()
    for pts in (arr, data, arr[:1]):
        n = pts.n_rows if isinstance(pts, Data) else len(pts)
        check(np.array_equal(one_w.weigh(pts), np.ones(n)), "constant weights %s", one_w.weigh(pts))
    fw = FuzzyWeigher(FuzzyBool(lambda p: p["TWS"] / 20))
    check(np.allclose(fw.weigh(data), [p[0] / 20 for p in POINTS]), "fuzzy weights %s", fw.weigh(data))
    fw = FuzzyWeigher(FuzzyBool(lambda p: p[1] / 360))
    check(np.allclose(fw.weigh(arr), [p[1] / 360 for p in POINTS]), "fuzzy weights %s", fw.weigh(arr))
    for w in (AllOneWeigher(), CylindricMeanWeigher(), CylindricMemberWeigher()):
        check(len(w.weigh(arr[:0])) == 0 and len(w.weigh(data[[False] * len(POINTS)])) == 0, "weights of no points")
    raises(ValueError, lambda: CylindricMeanWeigher(radius=0), "radius 0")
    raises(ValueError, lambda: CylindricMemberWeigher(radius=-1), "negative radius")
    raises(ValueError, lambda: CylindricMemberWeigher(length=-0.1), "negative length")
    raises(ValueError, lambda: CylindricMeanWeigher().weigh(Data.from_dict({"TWS": [1.0], "TWA": [2.0]})), "data without speed")
    m = CylindricMeanWeigher()
    want = mean_reference([p[:2] for p in POINTS], [p[2] for p in POINTS], scaled(("TWS", "TWA")), 0.05)
    verify(m, m.weigh(arr), want, "default radius")
    m = CylindricMemberWeigher()
    verify(m, m.weigh(arr), member_reference(POINTS, scaled(("TWS", "TWA")), 0.05, 0.05), "default radius and length")
    big = [(8 + 0.37 * i % 5, (i * 37) % 360, (i * i) % 11 / 2) for i in range(60)]
    m = CylindricMeanWeigher(radius=0.13)
    verify(m, m.weigh(np.array(big, dtype=float)), mean_reference([p[:2] for p in big], [p[2] for p in big], scaled(("TWS", "TWA")), 0.13), "60 points")
    m = CylindricMemberWeigher(radius=0.13, length=1.01)
    verify(m, m.weigh(np.array(big, dtype=float)), member_reference(big, scaled(("TWS", "TWA")), 0.13, 1.01), "60 points")


# ------------------------------------------------------------- many points
@R.scenario([[n, k, span] for n in (60, 130, 270, 600) for k in range(4) for span in (0, 1, 2)])
def long_series(ctx, case):
    """Windows with hundreds of points; each of them counts."""
    n, k, span = case
    step = (1, 2, 1, 5)[k]
    times = [i * step for i in range(n)]
    if k == 2:
        times = [t // 3 for t in times]
    vals = [10.0 + [(i * 37 % 11) / 10, float(i == n // 2) * 3, (i / n) * 3, float(i < n // 3)][k] for i in range(n)]
    cols = {"TWS": vals, "TWA": [30.0 + (7 * i * i) % 5 for i in range(n)]}
    before, after = ((n, n), (n // 2, 0), (3, n // 3))[span]
    for attrs, bounds in ((["TWS"], [2.0]), (["TWA", "TWS"], [4.0, 5.0])):
        w = FluctuationWeigher(attrs, (timedelta(seconds=before), timedelta(seconds=after)), bounds)
        data = Data.from_dict({"datetime": [T0 + timedelta(seconds=t) for t in times], **{a: list(v) for a, v in cols.items()}})
        want = fluctuation_reference(times, cols, attrs, before, after, bounds)
        verify(w, np.asarray(w.weigh(data)), want, f"series {case} of {attrs}")
        ctx.step()


@R.scenario([[n, k, r] for n in (70, 150, 300, 520) for k in range(3) for r in (0.0625, 0.25, 5.0)])
def many_points(ctx, case):
    """Cylinders in sets of hundreds of points with clusters of every size."""
    n, k, radius = case
    pts = []
    for i in range(n):
        x = [float(i % 17), float(i * i % 7), float(i // (n // 2 + 1)) * 8][k]
        pts.append((x, [45.0 * (i % 8), 90.0, 22.5 * (i * 5 % 16)][k], [float(i * 7 % 13) / 4, i / 64, float(i == n - 1)][k]))
    norm = scaled(("TWS", "TWA"))
    if ambiguous([p[:2] for p in pts[:80]], norm, radius):
        radius += 0.001
    near = [[norm([a - b for a, b in zip(p[:2], q[:2])]) <= radius for q in pts] for p in pts]
    raw = []
    for i, p in enumerate(pts):
        sp = [q[2] for q, c in zip(pts, near[i]) if c]
        m = math.fsum(sp) / len(sp)
        std = math.sqrt(math.fsum((s - m) ** 2 for s in sp) / len(sp))
        raw.append(0.0 if max(sp) == min(sp) else abs(m - p[2]) / std)
    top = max(raw)
    want = [1 - r / top if top > 1e-9 else 1.0 for r in raw]
    for src in (np.array(pts), data_of(pts)):
        w = CylindricMeanWeigher(radius=radius)
        verify(w, w.weigh(src), want, f"mean weigher, points {case}")
        ctx.step()
    for length in (0.0, 0.3, 100.0):
        raw = [sum(c and abs(q[2] - p[2]) <= length for q, c in zip(pts, near[i])) - 1 for i, p in enumerate(pts)]
        want = [r / max(raw) if max(raw) else 0.0 for r in raw]
        if any(1e-12 < abs(abs(p[2] - q[2]) - length) < 1e-9 for p in pts[:60] for q in pts):
            continue
        for src in (np.array(pts), data_of(pts)):
            w = CylindricMemberWeigher(radius=radius, length=length)
            verify(w, w.weigh(src), want, f"member weigher, points {case}, length {length}")
            ctx.step()
