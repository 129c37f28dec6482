"""C25: extensions build the diagram from the interpolated weighted points."""
import itertools
import math
import warnings

import numpy as np

from hrosailing.core.data import WeightedPoints
from hrosailing.core.modelfunctions import ws_s_wa_gauss
from hrosailing.pipeline.extensions import (
    CurveExtension,
    InterpolationWarning,
    PointcloudExtension,
    TableExtension,
)
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing import (
    ArchimedeanSampler,
    ArithmeticMeanInterpolator,
    Ball,
    Cuboid,
    FibonacciSampler,
    IDWInterpolator,
    ImprovedIDWInterpolator,
    LeastSquareRegressor,
    Neighbourhood,
    ODRegressor,
    Regressor,
    Sampler,
    ScalingBall,
    UniformRandomSampler,
    ZeroInjector,
)
from vf.core import Registry, check, fail, raises, same

ID = "C25"
ASSUMPTIONS = [
    "weighted points are arrays of true wind speed, angle in [0, 360) and boat speed",
    "entries without any point in their neighbourhood are 0 and warned about",
    "interpolation within a neighbourhood is the subject of C04, membership of C05",
]
R = Registry()

PTS = np.array([
    [6.0, 45.0, 4.0], [6.5, 90.0, 5.5], [8.0, 50.0, 5.0], [9.9, 135.2, 6.25],
    [12.0, 90.0, 7.5], [11.0, 180.0, 6.0], [7.25, 300.0, 5.25], [6.1, 47.0, 9.0],
])
WTS = np.array([1.0, 0.5, 0.25, 0.75, 1.0, 0.1, 0.9, 0.3])


def weighted(idx, shift=0.0):
    idx = list(idx)
    return WeightedPoints(PTS[idx] + [shift, 0, 0], WTS[idx].copy())


def big(n=600):
    i = np.arange(n)
    return WeightedPoints(
        np.column_stack((4 + (i * 37 % 121) / 10, (i * 53 % 3597) / 10, 3 + (i * 29 % 50) / 10)), 0.1 + (i % 10) / 10
    )


def wheel(points):
    """A norm in which wind angle degrees count a tenth."""
    return np.linalg.norm(points / [1, 10], axis=-1)


class Everything(Neighbourhood):
    def is_contained_in(self, pts):
        return np.ones(len(pts), dtype=bool)


class Nearest(Neighbourhood):
    """The points not farther than twice the nearest one."""

    def is_contained_in(self, pts):
        d = np.linalg.norm(pts, axis=1)
        return d <= 2 * d.min()


def dist(p, q, w=1.0):
    return math.hypot(p[0] - q[0], (p[1] - q[1]) / w)


NEIGHBOURHOODS = {
    "ball": (lambda: Ball(radius=30, norm=lambda x: np.linalg.norm(x, axis=-1)), lambda ps, q: [dist(p, q) <= 30 for p in ps]),
    "wheel": (lambda: Ball(radius=4.5, norm=wheel), lambda ps, q: [dist(p, q, 10) <= 4.5 for p in ps]),
    "cuboid": (lambda: Cuboid(norm=np.abs, dimensions=(2.5, 41.0)), lambda ps, q: [abs(p[0] - q[0]) <= 2.5 and abs(p[1] - q[1]) <= 41.0 for p in ps]),
    "all": (Everything, lambda ps, q: [True] * len(ps)),
    "nearest": (Nearest, lambda ps, q: [dist(p, q) <= 2 * min(dist(r, q) for r in ps) for p in ps]),
}
INTERPOLATORS = {
    "mean": lambda: ArithmeticMeanInterpolator(params=(50,)),
    "mean1": lambda: ArithmeticMeanInterpolator(params=(1,)),
    "idw": IDWInterpolator,
    "iidw": ImprovedIDWInterpolator,
}
RESOLUTIONS = {
    "lists": ([6, 8, 12], [45, 90, 135, 300]),
    "mixed": ([12.5, 6.0, 7.25], [300, 47.0, 400]),
    "one": ([9], [100.0]),
    "steps": (8, 45),
    "min_max": "min_max",
    "auto": "auto",
}


def grid(resolution, pts):
    """Expected wind speeds and wind angles; None where not prescribed."""
    if resolution == "min_max":
        lo, hi = round(pts[:, 0].min()), round(pts[:, 0].max())
        return list(range(lo, hi + 1, 2)), list(range(5, 356, 5))
    if resolution == "auto":
        return None, None
    ws, wa = resolution
    ws = list(np.arange(ws, 40, ws)) if np.isscalar(ws) else ws
    wa = list(np.arange(wa, 360, wa)) if np.isscalar(wa) else wa
    return ws, [a % 360 for a in wa]


def expected(wp, q, neigh, interp):
    mask = NEIGHBOURHOODS[neigh][1](wp.data[:, :2], q)
    if not any(mask):
        return 0.0, True
    sub = WeightedPoints(wp.data[mask].copy(), wp.weights[mask].copy())
    return float(INTERPOLATORS[interp]().interpolate(sub, np.array(q, dtype=float))), False


def build(ext, wp):
    before = wp.data.copy(), wp.weights.copy()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        pd = ext.process(wp)
    check(np.array_equal(before[0], wp.data) and np.array_equal(before[1], wp.weights), "the extension changed the weighted points")
    return pd, any(issubclass(c.category, InterpolationWarning) for c in caught)


def judge_table(ctx, pd, wp, res, neigh, interp, warned, what):
    check(isinstance(pd, PolarDiagramTable), f"{what} is a {type(pd).__name__}")
    ws, wa = grid(res, wp.data)
    if ws is None:
        ws, wa = list(pd.wind_speeds), list(pd.wind_angles)
        for k, have in ((0, ws), (1, wa)):
            col = wp.data[:, k]
            lo, hi = round(col.min()), round(col.max())
            check(all(lo <= h <= hi or (k and hi == 360 and h == 0) for h in have), f"{what}: automatic resolution {have} leaves [{lo}, {hi}]")
            check(lo in have and (hi in have or (k and hi % 360 in have)), f"{what}: automatic resolution {have} misses {lo} or {hi}")
            check(len(set(have)) == len(have), f"{what}: automatic resolution {have} has duplicates")
    same(pd.wind_speeds, sorted(ws), f"{what}: wind speeds")
    same(pd.wind_angles, sorted(wa), f"{what}: wind angles")
    empty = False
    for i, a in enumerate(pd.wind_angles):
        for j, s in enumerate(pd.wind_speeds):
            val, none = expected(wp, (s, a), neigh, interp)
            empty |= none
            same(pd.boat_speeds[i][j], val, f"{what}: entry at wind speed {s}, angle {a}")
            ctx.step()
    check(warned == empty, f"{what}: warned {warned}, entries without neighbours {empty}")
    return pd.boat_speeds


SETS = [(0,), (0, 1), (4, 2, 0), (0, 2, 7), (1, 4, 3, 6), (0, 1, 2, 3, 4, 5, 6, 7), (7, 6, 5, 4, 3, 2, 1, 0)]


def table_cases(t):
    for r in RESOLUTIONS:
        for n in NEIGHBOURHOODS:
            for i in INTERPOLATORS:
                for s in SETS:
                    yield [r, n, i, list(s), 0.0]
    # other ranges of wind speeds, even and odd
    for r in ("min_max", "auto"):
        for s in SETS:
            for shift in (-4.4, -0.9, 0.6, 1.0, 7.3):
                for pick in (list(s), [*s, 3], [*s, 5]):
                    yield [r, "wheel", "mean", pick, shift]


@R.scenario(table_cases)
def tables(ctx, case):
    """Every entry is the interpolation of its neighbourhood's points."""
    r, n, i, s, shift = case
    wp = weighted(s, shift)
    ext = TableExtension(RESOLUTIONS[r], NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]())
    pd, warned = build(ext, wp)
    return np.round(judge_table(ctx, pd, wp, RESOLUTIONS[r], n, i, warned, f"table {case}"), 6)


@R.scenario([[n, i, sub] for n in NEIGHBOURHOODS for i in INTERPOLATORS for sub in ([0, 2, 7], [1, 3, 4, 6], [0, 1, 2, 5])])
def table_orders(ctx, case):
    """Every order of the points gives the same table."""
    n, i, sub = case
    first = None
    for order in itertools.permutations(sub):
        pd, _ = build(TableExtension(RESOLUTIONS["lists"], NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]()), weighted(order))
        if first is None:
            first = pd.boat_speeds
        same(pd.boat_speeds, first, f"{case} in order {order}")
        ctx.step()
    return np.round(first, 6)


@R.scenario([[r, n, i, m] for r in ("auto", "min_max", "lists") for n in ("wheel", "cuboid") for i in ("mean", "idw") for m in (1, 40, 160, 600)])
def many_points(ctx, case):
    """Larger data, including angles next to 0 and 360 degrees."""
    r, n, i, m = case
    wp = big(m)
    pd, warned = build(TableExtension(RESOLUTIONS[r], NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]()), wp)
    return np.round(judge_table(ctx, pd, wp, RESOLUTIONS[r], n, i, warned, f"table {case}"), 6)


class Fixed(Sampler):
    """Hands out a fixed sample and remembers what it was given."""

    def __init__(self, sample):
        self.fixed, self.seen = sample, []

    def sample(self, pts):
        self.seen.append(np.array(pts))
        return np.array(self.fixed, dtype=float)


SAMPLES = {
    "three": [[6.0, 45.0], [8.5, 60.0], [11.0, 100.0]],
    "unsorted": [[11.0, 350.0], [6.0, 45.0], [6.0, 20.0], [6.0, 45.5]],
    "one": [[9.0, 120.0]],
    "far": [[30.0, 10.0], [6.0, 45.0], [0.5, 200.0]],
}


@R.scenario([[s, n, i, list(p)] for s in SAMPLES for n in NEIGHBOURHOODS for i in INTERPOLATORS for p in SETS])
def clouds(ctx, case):
    """A cloud of the sampled winds with interpolated speeds."""
    s, n, i, p = case
    wp = weighted(p)
    sampler = Fixed(SAMPLES[s])
    pd, warned = build(PointcloudExtension(sampler, NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]()), wp)
    check(isinstance(pd, PolarDiagramPointcloud), f"{case} is a {type(pd).__name__}")
    same(sampler.seen[0], wp.data[:, :2], f"{case}: winds handed to the sampler")
    want = [expected(wp, q, n, i) for q in SAMPLES[s]]
    same(pd.points, [[*q, w[0]] for q, w in zip(SAMPLES[s], want)], f"points of {case}")
    check(warned == any(w[1] for w in want), f"{case}: warned {warned}")
    ctx.step(len(want))
    return np.round(pd.points, 6)


@R.scenario([[k, n, neigh, i] for k in ("uniform", "fibonacci", "archimedean") for n in (1, 4, 25) for neigh in ("wheel", "all") for i in ("mean", "idw")])
def sampled_clouds(ctx, case):
    """The library's samplers within the extension."""
    k, n, neigh, i = case
    sampler = {"uniform": UniformRandomSampler, "fibonacci": FibonacciSampler, "archimedean": ArchimedeanSampler}[k](n)
    wp = weighted(range(8))
    pd, _ = build(PointcloudExtension(sampler, NEIGHBOURHOODS[neigh][0](), INTERPOLATORS[i]()), wp)
    check(pd.points.shape == (n, 3), f"{case}: {pd.points.shape} points")
    for s, a, b in pd.points:
        same(b, expected(wp, (s, a), neigh, i)[0], f"{case}: speed at {s}, {a}", rtol=1e-6)
        ctx.step()
    return case


# ---- curves -----------------------------------------------------------------
class Recorder(Regressor):
    """Remembers the data it was fitted to; its parameters are its means."""

    def __init__(self):
        self.seen, self.popt = [], None

    @property
    def model_func(self):
        return linear

    @property
    def optimal_params(self):
        return self.popt

    def fit(self, data):
        self.seen.append(np.array(data))
        self.popt = np.mean(data, axis=0)


def linear(ws, wa, a, b, c):
    return a + b * np.asarray(ws) + c * np.asarray(wa)


def plane(radians, n=12):
    """Points on a plane of wind speed and angle."""
    i = np.arange(n)
    ws, wa = 4.0 + (i * 5 % 13), (i * 67.0) % 360
    bsp = linear(ws, np.deg2rad(wa) if radians else wa, 1.5, 0.25, 0.5 if radians else 0.01)
    return WeightedPoints(np.column_stack((ws, wa, bsp)), np.linspace(0.1, 1, n))


REGRESSORS = {
    "recorder": Recorder,
    "least": lambda: LeastSquareRegressor(linear, (1.0, 1.0, 0.0)),
    "default": lambda: LeastSquareRegressor(linear),
    "odr": lambda: ODRegressor(linear, (1.0, 0.1, 0.02)),
}


@R.scenario([[k, rad, n, o] for k in REGRESSORS for rad in (False, True) for n in (4, 5, 12, 40) for o in (0, 1, 2)])
def curves(ctx, case):
    """The regression curve of the points, in degrees or radians."""
    k, rad, n, o = case
    wp = plane(rad, n)
    order = [list(range(n)), list(range(n))[::-1], [(i * 7 + 3) % n if n % 7 else i for i in range(n)]][o]
    wp = WeightedPoints(wp.data[order].copy(), wp.weights[order].copy())
    reg = REGRESSORS[k]()
    ext = CurveExtension(reg, radians=rad)
    pd, _ = build(ext, wp)
    check(isinstance(pd, PolarDiagramCurve), f"{case} is a {type(pd).__name__}")
    check(pd.radians is rad, f"{case}: radians is {pd.radians}")
    if k == "recorder":
        want = wp.data.copy()
        if rad:
            want[:, 1] = np.deg2rad(want[:, 1])
        same(reg.seen[0], want, f"{case}: data handed to the regressor")
        same(pd.parameters, want.mean(axis=0), f"{case}: parameters")
    else:
        same(pd.parameters, [1.5, 0.25, 0.5 if rad else 0.01], f"{case}: parameters", rtol=1e-4, atol=1e-6)
    for s, a, b in wp.data:
        p = pd.parameters
        u = math.radians(a) if rad else a  # radian curves are asked in radians
        same(pd(s, u), p[0] + p[1] * s + p[2] * u, f"{case}: curve at {s}, {a}")
        if k != "recorder":
            same(pd(s, u), b, f"{case}: speed at the recorded wind {s}, {a}", rtol=1e-4, atol=1e-5)
        ctx.step()
    pd2, _ = build(ext, wp)
    same(pd2.parameters, pd.parameters, f"{case}: second build", rtol=1e-5, atol=1e-7)
    return [round(float(v), 4) for v in pd.parameters]


@R.scenario([[rad] for rad in (False, True)])
def default_curve(ctx, case):
    """The default curve extension reproduces data of its own model."""
    from hrosailing.core.modelfunctions import ws_s_wa_gauss_and_square

    params = (0.25, 0.2, 10e-5, 1e-8, 3e-6, 110, 2000, 3.2e-6, 250, 2100)
    ws, wa = np.meshgrid([4.0, 8.0, 12.0, 16.0], np.arange(10.0, 360, 25))
    data = np.column_stack((ws.ravel(), wa.ravel(), ws_s_wa_gauss_and_square(ws.ravel(), wa.ravel(), *params)))
    if case[0]:
        pd, _ = build(CurveExtension(Recorder(), radians=True), WeightedPoints(data, np.ones(len(data))))
        check(pd.radians is True, "radians")
        return case
    a, _ = build(CurveExtension(), WeightedPoints(data, np.ones(len(data))))
    check(a.curve is ws_s_wa_gauss_and_square, "model function of the default extension")
    err = max(abs(float(a(s, w)) - b) for s, w, b in data)
    check(np.isfinite(err), "default curve is not finite")
    b, _ = build(CurveExtension(), WeightedPoints(data * [1, 1, 2], np.ones(len(data))))
    c, _ = build(CurveExtension(), WeightedPoints(data, np.ones(len(data))))
    same(c.parameters, a.parameters, "default extension after a fit to other data")
    return case


# ---- reuse ------------------------------------------------------------------
@R.scenario([[k, list(o)] for k in ("table", "minmax", "auto", "none", "cloud", "curve") for o in itertools.product(range(4), repeat=2)])
def reuse(ctx, case):
    """One extension object used for several data sets."""
    k, order = case
    sets = [weighted([0, 1, 2, 4]), weighted([3, 5, 6]), big(40), weighted(range(8))]

    def make():
        n, i = NEIGHBOURHOODS["wheel"][0](), IDWInterpolator()
        if k == "cloud":
            return PointcloudExtension(Fixed(SAMPLES["unsorted"]), n, i)
        if k == "curve":
            return CurveExtension(LeastSquareRegressor(linear, (1.0, 1.0, 0.0)))
        res = {"table": ([6, 8], [40, 80, 200]), "minmax": "min_max", "auto": "auto", "none": None}[k]
        return TableExtension(res, n, i)

    ext = make()
    made = [build(ext, sets[i])[0] for i in order]
    for i, pd in zip(order, made):
        fresh, _ = build(make(), sets[i])
        if k == "cloud":
            same(pd.points, fresh.points, f"{case}: points of set {i}")
        elif k == "curve":
            same(pd.parameters, fresh.parameters, f"{case}: parameters of set {i}")
        else:
            same(pd.wind_speeds, fresh.wind_speeds, f"{case}: wind speeds of set {i}")
            same(pd.wind_angles, fresh.wind_angles, f"{case}: wind angles of set {i}")
            same(pd.boat_speeds, fresh.boat_speeds, f"{case}: boat speeds of set {i}")
        ctx.step()
    return case


# ---- injection --------------------------------------------------------------
@R.scenario([[n, list(s), t] for n in (1, 2, 3, 5, 20) for s in SETS + [(3, 5), (6, 1, 4, 2)] for t in ("float64", "float32", "int64", "int16", "object")])
def zeros(ctx, case):
    """Zero injection: points of no speed at 0 and 360 degrees."""
    n, s, kind = case
    wp = weighted(s)
    wp = WeightedPoints(np.round(wp.data * 4).astype(kind), wp.weights)
    before = wp.data.copy(), wp.weights.copy()
    inj = ZeroInjector(n)
    for turn in range(2):
        out = inj.inject(wp)
        check(np.array_equal(before[0], wp.data) and np.array_equal(before[1], wp.weights), "injection changed the points")
        lo, hi = before[0][:, 0].min(), before[0][:, 0].max()
        ws = [lo + (hi - lo) * k / (n - 1) if n > 1 else lo for k in range(n)]
        want = sorted([w, a, 0.0] for w in ws for a in (0.0, 360.0))
        same(sorted(out.data.tolist()), want, f"{case}: injected points")
        same(out.weights, np.ones(2 * n), f"{case}: injected weights")
        check(inj.get_latest_statistics()["n_injected"] == 2 * n, f"{case}: statistics {inj.get_latest_statistics()}")
        out.data[:] = 7  # the injected points are the caller's
        ctx.step()
    return case


@R.scenario([["list"], ["shape"], ["empty"], ["flat"]])
def injection_refused(ctx, case):
    data = {"shape": np.ones((3, 2)), "empty": np.empty((0, 3)), "flat": np.ones(3), "list": None}[case[0]]
    if data is None:
        from hrosailing.core.data import Data

        d = Data.from_dict({"TWS": [1.0], "TWA": [2.0], "BSP": [3.0]})
        raises(TypeError, lambda: ZeroInjector(2).inject(WeightedPoints(d, np.ones(1))), "injecting into Data")
    else:
        raises(ValueError, lambda: ZeroInjector(2).inject(WeightedPoints(data, np.ones(len(data)))), f"injecting into {case}")
    return case


@R.scenario([[n, i, neigh] for n in (99, 100, 101, 256, 257, 999, 1001, 2500) for i in ("mean1", "idw") for neigh in ("all", "wheel", "cuboid")])
def crowded(ctx, case):
    """Neighbourhoods of very many points: every one of them counts, the last as much as the first."""
    n, i, neigh = case
    j = np.arange(n)
    for turn in (1, -1):
        wp = WeightedPoints(np.column_stack((8.0 + 0.3 * np.sin(j), 90.0 + 10 * np.cos(j * 1.7), np.where(j < n // 2, 2.0, 7.0)))[::turn].copy(), (0.2 + (j % 5) / 5)[::turn].copy())
        pd, _ = build(TableExtension(([8.05, 9.0], [85.5, 101.0]), NEIGHBOURHOODS[neigh][0](), INTERPOLATORS[i]()), wp)
        judge_table(ctx, pd, wp, ([8.05, 9.0], [85.5, 101.0]), neigh, i, False, f"table {case}")
        q = [[8.01, 91.25], [8.5, 80.125]]
        pc, _ = build(PointcloudExtension(Fixed(q), NEIGHBOURHOODS[neigh][0](), INTERPOLATORS[i]()), wp)
        for row, x in zip(pc.points, q):
            same(row, [*x, expected(wp, x, neigh, i)[0]], f"cloud of {case}")


@R.scenario([[e, neigh, i] for e in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9) for neigh in ("cuboid", "all", "wheel") for i in ("mean1", "idw")])
def fine_resolutions(ctx, case):
    """Grid values and samples with many digits, next to each other and next to points."""
    e, neigh, i = case
    wp = weighted(range(8))
    res = ([7.123456789, 7.123456789 + e, 9.5], [47.0 + e, 90.123456789, 90.123456789 + e, 300.0 - e])
    pd, warned = build(TableExtension(res, NEIGHBOURHOODS[neigh][0](), INTERPOLATORS[i]()), wp)
    check(np.array_equal(pd.wind_speeds, res[0]) and np.array_equal(pd.wind_angles, res[1]), "%s: grid %s x %s", case, pd.wind_speeds.tolist(), pd.wind_angles.tolist())
    judge_table(ctx, pd, wp, res, neigh, i, warned, f"table {case}")
    q = [[7.123456789, 90.123456789], [7.123456789 + e, 90.123456789 - e], [6.0 + e, 45.0 - e]]
    pc, _ = build(PointcloudExtension(Fixed(q), NEIGHBOURHOODS[neigh][0](), INTERPOLATORS[i]()), wp)
    check(np.array_equal(pc.points[:, :2], q), "%s: sampled winds %s", case, pc.points.tolist())
    for row, x in zip(pc.points, q):
        same(row[2], expected(wp, x, neigh, i)[0], f"cloud of {case} at {x}")
        ctx.step()


@R.scenario([[n, k] for n in (400, 1000) for k in ("table", "cloud")])
def fine_grids(ctx, case):
    """Large tables and clouds."""
    n, k = case
    wp = weighted(range(8))
    if k == "table":
        res = ([4.0 + 10.0 * i / 21 for i in range(21)], [360.0 * i / (n // 20) + 0.1 for i in range(n // 20)])
        pd, warned = build(TableExtension(res, Everything(), IDWInterpolator()), wp)
        judge_table(ctx, pd, wp, res, "all", "idw", warned, f"table {case}")
    else:
        q = [[4.0 + 10.0 * (i * 37 % n) / n, 360.0 * i / n] for i in range(n)]
        pc, _ = build(PointcloudExtension(Fixed(q), Everything(), IDWInterpolator()), wp)
        same(pc.points, [[*x, expected(wp, x, "all", "idw")[0]] for x in q], f"cloud {case}")


# -------------------------------------------------------- speeds of any size
@R.scenario([[f, n, i, list(s), k] for f in (-1.0, 0.0, 1e-9, -1e-3, 1e6, "mixed") for n in ("wheel", "all", "cuboid") for i in INTERPOLATORS for s in SETS for k in ("table", "cloud")])
def boat_speeds_of_any_size(ctx, case):
    """Negative, tiny and huge boat speeds are interpolated like all others."""
    f, n, i, s, k = case
    wp = weighted(s)
    wp.data[:, 2] = wp.data[:, 2] - 5.6 if f == "mixed" else wp.data[:, 2] * f
    if k == "table":
        pd, warned = build(TableExtension(RESOLUTIONS["mixed"], NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]()), wp)
        judge_table(ctx, pd, wp, RESOLUTIONS["mixed"], n, i, warned, f"table {case}")
        return
    places = np.array([[6.0, 46.0], [9.0, 90.0], [11.5, 150.0]])

    class At(Sampler):
        def sample(self, points):
            return places.copy()

    pd, _ = build(PointcloudExtension(At(), NEIGHBOURHOODS[n][0](), INTERPOLATORS[i]()), wp)
    want = sorted([*map(float, q), expected(wp, q, n, i)[0]] for q in places)
    same(sorted(np.asarray(pd.points).tolist()), want, f"cloud {case}")
    ctx.step(3)
