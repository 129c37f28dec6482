"""C40: equal numbers give equal answers, whatever their type or container."""
import itertools
from datetime import datetime, timedelta

import numpy as np

import hrosailing.core.computing as comp
import hrosailing.processing as pc
from hrosailing.core.data import Data
from hrosailing.core import modelfunctions as mf
from hrosailing.core.data import WeightedPoints
from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
from hrosailing.models import (
    FlatMercatorProjection,
    GriddedWeatherModel,
    IdentityInfluenceModel,
    SphericalGlobe,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension
from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing.interpolator import ShepardInterpolator
from vf.core import Registry, check

ID = "C40"
ASSUMPTIONS = [
    "the numbers are whole and representable exactly in the type they are given in",
    "single precision answers may differ by 1e-4 of their size",
    "measurement data tables, whose columns are of one type by definition, are excepted",
]
R = Registry()
T0 = datetime(2022, 3, 14, 15)

INTS = ["int16", "int32", "int64"]
FLOATS = ["float32", "float64", ">f8"]
LAYOUT = ["fortran", "strided", "reversed", "readonly"]
ARRAYS = INTS + FLOATS + LAYOUT
LISTS = ["list", "floats", "tuple", "mixed", "scalars"]
SCALARS = ["int", "float"] + INTS + ["float32", "float64"]


def array(x, how):
    """The array x in another type or container; None if it does not hold x."""
    x = np.array(x, dtype=float)
    if how in INTS + FLOATS:
        try:
            with np.errstate(all="ignore"):
                y = x.astype(how)
        except (OverflowError, ValueError):
            return None
        if (x < 0).any() and how.startswith("u"):
            return None
        return y if np.array_equal(y.astype(float), x) else None
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full([2 * n for n in x.shape], 77.0)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(None, None, 2) for _ in x.shape)]
    if how == "reversed":
        return np.array(x[::-1])[::-1]
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "floats":
        return x.tolist()
    whole = x.astype(int).tolist() if (x == x.astype(int)).all() else None
    if whole is None:
        return None
    deep = lambda v, f: [deep(w, f) for w in v] if isinstance(v, list) else f(v)
    if how == "list":
        return whole
    if how == "tuple":
        tup = lambda v: tuple(tup(w) for w in v) if isinstance(v, list) else v
        return tup(whole)
    if how == "mixed":
        turn = itertools.count()
        return deep(whole, lambda v: float(v) if next(turn) % 2 else int(v))
    if how == "scalars":
        turn = itertools.count()
        return deep(whole, lambda v: np.int32(v) if next(turn) % 2 else np.float64(v))
    if how == "rows":
        return [np.array(r) for r in whole]
    raise ValueError(how)


def scalar(x, how):
    if how == "int":
        return int(x) if x == int(x) else None
    if how == "float":
        return float(x)
    if how == "0d":
        return np.array(float(x))
    if how == "0d int":
        return np.array(int(x)) if x == int(x) else None
    y = array([x], how)
    return None if y is None else y[0]


S = {}  # name -> (inputs: name -> (kind, value), call)


def subject(name, call, **inputs):
    """kind: nd (arrays), al (arrays and lists), sc (numbers)"""
    S[name] = (inputs, call)


KINDS = {"nd": ARRAYS, "al": ARRAYS + LISTS, "dl": [h for h in ARRAYS + LISTS if h != "tuple"], "sc": SCALARS, "wd": [h for h in ARRAYS if h != "int16"]}


def value(kind, x, how):
    return scalar(x, how) if kind == "sc" else array(x, how)


def usual(kind, x):
    return float(x) if kind == "sc" else np.array(x, dtype=float)


def numbers(x):
    """The numbers of an answer."""
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (np.ndarray, np.generic)):
        x = x.astype(float).tolist() if x.dtype != object else x.tolist()
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, dict):
        return {str(k): numbers(v) for k, v in x.items()}
    if isinstance(x, WeightedPoints):
        return [numbers(x.data), numbers(x.weights)]
    if isinstance(x, PolarDiagramMultiSails):
        return [list(map(str, x.sails)), [numbers(d) for d in x.diagrams]]
    if isinstance(x, PolarDiagramTable):
        return [numbers(np.asarray(v)) for v in (x.wind_speeds, x.wind_angles, x.boat_speeds)]
    if isinstance(x, PolarDiagramPointcloud):
        return numbers(np.asarray(x.points))
    if isinstance(x, PolarDiagramCurve):
        return numbers(tuple(x.parameters))
    if hasattr(x, "angle") and hasattr(x, "proportion"):
        return [numbers(x.angle), numbers(x.proportion), x.sail]
    return [numbers(v) for v in x]


def close(a, b, tol):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(v, w, tol) for v, w in zip(a, b))
    return a == b


# ---- the subjects ------------------------------------------------------------
WS, WA = [4, 8, 12, 20], [0, 45, 90, 120]
BSP = [[0, 0, 0, 0], [3, 5, 6, 7], [4, 6, 7, 9], [2, 3, 5, 8]]
WIDE = [0, 45, 90, 135, 180, 250, 300]
BSP7 = BSP + [[1, 2, 4, 6], [3, 4, 5, 7], [2, 5, 6, 6]]
PTS = [[w, a, BSP[i][j]] for i, a in enumerate(WA) for j, w in enumerate(WS)][::-1]
PTS7 = [[w, a, BSP7[i][j]] for i, a in enumerate(WIDE) for j, w in enumerate(WS)][::-1]
TURNS = [[w, a - 360 if i % 3 == 0 else a + 360, s] for i, (w, a, s) in enumerate(PTS7)]
Q = [[8, 45], [12, 90], [6, 30], [10, 100]]


def ask(pd, cloud=False):
    return [[pd(8, 90.0), pd(10.5, 70.25)], numbers([np.asarray(s) for s in pd.get_slices([8.0, 12.0])[1]])]


def table(ws, wa, b):
    pd = PolarDiagramTable(ws, wa, b)
    out = [numbers(pd), ask(pd), numbers(pd.symmetrize())]
    pd.change_entries(2.5, ws=8, wa=45)
    pd.change_entries([0.25] * len(pd.wind_angles), ws=[4])
    return out + [numbers(pd), ask(pd)]


subject("table", table, ws=("al", WS), wa=("al", WA), b=("al", BSP))
subject("table, all angles", table, ws=("al", WS), wa=("al", WIDE), b=("al", BSP7))
subject("table, unsorted", table, ws=("al", WS[::-1]), wa=("al", [a + 360 for a in WIDE[::-1]]), b=("al", BSP7))
subject("empty table", lambda ws, wa: table(ws, wa, None), ws=("al", WS), wa=("al", WIDE))


def tab():
    return PolarDiagramTable(WS, WIDE, np.array(BSP7, dtype=float))


def cloud():
    return PolarDiagramPointcloud(np.array(PTS7, dtype=float))


def curve():
    return PolarDiagramCurve(lambda ws, wa, k: k * np.asarray(ws) * (1.5 - np.cos(np.deg2rad(wa))), 0.5)


def sails():
    return PolarDiagramMultiSails([tab(), PolarDiagramTable(WS, WIDE, np.array(BSP7, dtype=float)[::-1])], ["a", "b"])


def mixed():
    return PolarDiagramMultiSails([cloud(), tab()], ["a", "b"])


PDS = {"table": tab, "cloud": cloud, "curve": curve, "sails": sails, "mixed": mixed}


def change(new, ws, wa):
    pd = PolarDiagramTable(WS, WIDE, np.array(BSP7) + 0.5)
    pd.change_entries(new, ws=ws, wa=wa)
    return pd


subject("change entries", change, new=("al", [[5, 6], [7, 8], [9, 3]]), ws=("al", [8, 20]), wa=("al", [45, 90, 120 + 15]))
subject("change a column", lambda new, ws: change(new, ws, None), new=("al", [1, 2, 3, 4, 5, 6, 7]), ws=("al", [8]))
subject("change a cell", change, new=("sc", 7), ws=("sc", 8), wa=("sc", 90))


def grown(first, more, apparent=False):
    pd = PolarDiagramPointcloud(first)
    pd.add_points(np.array([[10.0, 40.5, 3.25]]))
    pd.add_points(more, apparent_wind=apparent)
    return [numbers(pd), ask(pd), numbers(pd.symmetrize())]


for _n, _p in (("small", PTS), ("all angles", PTS7), ("turns", TURNS)):
    subject(f"cloud, {_n}", grown, first=("al", _p[:-5]), more=("al", _p[-5:]))
    subject(f"cloud, apparent, {_n}", lambda first, more: [grown(PTS, more, True), numbers(PolarDiagramPointcloud(first, apparent_wind=True))], first=("al", _p[:-5]), more=("al", _p[-5:]))
    for _f in ("convert_apparent_wind_to_true", "convert_true_wind_to_apparent"):
        subject(f"{_f}, {_n}", lambda w, f=_f: getattr(comp, f)(w), w=("al", _p))
for _f in ("euclidean_norm", "scaled_euclidean_norm"):
    subject(_f, lambda v, f=_f: getattr(comp, f)(v), v=("nd", [[3, 40], [1, 120], [100, 100], [20, 7]]))
    subject(f"{_f}, signed", lambda v, f=_f: getattr(comp, f)(v), v=("nd", [[3, -40], [-100, 120], [-1, 250]]))

for _n, _mk in PDS.items():
    for _w, _a in ((8, 90), (10, 100), (6, 120), (8, 300), (9, 20), (8, -60), (8, 405)):
        subject(f"{_n} at {_w}, {_a}", lambda ws, wa, mk=_mk: mk()(ws, wa), ws=("sc", _w), wa=("sc", _a))
    subject(f"{_n} slices", lambda ws, mk=_mk: [np.asarray(v) for v in mk().get_slices(ws)[1]], ws=("al", [8, 4, 12]))
    subject(f"{_n} slice", lambda ws, mk=_mk: [np.asarray(v) for v in mk().get_slices(ws)[1]], ws=("sc", 8))
    subject(f"{_n} slices in steps", lambda ws, mk=_mk: [mk().get_slices(ws, n_steps=3)[0], [np.asarray(v) for v in mk().get_slices(ws, n_steps=3)[1]]], ws=("al", [4, 20]))
    subject(f"{_n} points", lambda w, mk=_mk: mk().get_points(w), w=("nd", Q))
    subject(f"{_n} convex direction", lambda ws, d, mk=_mk: convex_direction(mk(), ws, d), ws=("sc", 8), d=("sc", 70))
    subject(f"{_n} convex direction to port", lambda ws, d, mk=_mk: convex_direction(mk(), ws, d), ws=("sc", 12), d=("sc", 250))
    subject(f"{_n} cruise", lambda a, b, w, mk=_mk: cruise(mk(), a, b, w), a=("al", [10, 54]), b=("al", [11, 55]), w=("al", [8, 30]))
    subject(f"{_n} cruise, other formats", lambda u, v, mk=_mk: [cruise(mk(), (10.0, 54.0), (11.0, 55.0), u, wind_fmt="uv_grd"), cruise(mk(), (10.0, 54.0), (11.0, 55.0), v, wind_fmt="ws_wa_hdt")], u=("al", [4, 6]), v=("al", [8, 100, 20]))
    for _qa in (MinimalQualityAssurance, ComformingQualityAssurance):
        subject(f"{_n} {_qa.__name__}", lambda t, mk=_mk, qa=_qa: qa().check(mk(), t), t=("al", PTS7[::3]))
        subject(f"{_n} {_qa.__name__} small", lambda t, mk=_mk, qa=_qa: qa().check(mk(), t), t=("al", PTS[::2]))
    subject(f"{_n} under influences", lambda ws, wa, mk=_mk: [im().add_influence(mk(), {"TWS": ws, "TWA": wa}) for im in (IdentityInfluenceModel, WindAngleCorrectingInfluenceModel)], ws=("dl", [4, 8, 12]), wa=("dl", [45, 90, 100]))
subject("curve at arrays", lambda ws, wa: curve()(ws, wa), ws=("nd", [4, 8, 12]), wa=("nd", [30, 100, 120]))
subject("curve parameters", lambda k: [numbers(PolarDiagramCurve(mf.ws_times_wa, k)), ask(PolarDiagramCurve(mf.ws_times_wa, k))], k=("sc", 2))

MODELS = {
    mf.ws_times_wa: [2], mf.ws_concave_dt_wa: [1, 2, 3, 1, 60, 2, 1, 2, 70, 3, 1], mf.ws_wa_s_dt: [3, 1, 8, 1, 4, 1, 6, 1, 2, 3, 1, 5, 1, 2],
    mf.ws_s_dt_wa_gauss: [3, 1, 8, 1, 5, 90, 800, 4, 100, 900], mf.ws_s_s_dt_wa_gauss_comb: [3, 1, 8, 1, 5, 90, 800, 2, 4, 100, 900, 1],
    mf.ws_s_wa_gauss: [3, 1, 8, 5, 90, 800, 4, 100, 900], mf.ws_s_wa_gauss_and_square: [3, 1, 8, 1, 5, 90, 800, 4, 100, 900],
}
for _f, _p in MODELS.items():
    subject(_f.__name__, lambda ws, wa, p, f=_f: f(ws, wa, *p), ws=("wd", [4, 8, 12, 20]), wa=("wd", [45, 90, 200, 300]), p=("wd", _p))
    subject(f"curve of {_f.__name__}", lambda p, f=_f: [numbers(PolarDiagramCurve(f, *p)), ask(PolarDiagramCurve(f, *p)), PolarDiagramCurve(f, *p).get_points(np.array(Q))], p=("al", _p))
WEI = [0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 1]
WEIGHERS = {
    "all one": lambda: pc.AllOneWeigher(), "mean": lambda: pc.CylindricMeanWeigher(radius=2), "member": lambda: pc.CylindricMemberWeigher(radius=3, length=2),
    "sum": lambda: pc.CylindricMeanWeigher(radius=2) + 2 * pc.CylindricMemberWeigher(radius=3, length=4), "power": lambda: pc.CylindricMemberWeigher(radius=3, length=4) ** 2 / 3,
    "fuzzy": lambda: pc.FuzzyWeigher((pc.FuzzyVariable()[1] < 90) & (pc.FuzzyVariable()[0] > 5)),
    "plain": lambda: pc.CylindricMeanWeigher(radius=20, norm=lambda v: np.abs(v).max(axis=1)), "plain member": lambda: pc.CylindricMemberWeigher(radius=20, length=3, norm=lambda v: np.abs(v).max(axis=1)),
}
for _n, _mk in WEIGHERS.items():
    subject(f"weigher {_n}", lambda p, mk=_mk: mk().weigh(p), p=("nd", PTS))
    subject(f"weigher {_n}, all angles", lambda p, mk=_mk: mk().weigh(p), p=("nd", PTS7))
for _n, _op in {"+": lambda w, x: w + x, "r+": lambda w, x: x + w if not isinstance(x, (np.ndarray, np.generic)) else w + x, "*": lambda w, x: w * x, "-": lambda w, x: w - x, "/": lambda w, x: w / x}.items():
    subject(f"weigher {_n} number", lambda x, op=_op: op(pc.CylindricMeanWeigher(radius=2), x).weigh(np.array(PTS, dtype=float)), x=("sc", 3))
    subject(f"weigher {_n} numbers", lambda x, op=_op: op(pc.CylindricMeanWeigher(radius=2), x).weigh(np.array(PTS, dtype=float)), x=("al", [1 + i % 3 for i in range(16)]))
for _n, _mk in {"quantile": lambda: pc.QuantileFilter(40), "bounds": lambda: pc.BoundFilter(1, 3)}.items():
    subject(f"filter {_n}", lambda w, mk=_mk: mk().filter(w), w=("nd", [3, 0, 1, 2, 5, 4, 1, 100]))
subject("filter limits", lambda a, b: pc.BoundFilter(a, b).filter(np.array([0.5, 1.0, 2.5, 3.0, 3.5])), a=("sc", 1), b=("sc", 3))
subject("quantile", lambda p: pc.QuantileFilter(p).filter(np.array([3.0, 1.0, 2.0, 5.0, 4.0] * 30)), p=("sc", 60))

NB = {"ball": lambda: pc.Ball(radius=50, norm=comp.euclidean_norm), "scaled ball": lambda: pc.Ball(radius=1), "scaling ball": lambda: pc.ScalingBall(min_pts=4), "ellipsoid": lambda: pc.Ellipsoid(lin_trans=[[2, 1], [0, 1]], radius=60), "cuboid": lambda: pc.Cuboid(dimensions=(10, 60)), "polytope": lambda: pc.Polytope(np.array([[1, 1], [-1, 0]]), np.array([100, 7]))}
for _n, _mk in NB.items():
    subject(f"neighbourhood {_n}", lambda p, mk=_mk: mk().is_contained_in(p), p=("al", [[w, a] for w, a, _ in PTS]))
    subject(f"neighbourhood {_n}, signed", lambda p, mk=_mk: mk().is_contained_in(p), p=("al", [[w - 8, a - 60] for w, a, _ in PTS]))
PLANE = np.array([[w - 8.0, a - 60.0] for w, a, _ in PTS])
subject("ball radius", lambda r: pc.Ball(radius=r, norm=comp.euclidean_norm).is_contained_in(PLANE), r=("sc", 60))
subject("ellipsoid parameters", lambda m, r: pc.Ellipsoid(lin_trans=m, radius=r).is_contained_in(PLANE), m=("al", [[2, 1], [0, 1]]), r=("sc", 60))
subject("cuboid parameters", lambda d: pc.Cuboid(dimensions=d).is_contained_in(PLANE), d=("al", [5, 60]))
subject("polytope parameters", lambda m, b: pc.Polytope(m, b).is_contained_in(PLANE), m=("al", [[1, 0], [0, 1]]), b=("al", [5, 60]))
subject("polytope parameters, signed", lambda m, b: pc.Polytope(m, b).is_contained_in(PLANE), m=("al", [[1, 1], [-1, 0]]), b=("al", [5, 1]))

INTER = {"idw": lambda: pc.IDWInterpolator(), "idw squared": lambda: pc.IDWInterpolator(p=2), "mean": lambda: pc.ArithmeticMeanInterpolator(params=(50,)), "improved idw": lambda: pc.ImprovedIDWInterpolator(), "shepard": lambda: ShepardInterpolator(pc.Ball(radius=1), tol=1e-6)}
for _n, _mk in INTER.items():
    for _m, _pts in (("", PTS), (", all angles", PTS7)):
        subject(f"interpolator {_n}{_m}", lambda p, w, g, mk=_mk: mk().interpolate(WeightedPoints(p, w), g), p=("nd", _pts), w=("nd", [1 + i % 3 for i in range(len(_pts))]), g=("nd", [9, 100]))
        subject(f"interpolator {_n} at a point{_m}", lambda p, w, g, mk=_mk: mk().interpolate(WeightedPoints(p, w), g), p=("nd", _pts), w=("nd", [1 + i % 3 for i in range(len(_pts))]), g=("nd", [8, 90]))
subject("interpolator bilinear", lambda p, g: pc.BilinearGridInterpolator().interpolate(WeightedPoints(p, 1), g), p=("nd", sorted(PTS)), g=("nd", [9, 100]))
subject("weighted points", lambda p, w: WeightedPoints(p, w)[np.array([True, False] * 8)], p=("nd", PTS), w=("al", WEI))
subject("weighted points, one weight", lambda p, w: WeightedPoints(p, w), p=("nd", PTS), w=("sc", 1))


def extended(a, w, b, v):
    p = WeightedPoints(a, w)
    p.extend(WeightedPoints(b, v))
    p.extend(WeightedPoints(np.array([[0.5, 1.25, 2.75]]), np.array([0.5])))
    return p


subject("weighted points extended", extended, a=("nd", PTS[:5]), w=("al", WEI[:5]), b=("nd", PTS[5:]), v=("al", WEI[5:]))
for _n in ("FibonacciSampler", "ArchimedeanSampler", "UniformRandomSampler"):
    def _sample(p, n=_n):
        s = getattr(pc, n)(10)
        return s.sample(p) if not n.startswith("U") else [len(s.sample(p))]
    subject(_n, _sample, p=("al", [[w, a] for w, a, _ in PTS]))
    subject(f"{_n}, all angles", _sample, p=("al", [[w, a] for w, a, _ in PTS7]))
for _m, _pts in (("", PTS), (", all angles", PTS7)):
    subject(f"injector{_m}", lambda p: pc.ZeroInjector(4).inject(WeightedPoints(p, 1)), p=("nd", _pts))
    subject(f"injected{_m}", lambda p: extended(p, 1, pc.ZeroInjector(3).inject(WeightedPoints(p, 1)).data, 1), p=("nd", _pts))

    def _fit(p, w, mk):
        r = mk(w)
        r.fit(p)
        return [round(float(v), 5) for v in r.optimal_params]
    subject(f"regressor odr{_m}", lambda p, i, fit=_fit: fit(p, i, lambda i: pc.ODRegressor(mf.ws_times_wa, init_values=i)), p=("nd", _pts), i=("al", [1]))
    subject(f"regressor least squares{_m}", lambda p, i, fit=_fit: fit(p, i, lambda i: pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=i)), p=("nd", _pts), i=("al", [1]))
    for _n, _mk in {"table": lambda: TableExtension(wind_resolution=([6, 10, 14], [30, 60, 110, 240]), neighbourhood=pc.Ball(radius=1)), "min_max": lambda: TableExtension(neighbourhood=pc.Ball(radius=2)), "auto": lambda: TableExtension(wind_resolution="auto", neighbourhood=pc.Ball(radius=2)),
                    "curve": lambda: CurveExtension(pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[1.0])),
                    "cloud": lambda: PointcloudExtension(sampler=pc.ArchimedeanSampler(20), neighbourhood=pc.Ball(radius=2))}.items():
        subject(f"extension {_n}{_m}", lambda p, w, mk=_mk: [[round(float(v), 5) for v in d.parameters] if isinstance(d, PolarDiagramCurve) else d for d in [mk().process(WeightedPoints(p, w))]], p=("nd", _pts), w=("al", [1] * len(_pts)))
subject("extension resolutions", lambda ws, wa: TableExtension(wind_resolution=(ws, wa), neighbourhood=pc.Ball(radius=1)).process(WeightedPoints(np.array(PTS7, dtype=float), 1)), ws=("al", [6, 10, 14]), wa=("al", [30, 60, 110]))

# models
TIMES = [T0 + timedelta(hours=h) for h in (-1, 0, 2, 6)]
GRID = [[[[8 + i + j, 20 * k] for k in range(3)] for j in range(3)] for i in range(4)]


def weather(d, la, lo):
    m = GriddedWeatherModel(d, TIMES, la, lo, ["TWS", "TWA"])
    return [m.get_weather(p) for p in ((T0 + timedelta(minutes=40), 54.5, 10.5), (T0, 50.0, 8.0), (T0 + timedelta(hours=5), 55.0, 11.0), (T0, 51, 9))] + [m.data, m.grid[1], m.grid[2]]


subject("weather grid", weather, d=("al", GRID), la=("al", [50, 54, 56]), lo=("al", [8, 10, 12]))
subject("weather at a place", lambda la, lo: weather and GriddedWeatherModel(GRID, TIMES, [50.0, 54.0, 56.0], [8.0, 10.0, 12.0], ["TWS", "TWA"]).get_weather((T0, la, lo)), la=("sc", 51), lo=("sc", 11))
for _n, _mk in (("sphere", SphericalGlobe), ("map", FlatMercatorProjection), ("unit sphere", lambda: SphericalGlobe(1)), ("turned map", lambda: FlatMercatorProjection((10, 20), (80, -160), 1))):
    subject(f"{_n} there and back", lambda p, mk=_mk: [mk().project(p), mk().lat_lon(mk().project(p))], p=("nd", [[54, 10], [50, 8], [20, 100]]))
    subject(f"{_n} there and back, signed", lambda p, mk=_mk: [mk().project(p), mk().lat_lon(mk().project(p))], p=("nd", [[54, -10], [-50, 120], [-20, -150]]))
    subject(f"{_n} one point", lambda p, mk=_mk: mk().lat_lon(mk().project(p)), p=("nd", [54, 10]))
    subject(f"{_n} distance", lambda a, b, mk=_mk: mk().distance(a, b), a=("al", [54, 10]), b=("al", [50, 120]))
    subject(f"{_n} distance, signed", lambda a, b, mk=_mk: mk().distance(a, b), a=("al", [-54, 10]), b=("al", [50, -120]))
    subject(f"{_n} path", lambda a, b, mk=_mk: mk().shortest_path(a, b, res=5), a=("al", [54, 10]), b=("al", [50, 120]))
subject("radii", lambda r: [SphericalGlobe(r).distance((54.0, 10.0), (50.0, 8.0)), FlatMercatorProjection(earth_radius=r).distance((54.0, 10.0), (50.0, 8.0))], r=("sc", 100))
for _n in ("table", "curve", "sails"):
    subject(f"{_n} cost", lambda a, b, n=_n: cost_cruise(PDS[n](), a, b, T0, GriddedWeatherModel(GRID, TIMES, [50.0, 54.0, 56.0], [8.0, 10.0, 12.0], ["TWS", "TWA"])), a=("al", [54, 10]), b=("al", [55, 11]))
    subject(f"{_n} isochrone", lambda a, d, t, n=_n: isochrone(PDS[n](), a, T0, d, GriddedWeatherModel(GRID, TIMES, [50.0, 54.0, 56.0], [8.0, 10.0, 12.0], ["TWS", "TWA"]), total_time=t, min_nodes=10), a=("al", [54, 10]), d=("sc", 40), t=("sc", 1))
    subject(f"{_n} weather of whole numbers", lambda d, n=_n: cost_cruise(PDS[n](), (54.0, 10.0), (54.5, 10.5), T0, GriddedWeatherModel(d, TIMES, [50, 54, 56], [8, 10, 12], ["TWS", "TWA"])), d=("nd", GRID))


def fitted(ws, wa, b):
    m = WindAngleCorrectingInfluenceModel()
    m.fit({"TWS": ws, "TWA": wa, "BSP": b})
    return [m.remove_influence({"TWS": [8.0, 9.5], "TWA": [40.0, 300.5], "BSP": [5.0, 4.0]})]


subject("influence removed", lambda ws, wa, b: [im().remove_influence({"TWS": ws, "TWA": wa, "BSP": b}) for im in (IdentityInfluenceModel, WindAngleCorrectingInfluenceModel)], ws=("dl", [8, 9, 10]), wa=("dl", [40, 100, 120]), b=("dl", [5, 6, 7]))
subject("influence removed, apparent", lambda ws, wa, b: [im().remove_influence({"AWS": ws, "AWA": wa, "BSP": b}) for im in (IdentityInfluenceModel, WindAngleCorrectingInfluenceModel)], ws=("dl", [8, 9, 10]), wa=("dl", [40, 100, 120]), b=("dl", [5, 6, 7]))
subject("influence fitted", fitted, ws=("dl", [8, 9, 10, 8, 9]), wa=("dl", [40, 50, 60, 42, 100]), b=("dl", [5, 6, 7, 3, 4]))


QUICK = ["int", "int64", "float32", ">f8", "strided", "list", "mixed", "scalars"]


# ---- the exploration ---------------------------------------------------------
_WANT = {}


def ask_subject(name, given):
    inputs, call = S[name]
    try:
        with np.errstate(all="ignore"):
            return numbers(call(**{k: given[k] if k in given else usual(*v) for k, v in inputs.items()}))
    except Exception as e:  # noqa: BLE001
        return ["raised", type(e).__name__, str(e)[:200]]


def judge(ctx, name, hows):
    inputs, _ = S[name]
    given = {k: value(*inputs[k], how) for k, how in hows.items()}
    if any(v is None for v in given.values()):
        return
    if name not in _WANT:
        _WANT[name] = ask_subject(name, {})
        check(not (isinstance(_WANT[name], list) and _WANT[name][:1] == ["raised"]), "%s is refused: %s", name, _WANT[name])
    got = ask_subject(name, given)
    ctx.step()
    tol = (1e-3 if "weather" in name or "cost" in name or "isochrone" in name else 1e-4) if {"float32", "int16"} & set(hows.values()) else 1e-6 if name.startswith(("regressor", "extension curve", "sphere", "turned", "map", "unit")) else 1e-9
    check(close(got, _WANT[name], tol), lambda: f"{name} with {', '.join(f'{k} given as {h}' for k, h in hows.items())} answers {str(got)[:500]} instead of {str(_WANT[name])[:500]}")


@R.scenario(lambda t: [[n, k] for n, (i, _) in S.items() for k in i])
def one_input(ctx, case):
    """Each input in each type and container."""
    name, k = case
    for how in KINDS[S[name][0][k][0]]:
        judge(ctx, name, {k: how})
    return case


@R.scenario(lambda t: [[n, a, b, h] for n, (i, _) in S.items() for a, b in itertools.combinations(i, 2) for h in KINDS[i[a][0]] if t == "thorough" or h in QUICK])
def two_inputs(ctx, case):
    """Each pair of inputs in each pair of types and containers."""
    name, a, b, how = case
    inputs = S[name][0]
    for other in KINDS[inputs[b][0]]:
        judge(ctx, name, {a: how, b: other})
    return [name, a, b]


@R.scenario(lambda t: [[n] for n, (i, _) in S.items() if len(i) > 2])
def all_inputs(ctx, case):
    """All inputs in the same type or container."""
    inputs = S[case[0]][0]
    for how in ARRAYS + LISTS:
        hows = {k: "int" if v[0] == "sc" and how not in SCALARS else how for k, v in inputs.items()}
        if all(hows[k] in KINDS[v[0]] for k, v in inputs.items()):
            judge(ctx, case[0], hows)
    return case


INT_TYPES = [int, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.intp]


@R.scenario([[k, list(rows)] for k in range(len(INT_TYPES)) for n in (1, 2, 3) for rows in itertools.permutations(range(4), n)])
def row_numbers_of_any_type(ctx, case):
    """Rows are deleted whatever integers they are numbered with."""
    t, rows = INT_TYPES[case[0]], case[1]
    for given in ([[t(r) for r in rows]] + ([t(rows[0])] if len(rows) == 1 else [])):
        d = Data.from_dict({"a": [1.0, 2.0, 3.0, 4.0], "b": ["p", "q", None, "s"]})
        d.delete(given)
        ctx.step()
        left = [i for i in range(4) if i not in rows]
        check(d["a"] == [i + 1.0 for i in left] and d["b"] == [["p", "q", None, "s"][i] for i in left] and d.n_rows == len(left),
              "rows %r deleted: %s", given, d.data)
