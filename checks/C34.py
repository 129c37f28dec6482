"""C34: components give the same answer fresh or used."""
import copy
import itertools
import math
import os
import tempfile
from datetime import datetime, timedelta

import numpy as np
import pandas

import hrosailing.processing as pc
from checks.C33 import BSP, GRID, LATS, LONS, MESS, PDS, PTS, T0, TIMES, WA, WS, plain
from hrosailing.core import modelfunctions as mf
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
from hrosailing.models import (
    FlatMercatorProjection,
    GriddedWeatherModel,
    IdentityInfluenceModel,
    MultiWeatherModel,
    SphericalGlobe,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.expander import LazyExpander, WeatherExpander
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension
from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
    from_csv,
)
from hrosailing.processing.datahandler import ArrayHandler, CsvFileHandler, NMEAFileHandler
from hrosailing.processing.imputator import FillLocalImputator, RemoveOnlyImputator
from hrosailing.processing.interpolator import ShepardInterpolator
from hrosailing.processing.smoother import AffineSmoother, LazySmoother
from vf.core import Registry, check

ID = "C34"
ASSUMPTIONS = [
    "a call is judged by its result (or the type of its exception) and by the latest statistics of the component after a successful call",
    "fitting a model sets what the model answers afterwards; it is judged together with the answer",
    "random samples are judged by shape and containment elsewhere, not here",
]
R = Registry()


def rounded(x):
    if isinstance(x, float):
        return repr(x) if not math.isfinite(x) else float(f"{x:.9g}")
    if isinstance(x, list):
        return [rounded(v) for v in x]
    if isinstance(x, dict):
        return {k: rounded(v) for k, v in x.items()}
    return x


def answer(fn, comp):
    """Result and statistics of one call"""
    try:
        r = fn(comp)
    except Exception as e:  # noqa: BLE001  also a refusal is an answer
        return ["raised", type(e).__name__]
    st = comp.get_latest_statistics() if hasattr(comp, "get_latest_statistics") else None
    return rounded([plain(r), plain(st)])


A = np.array(PTS)
B = np.array(MESS[::2])
Cc = A[A[:, 1] < 200][::-1] * [1.0, 0.75, 2.0] + [1.0, 3.0, 0.0]
ARR = {"a": A, "b": B, "c": Cc, "one": A[:1], "same": np.repeat(A[3:4], 4, axis=0), "none": A[:0]}
# inputs that agree in size, ends and sums, differ a little, or come in the same array object
ARR["near"] = A + np.where(np.arange(len(A)) == 5, 1.0, 0.0)[:, None] * [0.0, 0.002, 0.001]
ARR["swap"] = A.copy()
ARR["swap"][[3, 9], 2] = ARR["swap"][[9, 3], 2]
BUF = np.empty_like(A)
# many points, and the same with the speeds turned round
ARR["many"] = np.array([[4 + (i * 7 % 50) / 4, (i * 47) % 360, 3 + (i * 13 % 29) / 7] for i in range(130)])
ARR["many2"] = ARR["many"] * [1.0, 1.0, -0.5]


def arr(k):
    if k in ("buf1", "buf2"):
        BUF[:] = A if k == "buf1" else ARR["swap"]
        return BUF
    return ARR[k].copy()


ALIKE = ["near", "buf1", "buf2"]
MANY = ["many", "many2"]
SETS = {
    "d": {"TWS": [8.0, 9.0, 10.0, 8.5, 9.5], "TWA": [40.0, 50.0, 60.0, 42.0, 300.0], "BSP": [5.0, 5.5, 6.0, 5.25, 5.75], "name": list("abcde"),
          "datetime": [T0 + timedelta(seconds=5 * i) for i in range(5)]},
    "e": {"BSP": [3.0, 3.25, 7.0], "TWS": [6.0, 12.0, 6.5], "TWA": [90.0, 180.0, 350.0], "datetime": [T0 + timedelta(seconds=40 * i) for i in range(3)]},
    "f": {"TWA": [10.0, 20.0], "TWS": [6.0, 12.0], "AWS": [7.0, 13.0], "SOG": [3.0, 4.0], "datetime": [T0, T0 + timedelta(minutes=3)]},
}


def tab(k):
    return Data.from_dict({c: list(v) for c, v in SETS[k].items()})


def holes(k):
    d = {c: list(v) for c, v in SETS["d"].items()}
    if k in ("1", "3"):
        d["TWS"][1] = d["TWA"][2] = d["datetime"][3] = None
    if k in ("2", "3"):
        d["BSP"][0] = d["BSP"][4] = d["name"][2] = None
        d["empty"] = [None] * 5
    if k == "4":
        d = {c: v + v for c, v in d.items()}
        d["datetime"] = [T0 + timedelta(seconds=100 * i) for i in range(10)]
        d["TWS"][5] = d["TWA"][9] = d["BSP"][0] = None
    if k in "67":
        n = 140
        d = {"datetime": [T0 + timedelta(seconds=2 * i) for i in range(n)], "TWS": [8.0 + i % 7 for i in range(n)], "BSP": [None if i % 3 else float(i) for i in range(n)]}
        d["TWS"][5 if k == "6" else 120] = None
        d["datetime"][131 if k == "6" else 2] = None
    if k == "5":
        d = {c: [None] * 5 for c in d}
    return Data.from_dict(d)


def wp(k):
    pts = arr(k)
    n = len(pts)
    return WeightedPoints(pts, np.array([0.1 + ((7 * i) % 11) / 12 for i in range(n)]))


COMP = {}  # name -> (variants, calls)


def component(name, variants, calls):
    COMP[name] = (variants if isinstance(variants, dict) else {"": variants}, calls)


def each(items, fn):
    return {k: (lambda c, k=k: fn(c, k)) for k in items}


ARRS = ["a", "b", "c", "one", "same"]
weigh = each(ARRS + ALIKE + MANY + ["none"], lambda c, k: c.weigh(arr(k)))
weigh_d = each(["d", "e", "f"], lambda c, k: c.weigh(tab(k)))
component("AllOneWeigher", pc.AllOneWeigher, {**weigh, **weigh_d})
component("CylindricMeanWeigher", {"": pc.CylindricMeanWeigher, "2": lambda: pc.CylindricMeanWeigher(radius=2)}, {**weigh, **weigh_d})
component("CylindricMeanWeigher by names", lambda: pc.CylindricMeanWeigher(radius=2, dimensions=["BSP", "TWA"]), weigh_d)
component("CylindricMemberWeigher", {"": pc.CylindricMemberWeigher, "2": lambda: pc.CylindricMemberWeigher(radius=3, length=40)}, {**weigh, **weigh_d})
component("CylindricMemberWeigher by names", lambda: pc.CylindricMemberWeigher(radius=2, length=3, dimensions=["BSP", "TWA"]), weigh_d)
component("FluctuationWeigher", {"": lambda: pc.FluctuationWeigher(["TWS", "TWA"], timedelta(seconds=10), [2.0, 20.0]),
                                 "2": lambda: pc.FluctuationWeigher(["TWA"], (timedelta(seconds=10), timedelta(seconds=50)), [60.0])}, weigh_d)
component("combined weighers", {
    "+": lambda: pc.CylindricMeanWeigher(radius=2) + pc.CylindricMemberWeigher(radius=3, length=40),
    "*": lambda: pc.CylindricMeanWeigher(radius=2) * 0.5, "**": lambda: pc.CylindricMemberWeigher(radius=3, length=40) ** 2}, {**weigh, **weigh_d})
component("FuzzyWeigher", {"": lambda: pc.FuzzyWeigher((pc.FuzzyVariable()[1] < 90) & (pc.FuzzyVariable()[0] > 5)), "2": lambda: pc.FuzzyWeigher(~(pc.FuzzyVariable(3)[2] == 4) | (pc.FuzzyVariable()[0] > 9))},
          each(ARRS + ALIKE + MANY, lambda c, k: c.weigh(arr(k))))
W = {"u": [0.1, 0.5, 0.9, 0.2, 0.7, 1.0], "v": [0.5, 0.5, 0.5, 0.0], "w": [1.0], "x": [0.3, 0.6, 0.4, 0.8, 0.35, 0.2, 0.1, 0.99], "none": [], "u2": [0.1, 0.9, 0.5, 0.2, 0.7, 1.0],
     "many": [(i * 37 % 101) / 100 for i in range(250)], "many2": [1 - (i * 37 % 101) / 100 for i in range(250)]}
component("QuantileFilter", {"": pc.QuantileFilter, "25": lambda: pc.QuantileFilter(25)}, each(list(W), lambda c, k: c.filter(np.array(W[k]))))
component("BoundFilter", {"": pc.BoundFilter, "2": lambda: pc.BoundFilter(0.3, 0.8)}, each(list(W), lambda c, k: c.filter(np.array(W[k]))))

PLANE = {"p": [[(w - 8) / 10, (a - 90) / 30] for w, a, _ in PTS], "q": [[0.01, 0.02], [0.2, 0.3], [-0.04, 0.0], [3.0, 4.0]], "r": [[0.0, 0.0]], "s": [[0.5, 0.5], [0.1, 0.1], [1.0, -1.0], [-2.0, 2.0], [0.3, 0.0]],
         "far": [[30.0, 40.0], [50.0, 20.0], [60.0, 60.0], [70.0, 1.0]]}
PLANE["p2"] = [list(x) for x in PLANE["p"]]
PLANE["p2"][7] = [0.001, 0.001]
PLANE_BUF = np.empty((len(PLANE["p"]), 2))


def plane(k):
    if k in ("pb", "pb2"):
        PLANE_BUF[:] = PLANE["p" + k[2:]]
        return PLANE_BUF
    return np.array(PLANE[k])


nb = each(list(PLANE) + ["pb", "pb2"], lambda c, k: c.is_contained_in(plane(k)))
component("Ball", {"": pc.Ball, "1": lambda: pc.Ball(radius=0.3)}, nb)
component("ScalingBall", {"": lambda: pc.ScalingBall(min_pts=2), "3": lambda: pc.ScalingBall(min_pts=3)}, nb)
component("Ellipsoid", {"": pc.Ellipsoid, "1": lambda: pc.Ellipsoid(lin_trans=np.array([[2.0, 0.0], [0.5, 1.0]]), radius=0.4)}, nb)
component("Cuboid", {"": pc.Cuboid, "1": lambda: pc.Cuboid(dimensions=(0.4, 0.9))}, nb)
component("Polytope", {"": pc.Polytope, "1": lambda: pc.Polytope(np.array([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0]]), np.array([0.5, 0.5, 1.0]))}, nb)

inter = {f"{k}{g}": (lambda c, k=k, g=g: c.interpolate(wp(k), np.array(g))) for k, g in [(k, g) for k in ("a", "b", "c", "one") for g in ([8.0, 90.0], [9.5, 100.0])] + [("a", [9.5, 100.001])] + [(k, [9.5, 100.0]) for k in ALIKE + MANY]}
component("IDWInterpolator", {"": pc.IDWInterpolator, "3": lambda: pc.IDWInterpolator(p=3)}, inter)
component("ArithmeticMeanInterpolator", {"": lambda: pc.ArithmeticMeanInterpolator(params=(50,)), "s": lambda: pc.ArithmeticMeanInterpolator(s=2, params=(5,))}, inter)
component("ImprovedIDWInterpolator", pc.ImprovedIDWInterpolator, inter)
component("ShepardInterpolator", {"": lambda: ShepardInterpolator(pc.Ball(radius=1)), "2": lambda: ShepardInterpolator(pc.ScalingBall(min_pts=4), slope=0.5)}, inter)
GR = {"g": np.array(sorted(PTS)), "h": np.array([[w, a, w + a / 50] for w in (5.0, 15.0) for a in (10.0, 170.0, 300.0)]), "i": np.array([[w, a, w * a / 100] for w in (2.0, 9.0, 12.0) for a in (20.0, 110.0)])}
component("BilinearGridInterpolator", pc.BilinearGridInterpolator,
          {f"{k}{g}": (lambda c, k=k, g=g: c.interpolate(WeightedPoints(GR[k].copy(), 1), np.array(g))) for k in GR for g in ([8.0, 90.0], [9.5, 100.0], [30.0, 90.0])})

XY = {"a": A[:, :2], "b": A[::3, :2] * 2, "c": np.array([[0.0, 0.0], [4.0, 0.0], [0.0, 9.0]]), "d": np.array([[0.0, 0.0], [4.0, 0.01], [0.0, 9.0]])}
for n in ("FibonacciSampler", "ArchimedeanSampler"):
    component(n, {"": (lambda n=n: getattr(pc, n)(8)), "30": (lambda n=n: getattr(pc, n)(30))}, each(list(XY), lambda c, k: c.sample(XY[k].copy())))
component("ZeroInjector", {"": lambda: pc.ZeroInjector(4), "7": lambda: pc.ZeroInjector(7)}, each(["a", "b", "c", "one"] + ALIKE + MANY, lambda c, k: c.inject(wp(k))))


def refit(c, k):
    c.fit(arr(k))
    return [round(float(v), 5) for v in c.optimal_params]


component("ODRegressor", {"": lambda: pc.ODRegressor(mf.ws_times_wa, init_values=[0.02]), "it": lambda: pc.ODRegressor(mf.ws_times_wa, init_values=[0.5], max_it=3)}, each(["a", "c", "b", "one"] + ALIKE + MANY, refit))
component("LeastSquareRegressor", {"": lambda: pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[0.02]), "none": lambda: pc.LeastSquareRegressor(mf.ws_times_wa)}, each(["a", "c", "b", "one"] + ALIKE + MANY, refit))


def bent(ws, wa, a, b):
    return 3 * np.cos(a) * ws + b * np.sin(3 * a)


# models of which the fit depends on where it starts
component("regressors of several optima", {"odr": lambda: pc.ODRegressor(bent, init_values=[2.0, 0.5]), "ls": lambda: pc.LeastSquareRegressor(bent, init_vals=[2.0, 0.5])}, each(["a", "c", "b"] + ALIKE + MANY, refit))

imp = each("1234567", lambda c, k: c.impute(holes(k)))
component("RemoveOnlyImputator", RemoveOnlyImputator, imp)
component("FillLocalImputator", {"": FillLocalImputator, "short": lambda: FillLocalImputator(max_time_diff=timedelta(seconds=8)),
                                 "own": lambda: FillLocalImputator(fill_between=lambda n, a, b, mu: a + mu * (b - a) if isinstance(a, float) else a)}, imp)


def wave(k):
    n = {"1": 8, "2": 5, "3": 1, "4": 12, "5": 6, "6": 150}[k]
    d = Data.from_dict({"datetime": [T0 + timedelta(seconds=(40 if k == "5" else 7) * i) for i in range(n)], "TWS": [float((i // 2) % 4) for i in range(n)],
                        "BSP": [float((i // 3) * (2 if k == "2" else 1)) for i in range(n)], "name": ["x"] * n})
    return d


def backwards(c):
    d = wave("1")
    return c.smooth(Data.from_dict({k: list(d[k])[::-1] for k in d.keys()}))


smo = {**each("123456", lambda c, k: c.smooth(wave(k))), "backwards": backwards}
component("LazySmoother", LazySmoother, smo)
component("AffineSmoother", {"": AffineSmoother, "5s": lambda: AffineSmoother(timespan=timedelta(seconds=5))}, smo)


# handlers
def file_of(text, ext):
    fd, path = tempfile.mkstemp(suffix=ext, dir=os.getcwd())
    with os.fdopen(fd, "w") as fh:
        fh.write(text)
    return path


CSV = {"1": "TWS,TWA,BSP\n8.0,40.0,5.0\n9.0,50.0,5.5\n", "2": "wind speed,TWA,BSP,datetime\n8.0,,5.0,2022-03-14 15:00:00.0\n9.0,50.0,,2022-03-14 15:00:05.0\n", "3": "BSP,TWS\n1.0,2.0\n", "bad": "TWS,TWA\n1,2,3,4\n5,6,7,8,9\n"}


def csum(s):
    x = 0
    for ch in s:
        x ^= ord(ch)
    return f"${s}*{x:02X}\r\n"


def nmea(k):
    lines = {
        "1": ["GPRMC,150000.00,A,5400.0,N,01000.0,E,5.0,90.0,140322,,", "WIMWV,45.0,T,8.0,N,A", "IIVHW,,T,,M,5.5,N,,K", "GPRMC,150010.00,A,5400.1,N,01000.1,E,5.5,91.0,140322,,", "WIMWV,46.0,T,8.5,N,A", "IIVHW,,T,,M,5.75,N,,K"],
        "2": ["WIMWV,300.0,R,12.0,N,A", "GPRMC,160000.00,A,5400.0,S,01000.0,W,7.0,10.0,150322,,", "WIMWV,310.0,R,12.5,N,A"],
        "3": ["IIVHW,,T,,M,2.5,N,,K"],
        "4": ["WIMWV,10.0,T,3.0,N,A", "WIMWV,20.0,R,4.0,N,A", "WIMWV,30.0,T,5.0,N,A"],
        "bad": ["ABCDE,1,2,3"],
        "none": [],
    }[k]
    return file_of("".join(csum(s) for s in lines), ".nmea")


component("CsvFileHandler", CsvFileHandler, each(list(CSV), lambda c, k: c.handle(file_of(CSV[k], ".csv"))))
component("NMEAFileHandler", {"": NMEAFileHandler, "wanted": lambda: NMEAFileHandler(wanted_sentences=["MWV"]), "un": lambda: NMEAFileHandler(unwanted_sentences=["RMC"]),
                              "attr": lambda: NMEAFileHandler(unwanted_attributes=["TWA", "Wind angle"])}, each(["1", "2", "3", "4", "bad", "none"], lambda c, k: c.handle(nmea(k))))


def frames(c, k):
    if k == "frame":
        return c.handle(pandas.DataFrame({"wind speed": [1.0, 2.0], "TWA": [3.0, np.nan], "name": ["x", None]}))
    if k == "frame2":
        return c.handle(pandas.DataFrame({"TWS": [5.0], "BSP": [3.0]}))
    if k == "wrong":
        return c.handle((A[:4].copy(), ["TWS", "TWA"]))
    return c.handle((arr(k), ["TWS", "TWA", "BSP"] if k == "a" else ("BSP", "TWA", "wind speed")))


component("ArrayHandler", ArrayHandler, each(["a", "b", "one", "frame", "frame2", "wrong"], frames))


# models
def cols(k):
    rows = {"i": [(8.0, 45.0, 5.0), (12.0, 0.0, 6.0)], "j": [(10.0, 270.0, 7.0), (7.0, 359.0, 0.5), (9.0, 90.0, 4.0)], "k": [(10.0, 300.0, 5.0), (10.0, 40.0, 5.0), (10.0, 320.0, 5.0), (10.0, 60.0, 5.0)],
            "l": [(10.0, 300.0 + 5 * s, 5.0) for s in range(6)] + [(10.0, 40.0 + 7 * s, 6.0) for s in range(6)]}[k]
    return {"TWS": [r[0] for r in rows], "TWA": [r[1] for r in rows], "BSP": [r[2] for r in rows]}


def influence(c, k):
    how, d = k
    if how == "fit":
        c.fit(cols(d))
        return [c.remove_influence(cols("j")), c.add_influence(PDS["curve"](), {"TWS": 8.0, "TWA": 350.0})]
    if how == "rem":
        return c.remove_influence(cols(d))
    if how == "app":
        x = cols(d)
        return c.remove_influence({"AWS": x["TWS"], "AWA": x["TWA"], "SOG": x["BSP"]})
    return c.add_influence(PDS[how](), {k: v for k, v in cols(d).items() if k != "BSP"})


ops = [("rem", "i"), ("rem", "j"), ("app", "i"), ("curve", "i"), ("table", "j"), ("sails", "i")]
component("IdentityInfluenceModel", IdentityInfluenceModel, each(ops, influence))
component("WindAngleCorrectingInfluenceModel", {"": WindAngleCorrectingInfluenceModel, "shift": lambda: WindAngleCorrectingInfluenceModel(wa_shift=25)}, each(ops, influence))
component("WindAngleCorrectingInfluenceModel fitted", lambda: WindAngleCorrectingInfluenceModel(interval_size=30), each([("fit", "k"), ("fit", "l"), ("fit", "j")], influence))

PLACES = {"node": (T0, 54.0, 10.0), "cell": (T0 + timedelta(minutes=40), 54.5, 10.5), "near": (T0 + timedelta(minutes=40), 54.50002, 10.5), "soon": (T0 + timedelta(minutes=40, milliseconds=300), 54.5, 10.5), "late": (T0 + timedelta(hours=5), 55.0, 11.0), "edge": (T0 - timedelta(hours=1), 50.0, 8.0), "out": (T0, 70.0, 10.0), "early": (T0 - timedelta(days=9), 54.0, 10.0)}
component("GriddedWeatherModel", {"": lambda: GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["TWS", "TWA"]), "2": lambda: GriddedWeatherModel(np.array(GRID)[::-1] * 2, TIMES, LATS, LONS, ["a", "b"])},
          {**each(list(PLACES), lambda c, k: c.get_weather(PLACES[k])), "data": lambda c: c.data, "grid": lambda c: list(c.grid)})
component("MultiWeatherModel", lambda: MultiWeatherModel(GriddedWeatherModel(np.array(GRID)[:, :2], TIMES, LATS[:2], LONS, ["TWS", "TWA"]), GriddedWeatherModel(np.array(GRID) + 5, TIMES, LATS, LONS, ["TWS", "TWA"])),
          each(list(PLACES), lambda c, k: c.get_weather(PLACES[k])))
component("WeatherExpander", {"": lambda: WeatherExpander(GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["x", "y"]))},
          each(["in", "out", "mixed"], lambda c, k: c.expand(Data.from_dict({"datetime": [T0, T0 + timedelta(hours=1), T0 + timedelta(hours=2)], "lat": [54.0, 55.0, 50.5] if k == "in" else [70.0] * 3 if k == "out" else [54.0, 70.0, 50.5],
                                                                           "lon": [10.0, 8.5, 9.0], "BSP": [1.0, 2.0, 3.0]}))))
GL = {"kiel": [54.3, 10.1], "south": [-33.0, 151.0], "null": [0.0, 0.0], "far": [10.0, -120.0], "close": [54.3, 10.1001]}
for n, mk in (("SphericalGlobe", {"": SphericalGlobe, "unit": lambda: SphericalGlobe(earth_radius=1)}), ("FlatMercatorProjection", {"": FlatMercatorProjection, "km": lambda: FlatMercatorProjection(earth_radius=6371)})):
    component(n, mk, {**each(list(GL), lambda c, k: c.project(np.array([GL[k], GL["kiel"]]))), **{f"{a}-{b}": (lambda c, a=a, b=b: c.distance(GL[a], GL[b])) for a, b in (("kiel", "south"), ("close", "south"), ("null", "far"))},
                      "path": lambda c: c.shortest_path(GL["kiel"], GL["far"], res=4), "back": lambda c: c.lat_lon(c.project(np.array([GL["south"], GL["null"]])))})

# diagrams: evaluations do not depend on evaluations before
def ask(c, k):
    if k[0] == "call":
        return float(c(k[1], k[2]))
    if k[0] == "slices":
        w, s = c.get_slices(k[1], **k[2])[:2]
        return [np.asarray(w), [np.asarray(x) for x in s]]
    if k[0] == "points":
        return c.get_points(np.array(k[1]))
    if k[0] == "sym":
        return c.symmetrize()
    if k[0] == "convex":
        return convex_direction(c, k[1], k[2])
    if k[0] == "cruise":
        return cruise(c, (10.0, 54.0), (10.4, 54.2), k[1])
    if k[0] == "wrong":
        return float(c(-3.0, 20.0))
    if k[0] == "csv":
        p = file_of("", ".csv")
        c.to_csv(p)
        return from_csv(p)
    if k[0] == "text":
        return [str(c), repr(c)]
    return None


QUESTIONS = [("call", 8.0, 90.0), ("call", 9.5, 100.0), ("call", 9.5, 100.001), ("slices", [8.0], {}), ("slices", None, {}), ("slices", [4.0, 12.0], {"n_steps": 1}), ("points", [[8.0, 45.0], [12.0, 300.0]]), ("sym",), ("convex", 8.0, 70.0), ("cruise", (8.0, 30.0)), ("wrong",), ("csv",), ("text",)]
for n, mk in PDS.items():
    qs = [q for q in QUESTIONS if not (n == "curve" and q[0] == "convex") and not (n == "mixed" and q[0] in ("call", "points") and 9.5 in q)]
    component(f"diagram {n}", mk, {str(q): (lambda c, q=q: ask(c, q)) for q in qs})

for n, mk in (("MinimalQualityAssurance", MinimalQualityAssurance), ("ComformingQualityAssurance", ComformingQualityAssurance)):
    component(n, mk, {f"{d}{k}": (lambda c, d=d, k=k: c.check(PDS[d](), arr(k))) for d in ("table", "curve", "cloud") for k in ("a", "c", "one", "near", "buf1", "buf2")})

ext = each(["a", "c", "same", "near", "buf1", "buf2"], lambda c, k: c.process(wp(k)))
component("TableExtension", {"": TableExtension, "own": lambda: TableExtension(wind_resolution=([6, 10, 14], [30, 60, 120, 240]), neighbourhood=pc.Ball(radius=1)), "auto": lambda: TableExtension(wind_resolution="auto"),
                             "scaling": lambda: TableExtension(wind_resolution=([6, 10], [30, 60]), neighbourhood=pc.ScalingBall(min_pts=3), interpolator=pc.IDWInterpolator())}, ext)
component("CurveExtension", {"": lambda: CurveExtension(pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[0.02])), "odr": lambda: CurveExtension(pc.ODRegressor(mf.ws_times_wa, init_values=[0.02]))}, ext)
component("PointcloudExtension", {"": lambda: PointcloudExtension(sampler=pc.ArchimedeanSampler(12), neighbourhood=pc.Ball(radius=2)), "s": lambda: PointcloudExtension(sampler=pc.FibonacciSampler(9), neighbourhood=pc.ScalingBall(min_pts=3))}, ext)

names = ["TWS", "TWA", "BSP"]


def timeless(x):
    """Without execution times"""
    if isinstance(x, dict):
        return {a: timeless(b) for a, b in x.items() if "time" not in str(a).lower()}
    return [timeless(v) for v in x] if isinstance(x, list) else x


def pipe(c, k):
    off = {"all": {}, "few": dict(pre_expander_weighing=False, pre_expander_filtering=False, pre_weighing=False, pre_filtering=False), "bare": dict(weighing=False, filtering=False, injecting=False, smoothing=False)}[k[1]]
    out = c([(arr(k[0]), names)], [(arr("c"), names)] if k[2] else None, **off)
    ts = {a: timeless(plain(getattr(out, a)._asdict() if hasattr(getattr(out, a), "_asdict") else {})) for a in ("training_statistics", "test_statistics") if getattr(out, a) is not None}
    return [plain(out.polardiagram), ts if k[2] else None]


component("PolarPipeline", {"table": lambda: PolarPipeline(data_handler=ArrayHandler(), imputator=RemoveOnlyImputator(), extension=TableExtension(wind_resolution=([6, 10], [30, 90]), neighbourhood=pc.Ball(radius=1)), injector=pc.ZeroInjector(6)),
                            "curve": lambda: PolarPipeline(data_handler=ArrayHandler(), imputator=RemoveOnlyImputator(), extension=CurveExtension(pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[0.02])), injector=pc.ZeroInjector(6))},
          {str(k): (lambda c, k=k: pipe(c, k)) for k in [("a", "all", False), ("c", "few", False), ("a", "bare", True), ("c", "all", True), ("b", "bare", False)]})


class Free:
    """Functions of the library without an object of their own."""


def route(c, k):
    wm = GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["TWS", "TWA"])
    pd = PDS[k[1]]()
    if k[0] == "cost":
        return round(float(cost_cruise(pd, (54.0, 10.0), k[2], T0, wm)), 6)
    if k[0] == "iso":
        return [round(float(v), 6) for v in np.ravel(isochrone(pd, (54.0, 10.0), T0, k[2], wm, total_time=0.25)[0])]
    if k[0] == "convex":
        return convex_direction(pd, k[2], 80.0)
    return cruise(pd, (10.0, 54.0), k[2], (8.0, 30.0))


component("cruising functions", Free, {str(k): (lambda c, k=k: route(c, k)) for k in [
    ("cost", "table", (54.05, 10.05)), ("cost", "curve", (54.02, 9.98)), ("iso", "table", 40.0), ("iso", "curve", 100.0), ("convex", "table", 8.0), ("convex", "sails", 12.0), ("cruise", "table", (10.5, 54.2)), ("cruise", "curve", (9.5, 54.0))]})


# ---- the exploration -----------------------------------------------------------
def fresh(name, variant, call):
    variants, calls = COMP[name]
    key = (name, variant, call)
    if key not in _FRESH:
        _FRESH[key] = answer(calls[call], variants[variant]())
    return _FRESH[key]


_FRESH = {}


@R.scenario(lambda t: [[n, v] for n, (vs, _) in COMP.items() for v in vs])
def repeatable(ctx, case):
    """Fresh components with the same arguments agree."""
    name, variant = case
    variants, calls = COMP[name]
    out = []
    for c, fn in calls.items():
        a, b = answer(fn, variants[variant]()), answer(fn, variants[variant]())
        ctx.step(2)
        check(a == b, "%s: call %s of two fresh components: %s and %s", name, c, a, b)
        out.append(a)
    good = [o for o in out if o[0] != "raised"]
    check(good, "%s(%s): every call is refused", name, variant)
    return out


SLOW = {"diagram mixed", "PointcloudExtension", "FlatMercatorProjection", "combined weighers", "ShepardInterpolator", "diagram sails", "cruising functions", "TableExtension", "ComformingQualityAssurance", "MinimalQualityAssurance", "diagram curve"}


@R.scenario(lambda t: [[n, v, a, b] for n, (vs, cs) in COMP.items() for v in vs for a in cs for b in cs])
def used(ctx, case):
    """After up to two calls (three in the thorough tier; one fewer for slow components) the next answer is that of a fresh component."""
    name, variant, a, b = case
    variants, calls = COMP[name]
    depth = (4 if ctx.thorough else 3) - (name in SLOW)
    labels = list(calls)
    for rest in itertools.product(labels, repeat=depth - 2):
        comp = variants[variant]()
        for i, c in enumerate((a, b) + rest):
            got = answer(calls[c], comp)
            ctx.step()
            want = fresh(name, variant, c)
            check(got == want, lambda: f"{name}({variant}): after {((a, b) + rest)[:i]} call {c} answers {str(got)[:600]}, a fresh component {str(want)[:600]}" if i else f"{name}: {c}: {got} / {want}")
    return fresh(name, variant, a)


@R.scenario(lambda t: [[n, v, o] for n, (vs, _) in COMP.items() for v in vs for o in vs])
def side_by_side(ctx, case):
    """Components used in between, of the same kind, do not influence each other."""
    name, v, o = case
    variants, calls = COMP[name]
    mine, other = variants[v](), variants[o]()
    labels = list(calls)
    for i, c in enumerate(labels):
        for d in (labels[(i + 1) % len(labels)], labels[i]):
            answer(calls[d], other)
            got = answer(calls[c], mine)
            ctx.step(2)
            check(got == fresh(name, v, c), lambda: f"{name}({v}): with {name}({o}) used on {d} in between, call {c} answers {str(got)[:600]}, alone {str(fresh(name, v, c))[:600]}")
    later = variants[v]()
    for c in labels:
        check(answer(calls[c], later) == fresh(name, v, c), f"{name}({v}): a component created later answers call {c} differently")
    return name


@R.scenario(lambda t: [[n, v] for n, (vs, _) in COMP.items() for v in vs])
def copies(ctx, case):
    """A used component and its copy answer like fresh ones."""
    name, v = case
    variants, calls = COMP[name]
    comp = variants[v]()
    for c in calls:
        answer(calls[c], comp)
    for c in calls:
        try:
            cp = copy.deepcopy(comp)
        except (TypeError, RecursionError):  # holds something that cannot be copied
            return None
        got = answer(calls[c], cp)
        ctx.step()
        check(got == fresh(name, v, c), lambda: f"{name}({v}): copy of a used component answers call {c} {str(got)[:600]}, fresh {str(fresh(name, v, c))[:600]}")
    return name
