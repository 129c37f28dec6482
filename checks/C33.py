"""C33: inputs handed to the library are never modified and not kept by reference."""
import copy
import itertools
import math
from datetime import datetime, timedelta

import numpy as np
import pandas

import hrosailing.core.computing as comp
import hrosailing.processing as pc
from hrosailing.core import modelfunctions as mf
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
from hrosailing.models import (
    FlatMercatorProjection,
    GriddedWeatherModel,
    IdentityInfluenceModel,
    MultiWeatherModel,
    SphericalGlobe,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.extensions import CurveExtension, PointcloudExtension, TableExtension
from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing.datahandler import ArrayHandler
from hrosailing.processing.imputator import RemoveOnlyImputator
from hrosailing.processing.interpolator import ShepardInterpolator
from vf.core import Registry, check

ID = "C33"
ASSUMPTIONS = [
    "imputators, smoothers and expanders work on the data table they are handed (documented) and are excluded, as are the methods of a table that change the table itself",
    "diagrams handed to multi-sail diagrams, components and models are kept by reference as objects; only arrays, lists, dictionaries and tables must be copied",
]
R = Registry()

T0 = datetime(2022, 3, 14, 15)
WS, WA = [4.0, 8.0, 12.0, 20.0], [0.0, 45.0, 90.0, 135.0, 180.0, 250.0, 300.0]
BSP = [[round(0.3 * w * (1.2 - math.cos(math.radians(a))) + 0.2, 3) for w in WS] for a in WA]
PTS = [[w, a, BSP[i][j]] for i, a in enumerate(WA) for j, w in enumerate(WS)][::-1]
MESS = [[w, a - 360 if i % 3 == 0 else a + 360, s] for i, (w, a, s) in enumerate(PTS)]
WEI = [round(0.1 + 0.9 * ((7 * i) % 11) / 11, 3) for i in range(len(PTS))]


# ---- containers --------------------------------------------------------------
def pack(x, how):
    if how == "array":
        return np.array(x)
    if how == "fortran":
        return np.asfortranarray(np.array(x))
    if how == "view":  # every other row of a larger array
        a = np.array(x)
        big = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if how == "int":
        return np.array(x).astype(int)
    if how == "list":
        return np.array(x).tolist()
    if how == "rows":
        return [np.array(r) for r in x]
    if how == "tuple":
        return tuple(np.array(x).tolist())
    raise ValueError(how)


AR = ["array", "fortran", "view"]
ALL = AR + ["list", "rows", "tuple"]
FLAT = ["array", "view", "list", "tuple"]


def plain(x):
    """Deep value of an input or an observation."""
    if isinstance(x, np.ndarray):
        return [str(x.dtype), list(x.shape), plain(x.tolist())]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, pandas.DataFrame):
        return {str(k): plain(list(x[k])) for k in x.columns}
    if isinstance(x, Data):
        return {k: plain(list(x[k])) for k in x.keys()}
    if isinstance(x, WeightedPoints):
        return [plain(x.data), plain(x.weights)]
    if isinstance(x, PolarDiagramMultiSails):
        return [plain(x.sails)] + [plain(d) for d in x.diagrams]
    if isinstance(x, PolarDiagramTable):
        return [plain(list(x.wind_speeds)), plain(list(x.wind_angles)), plain(np.asarray(x.boat_speeds))]
    if isinstance(x, PolarDiagramPointcloud):
        return plain(np.asarray(x.points))
    if isinstance(x, PolarDiagramCurve):
        return [x.curve.__name__, plain(tuple(x.parameters)), x.radians, plain(list(x.get_slices([7.0])[1]))]
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, datetime):
        return x.isoformat()
    if hasattr(x, "angle") and hasattr(x, "proportion"):
        return [plain(x.angle), plain(x.proportion), plain(x.sail)]
    return repr(type(x))


def spoil(x):
    """Change everything reachable from an input, in place."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                spoil(v)
        elif x.flags.writeable:
            base = x if x.base is None or not isinstance(x.base, np.ndarray) else x.base
            for a in (x, base):
                if a.flags.writeable:
                    a[...] = np.array([123]).astype(a.dtype)[0] if a.dtype != bool else ~a
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, np.ndarray, dict, tuple, Data)):
                spoil(v)
            elif isinstance(v, datetime):
                x[i] = v + timedelta(days=1000)
            elif isinstance(v, str):
                x[i] = v + "!"
            elif isinstance(v, (int, float)):
                x[i] = type(v)(123)
        if x:
            x.append(copy.deepcopy(x[0]))
            x.reverse()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        for k in list(x):
            if not isinstance(x[k], (list, np.ndarray, dict)):
                x[k] = "spoiled"
        x["another"] = [1.0]
    elif isinstance(x, Data):
        for k in list(x.keys()):
            v = [w for w in x[k] if w is not None]
            if v:
                x.append(k, v[0])
            x.rename(k, k + "_old")
        x.extend("TWS", [123.0])
    elif isinstance(x, pandas.DataFrame):
        x.iloc[:, 0] = 123.0
        x["another"] = 1.0
    elif isinstance(x, WeightedPoints):
        spoil(x.data)
        spoil(x.weights)


# ---- subjects: name -> (container kinds, inputs(kind), call(**inputs), observe(result)) ----
S = {}


def subject(name, kinds, inputs, call, observe=None, keep=True):
    """keep: later changes of the inputs must not show in the result"""
    S[name] = (kinds, inputs, call, observe or plain, keep)


def pd_table():
    return PolarDiagramTable(WS, WA, BSP)


def pd_cloud():
    return PolarDiagramPointcloud(PTS)


def pd_curve():
    return PolarDiagramCurve(mf.ws_times_wa, 0.01)


def pd_sails():
    return PolarDiagramMultiSails([pd_table(), PolarDiagramTable(WS, WA, np.array(BSP)[::-1])], ["a", "b"])


def pd_sails_mixed():
    return PolarDiagramMultiSails([pd_cloud(), PolarDiagramTable(WS, WA, np.array(BSP)[::-1])], ["a", "b"])


PDS = {"table": pd_table, "cloud": pd_cloud, "curve": pd_curve, "sails": pd_sails, "mixed": pd_sails_mixed}

# diagrams
subject("table", ALL[:5], lambda k: dict(ws=pack(WS, "array" if k in AR else "list"), wa=pack(WA, "array" if k in AR else "list"), b=pack(BSP, k)),
        lambda ws, wa, b: PolarDiagramTable(ws, wa, b))
subject("table unsorted", ALL[:5], lambda k: dict(ws=pack(WS[::-1], "array" if k in AR else "list"), wa=pack(WA[::-1], "array" if k in AR else "list"), b=pack(BSP, k)),
        lambda ws, wa, b: PolarDiagramTable(ws, wa, b))
subject("table angles beyond a turn", ALL[:5], lambda k: dict(ws=pack(WS, "array" if k in AR else "list"), wa=pack([a + 360 for a in WA], "array" if k in AR else "list"), b=pack(BSP, k)),
        lambda ws, wa, b: PolarDiagramTable(ws, wa, b))
subject("table 0 and 360", ALL[:5], lambda k: dict(ws=pack(WS, "array" if k in AR else "list"), wa=pack(WA + [360.0], "array" if k in AR else "list"), b=pack(BSP + [BSP[0]], k)),
        lambda ws, wa, b: PolarDiagramTable(ws, wa, b))
subject("empty table", ["array", "list"], lambda k: dict(ws=pack(WS, k), wa=pack(WA, k)), lambda ws, wa: PolarDiagramTable(ws, wa))
for nm, pts in (("points", PTS), ("angles beyond a turn", MESS)):
    for app in (False, True):
        subject(f"cloud of {nm}{' apparent' if app else ''}", ALL, lambda k, pts=pts: dict(p=pack(pts, k)), lambda p, app=app: PolarDiagramPointcloud(p, apparent_wind=app))

        def add(p, app=app):
            c = PolarDiagramPointcloud(PTS[:5])
            c.add_points(p, apparent_wind=app)
            return c
        subject(f"cloud, added {nm}{' apparent' if app else ''}", ALL, lambda k, pts=pts: dict(p=pack(pts[5:], k)), add)
subject("cloud of whole numbers", ["int"], lambda k: dict(p=pack(PTS, k)), lambda p: PolarDiagramPointcloud(p))
subject("curve", ["list"], lambda k: dict(p=[0.01]), lambda p: PolarDiagramCurve(mf.ws_times_wa, *p))
subject("multi-sails", ["list"], lambda k: dict(p=[pd_table(), pd_cloud()], s=["Jib", "Spi"]), lambda p, s: PolarDiagramMultiSails(p, s),
        lambda m: [m.sails, len(m.diagrams), plain(m.get_slices([8.0], full_info=True)[2])])


def change(kw):
    def run(**inp):
        t = pd_table()
        t.change_entries(inp["b"], **{k: v for k, v in inp.items() if k != "b"})
        return t
    return run


NEW = [[5.0 + i + 0.1 * j for j in range(2)] for i in range(3)]
subject("change entries", ALL[:5], lambda k: dict(b=pack(NEW, k), ws=pack([8.0, 20.0], "array" if k in AR else "list"), wa=pack([45.0, 90.0, 250.0], "array" if k in AR else "list")), change(None))
subject("change column", FLAT[:3], lambda k: dict(b=pack([b[0] + 1 for b in BSP], "array"), ws=pack([8.0], k)), change(None))
subject("change everything", ALL[:3], lambda k: dict(b=pack(np.array(BSP) + 1, k)), change(None))


def slices(pd, kw):
    w, sl = pd.get_slices(**kw)[:2]
    return [plain(np.asarray(w)), [plain(np.asarray(s)) for s in sl]]


for n, mk in PDS.items():
    subject(f"{n} slices", FLAT, lambda k, mk=mk: dict(pd=mk(), ws=pack([12.0, 4.0, 8.0], k)), lambda pd, ws: pd.get_slices(ws), keep=True,
            observe=lambda r: [plain(np.asarray(r[0])), [plain(np.asarray(s)) for s in r[1]]])
    subject(f"{n} slices in steps", FLAT, lambda k, mk=mk: dict(pd=mk(), ws=pack([4.0, 12.0, 20.0], k)), lambda pd, ws: pd.get_slices(ws, n_steps=1),
            observe=lambda r: [plain(np.asarray(r[0])), [plain(np.asarray(s)) for s in r[1]]])
    subject(f"{n} points", AR + ["tuple"], lambda k, mk=mk: dict(pd=mk(), w=pack([[4.0, 45.0], [8.0, 405.0], [20.0, -60.0]], k) if k != "tuple" else (np.array([4.0, 8.0]), np.array([45.0, 405.0]))),
            lambda pd, w: pd.get_points(w))
    if n in ("table", "cloud", "curve"):
        subject(f"{n} symmetrized", ["-"], lambda k, mk=mk: dict(pd=mk()), lambda pd: pd.symmetrize())
    else:
        subject(f"{n} symmetrized", ["-"], lambda k, mk=mk: dict(pd=mk()), lambda pd: pd.symmetrize())
    for wa in (45.0, 405.0, -300.0, 777.5):
        subject(f"{n} at one wind {wa}", ["-"], lambda k, mk=mk, wa=wa: dict(pd=mk(), ws=np.array(8.0), wa=np.array(wa)), lambda pd, ws, wa: float(pd(ws, wa)))
    for im in (IdentityInfluenceModel, WindAngleCorrectingInfluenceModel):
        subject(f"{n} under {im.__name__}", FLAT[:3], lambda k, mk=mk, im=im: dict(pd=mk(), d={"TWS": pack([4.0, 8.0, 12.0], k), "TWA": pack([45.0, 90.0, 0.0], k)}),
                lambda pd, d, im=im: im().add_influence(pd, d))
        subject(f"{n} under {im.__name__}, one wind", ["-"], lambda k, mk=mk: dict(pd=mk(), d={"TWS": 8.0, "TWA": 350.0}), lambda pd, d, im=im: im().add_influence(pd, d))
    for qa in (MinimalQualityAssurance, ComformingQualityAssurance):
        subject(f"{n} {qa.__name__}", AR + ["list"], lambda k, mk=mk: dict(pd=mk(), t=pack(PTS[::3], k)), lambda pd, t, qa=qa: qa().check(pd, t))
    if n != "curve":
        subject(f"{n} convex direction", ["-"], lambda k, mk=mk: dict(pd=mk()), lambda pd: convex_direction(pd, 8.0, 70.0))
    if n != "cloud":
        subject(f"{n} cruise", ["tuple", "list", "array"], lambda k, mk=mk: dict(pd=mk(), a=pack([10.0, 54.0], k), b=pack([10.5, 54.25], k), w=(8.0, 30.0)),
                lambda pd, a, b, w: cruise(pd, a, b, w))
subject("curve at arrays", FLAT[:2], lambda k: dict(ws=pack([4.0, 8.0, 12.0], k), wa=pack([-30.0, 400.0, 90.0], k)), lambda ws, wa: pd_curve()(ws, wa))

# conversions
for f in ("convert_apparent_wind_to_true", "convert_true_wind_to_apparent"):
    for nm, pts in (("points", PTS), ("mess", MESS)):
        subject(f"{f} {nm}", ALL, lambda k, pts=pts: dict(w=pack(pts, k)), lambda w, f=f: getattr(comp, f)(w))
for f in ("euclidean_norm", "scaled_euclidean_norm"):
    subject(f, ALL[:3], lambda k: dict(v=pack([[3.0, 40.0], [-1.0, 250.0]], k)), lambda v, f=f: getattr(comp, f)(v))
subject("data_dict_to_numpy", FLAT, lambda k: dict(d={"a": pack([1.0, 2.0], k), "b": pack([3.0, 4.0], k), "c": ["x", "y"]}, keys=["b", "a"]),
        lambda d, keys: comp.data_dict_to_numpy(d, keys))

# tables of measurements
COLS = {"TWS": [8.0, 9.0, 10.0, 8.5, 9.5], "TWA": [40.0, 50.0, 60.0, 42.0, 300.0], "BSP": [5.0, 5.5, 6.0, 5.25, 5.75], "name": list("abcde"),
        "datetime": [T0 + timedelta(seconds=5 * i) for i in range(5)]}


def dic(k="list", keys=("TWS", "TWA", "BSP", "name", "datetime")):
    return {c: (np.array(COLS[c]) if k == "array" and c not in ("name", "datetime") else tuple(COLS[c]) if k == "tuple" else list(COLS[c])) for c in keys}


def table_of(keys=("TWS", "TWA", "BSP", "name", "datetime")):
    return Data.from_dict({k: list(COLS[k]) for k in keys})


def data_call(fn):
    def run(**inp):
        d = Data()
        r = fn(d, **inp)
        return d if r is None else r
    return run


subject("Data.from_dict", ["list", "array", "tuple"], lambda k: dict(d=dic(k)), lambda d: Data.from_dict(d))
subject("Data.update", ["list"], lambda k: dict(d=dic(k)), data_call(lambda s, d: s.update(d)))
subject("Data.update with a table", ["-"], lambda k: dict(d=table_of()), data_call(lambda s, d: s.update(d)))
subject("Data.update with compressed constants", ["-"], lambda k: dict(d={"TWS": [8.0, 8.0], "TWA": [1.0, 2.0]}), data_call(lambda s, d: s.update(d, compress=True)))
subject("Data.extend", ["list", "array", "tuple"], lambda k: dict(v=pack([1.0, 2.0, 3.0], k)), data_call(lambda s, v: s.extend("TWS", v)))
subject("Data.extend twice", ["list", "array"], lambda k: dict(v=pack([1.0, 2.0, 3.0], k)), data_call(lambda s, v: (s.extend("TWS", v), s.extend("AWS", v), None)[2]))
subject("Data.concatenate", ["-"], lambda k: dict(v=[table_of(), table_of(("TWS", "BSP"))]), lambda v: Data.concatenate(v))
subject("Data.concatenate one", ["-"], lambda k: dict(v=[table_of()]), lambda v: Data.concatenate(v))
subject("Data[keys]", ["-"], lambda k: dict(d=table_of(), s=["TWS", "name"]), lambda d, s: d[s])
subject("Data[mask]", ["list", "array"], lambda k: dict(d=table_of(), m=pack([True, False, True, True, False], k)), lambda d, m: d[m])
subject("Data slices kept as dicts", ["-"], lambda k: dict(d=table_of()), lambda d: d.data, observe=lambda r: sorted(r))
subject("Data.rows", ["-"], lambda k: dict(d=table_of(), keys=["TWA", "TWS"]), lambda d, keys: list(d.rows(keys, return_type=list)))
subject("Data.row dicts", ["-"], lambda k: dict(d=table_of()), lambda d: list(d.rows()))
subject("WeightedPoints of arrays", AR, lambda k: dict(p=pack(PTS, k), w=pack(WEI, "view" if k == "view" else "array")), lambda p, w: WeightedPoints(p, w), keep=False)
subject("WeightedPoints, listed weights", ["array"], lambda k: dict(p=pack(PTS, k), w=list(WEI)), lambda p, w: WeightedPoints(p, w), keep=False)
subject("WeightedPoints, one weight", AR, lambda k: dict(p=pack(PTS, k)), lambda p: WeightedPoints(p, 0.5), keep=False)
subject("WeightedPoints of a dict", ["list"], lambda k: dict(p=dic(k), w=np.array(WEI[:5])), lambda p, w: WeightedPoints(p, w), keep=False)
subject("WeightedPoints of a table", ["-"], lambda k: dict(p=table_of(), w=np.array(WEI[:5])), lambda p, w: WeightedPoints(p, w), keep=False)
subject("WeightedPoints masked", ["list", "array"], lambda k: dict(p=WeightedPoints(np.array(PTS[:5]), np.array(WEI[:5])), m=pack([True, False, True, True, False], k)), lambda p, m: p[m])


def wp_ext(other):
    w = WeightedPoints(np.array(PTS[:5]), np.array(WEI[:5]))
    w.extend(other)
    return w


def wp_ext_empty(other):
    w = WeightedPoints(np.empty((0, 3)), np.empty(0))
    w.extend(other)
    return w


def wp_data_ext(other):
    w = WeightedPoints(table_of(("TWS", "TWA", "BSP")), np.array(WEI[:5]))
    w.extend(other)
    return w


subject("WeightedPoints extended", ["-"], lambda k: dict(other=WeightedPoints(np.array(PTS[5:]), np.array(WEI[5:]))), wp_ext)
subject("empty WeightedPoints extended", ["-"], lambda k: dict(other=WeightedPoints(np.array(PTS[5:]), np.array(WEI[5:]))), wp_ext_empty)
subject("WeightedPoints of a table extended", ["-"], lambda k: dict(other=WeightedPoints(table_of(("TWS", "TWA", "BSP")), np.array(WEI[:5]))), wp_data_ext)

# processing components
WEIGHERS = {
    "AllOne": lambda: pc.AllOneWeigher(), "Mean": lambda: pc.CylindricMeanWeigher(radius=2), "Member": lambda: pc.CylindricMemberWeigher(radius=3, length=40),
    "sum": lambda: pc.CylindricMeanWeigher(radius=2) + pc.CylindricMemberWeigher(radius=3, length=40), "scaled": lambda: pc.CylindricMeanWeigher(radius=2) * 0.5,
    "power": lambda: pc.CylindricMemberWeigher(radius=3, length=40) ** 2, "or": lambda: pc.CylindricMeanWeigher(radius=2) | pc.AllOneWeigher(),
    "neg": lambda: ~pc.CylindricMeanWeigher(radius=2),
}


def safe(mk):
    try:
        mk()
        return True
    except TypeError:
        return False


for n, mk in WEIGHERS.items():
    if not safe(mk):
        continue
    subject(f"weigher {n}", AR, lambda k: dict(p=pack(PTS, k)), lambda p, mk=mk: mk().weigh(p))
    if n in ("AllOne", "Mean", "Member"):
        subject(f"weigher {n} on a table", ["-"], lambda k: dict(p=table_of(("TWS", "TWA", "BSP"))), lambda p, mk=mk: mk().weigh(p))
subject("FluctuationWeigher", ["-"], lambda k: dict(p=table_of(), a=["BSP", "TWA"], u=[2.0, 20.0]),
        lambda p, a, u: pc.FluctuationWeigher(a, timedelta(seconds=10), u), observe=lambda w: plain(w.weigh(table_of())), keep=False)
subject("FuzzyWeigher", AR, lambda k: dict(p=pack(PTS, k)), lambda p: pc.FuzzyWeigher((pc.FuzzyVariable()[1] < 90) & (pc.FuzzyVariable()[0] > 5)).weigh(p))
subject("CylindricMean dimensions", ["list"], lambda k: dict(dim=["TWS", "BSP", "TWA"]), lambda dim: pc.CylindricMeanWeigher(radius=2, dimensions=dim), observe=lambda w: plain(w.weigh(table_of(("TWS", "TWA", "BSP")))), keep=False)
FILTERS = {"quantile": lambda: pc.QuantileFilter(40), "bounds": lambda: pc.BoundFilter(0.3, 0.8)}
for n, mk in FILTERS.items():
    subject(f"filter {n}", FLAT[:2], lambda k: dict(w=pack(WEI, k)), lambda w, mk=mk: mk().filter(w))
    mkn = mk
NB = {"Ball": lambda: pc.Ball(radius=0.3), "ScalingBall": lambda: pc.ScalingBall(min_pts=3), "Ellipsoid": lambda: pc.Ellipsoid(radius=0.3), "Cuboid": lambda: pc.Cuboid(dimensions=(3, 40)), "Polytope": lambda: pc.Polytope()}
PLANE = [[(w - 8) / 10, (a - 90) / 30] for w, a, _ in PTS]
for n, mk in NB.items():
    subject(f"neighbourhood {n}", AR, lambda k: dict(p=pack(PLANE, k)), lambda p, mk=mk: mk().is_contained_in(p))
subject("Ellipsoid matrix", AR + ["list"], lambda k: dict(m=pack([[2.0, 0.0], [0.5, 1.0]], k)), lambda m: pc.Ellipsoid(lin_trans=m, radius=1), observe=lambda e: plain(e.is_contained_in(np.array(PLANE))), keep=False)
subject("Polytope parameters", AR + ["list"], lambda k: dict(m=pack([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0]], k), b=pack([0.5, 0.5, 1.0], "array" if k != "list" else k)), lambda m, b: pc.Polytope(m, b),
        observe=lambda e: plain(e.is_contained_in(np.array(PLANE))), keep=False)
subject("Cuboid dimensions", ["list", "array"], lambda k: dict(d=pack([0.5, 1.0], k)), lambda d: pc.Cuboid(dimensions=d), observe=lambda e: plain(e.is_contained_in(np.array(PLANE))), keep=False)
INTER = {"idw": lambda: pc.IDWInterpolator(), "mean": lambda: pc.ArithmeticMeanInterpolator(params=(50,)), "idw+": lambda: pc.ImprovedIDWInterpolator(), "shepard": lambda: ShepardInterpolator(pc.Ball(radius=1), tol=1e-6)}
for n, mk in INTER.items():
    subject(f"interpolator {n}", FLAT[:3], lambda k: dict(p=WeightedPoints(np.array(PTS), np.array(WEI)), g=pack([8.5, 100.0], k)), lambda p, g, mk=mk: mk().interpolate(p, g))
subject("interpolator bilinear", ["array", "view", "list"], lambda k: dict(p=WeightedPoints(np.array(sorted(PTS)), 1), g=pack([8.5, 100.0], k)), lambda p, g: pc.BilinearGridInterpolator().interpolate(p, g))
subject("interpolator mean, parameters", ["list"], lambda k: dict(par=[50]), lambda par: pc.ArithmeticMeanInterpolator(params=par),
        observe=lambda i: plain(i.interpolate(WeightedPoints(np.array(PTS), np.array(WEI)), np.array([8.5, 100.0]))), keep=False)
for n in ("FibonacciSampler", "ArchimedeanSampler", "UniformRandomSampler"):
    subject(n, AR, lambda k: dict(p=pack([[w, a] for w, a, _ in PTS], k)), lambda p, n=n: getattr(pc, n)(10).sample(p), observe=(lambda r: plain(r.shape)) if n.startswith("U") else None)
subject("ZeroInjector", ["-"], lambda k: dict(p=WeightedPoints(np.array(PTS), np.array(WEI))), lambda p: pc.ZeroInjector(4).inject(p))
for n, mk in (("ODR", lambda i: pc.ODRegressor(mf.ws_s_dt_wa_gauss if False else mf.ws_times_wa, init_values=i)), ("LSQ", lambda i: pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=i))):
    def fit(p, i, mk=mk):
        r = mk(i)
        r.fit(p)
        return r
    subject(f"regressor {n}", AR, lambda k: dict(p=pack(PTS, k), i=[0.02]), fit, observe=lambda r: [round(float(v), 6) for v in r.optimal_params])

    def refit(i, mk=mk):
        return mk(i)

    def obs(r):
        r.fit(np.array(PTS))
        return [round(float(v), 5) for v in r.optimal_params]
    subject(f"regressor {n}, start values", ["list", "array"], lambda k: dict(i=pack([0.02], k)), refit, observe=obs, keep=False)
subject("array handler, frame", ["-"], lambda k: dict(d=pandas.DataFrame({"wind speed": [1.0, 2.0], "TWA": [3.0, 4.0], "name": ["x", None]})), lambda d: ArrayHandler().handle(d))
subject("array handler, array and keys", AR + ["list"], lambda k: dict(d=(pack(PTS, k), ["TWS", "TWA", "BSP"])), lambda d: ArrayHandler().handle(d))
subject("array handler, array", AR, lambda k: dict(d=(pack(PTS, k), ("TWS", "TWA", "BSP"))), lambda d: ArrayHandler().handle(d))
for n, mk in (("table", lambda: TableExtension(wind_resolution=([6, 10, 14], [30, 60, 120, 240]), neighbourhood=pc.Ball(radius=1))), ("min_max", lambda: TableExtension(neighbourhood=pc.Ball(radius=2))),
              ("curve", lambda: CurveExtension(pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[0.02]))),
              ("cloud", lambda: PointcloudExtension(sampler=pc.ArchimedeanSampler(20), neighbourhood=pc.Ball(radius=2)))):
    subject(f"extension {n}", AR, lambda k: dict(p=WeightedPoints(pack(PTS, k), np.array(WEI))), lambda p, mk=mk: mk().process(p),
            observe=None if n != "curve" else lambda c: [round(float(v), 6) for v in c.parameters])
subject("extension resolutions", ["list", "array"], lambda k: dict(w=(pack([6.0, 10.0, 14.0], k), pack([30.0, 60.0, 120.0, 240.0], k))), lambda w: TableExtension(wind_resolution=w, neighbourhood=pc.Ball(radius=1)),
        observe=lambda e: plain(e.process(WeightedPoints(np.array(PTS), np.array(WEI)))), keep=False)

# models
for im in (IdentityInfluenceModel, WindAngleCorrectingInfluenceModel):
    for con in ("list", "array", "data"):
        def inp(k, con=con):
            keys = ("TWS", "TWA", "BSP")
            if k == "turns":  # angles beyond a turn
                d = {"TWS": [r[0] for r in MESS], "TWA": [r[1] for r in MESS], "BSP": [r[2] for r in MESS]}
                return dict(d=Data.from_dict(d) if con == "data" else {a: np.array(b) for a, b in d.items()} if con == "array" else d)
            return dict(d=table_of(keys) if con == "data" else dic(con, keys))

        def app(k, con=con):
            d = {"AWS": COLS["TWS"], "AWA": [a + 360 * (k == "turns") for a in COLS["TWA"]], "SOG": COLS["BSP"]}
            return dict(d=Data.from_dict(d) if con == "data" else {a: (np.array(b) if con == "array" else list(b)) for a, b in d.items()})
        subject(f"{im.__name__} removes, {con}", ["-", "turns"], inp, lambda d, im=im: im().remove_influence(d))
        subject(f"{im.__name__} removes apparent, {con}", ["-", "turns"], app, lambda d, im=im: im().remove_influence(d))

        def fitted(d, im=im):
            m = im()
            m.fit(d)
            return m
        subject(f"{im.__name__} fitted, {con}", ["-", "turns"], inp, fitted, observe=lambda m: plain(m.remove_influence(dic("list", ("TWS", "TWA", "BSP")))))

TIMES = [T0 + timedelta(hours=h) for h in (-1, 0, 2, 6)]
LATS, LONS = [50.0, 54.0, 56.0], [8.0, 10.0, 12.0]
GRID = [[[[8.0 + i + 0.1 * j, 20.0 * k] for k in range(3)] for j in range(3)] for i in range(4)]


def obs_weather(m):
    pts = [(T0 + timedelta(minutes=40), 54.5, 10.5), (T0, 50.0, 8.0), (T0 + timedelta(hours=5), 55.0, 11.0)]
    return [plain(m.get_weather(p)) for p in pts] + [plain(m.data), plain(m.attrs), plain([list(g) for g in m.grid])]


subject("weather grid", ["array", "view", "list"], lambda k: dict(d=pack(GRID, k), t=list(TIMES), la=pack(LATS, k), lo=pack(LONS, k), at=["TWS", "TWA"]),
        lambda d, t, la, lo, at: GriddedWeatherModel(d, t, la, lo, at), observe=obs_weather)
subject("weather at a point", ["tuple", "list"], lambda k: dict(p=(T0, 54.0, 10.0) if k == "tuple" else [T0, 54.0, 10.0]),
        lambda p: GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["TWS", "TWA"]).get_weather(p))
for n, mk in (("sphere", SphericalGlobe), ("mercator", FlatMercatorProjection), ("unit sphere", lambda: SphericalGlobe(1)), ("km map", lambda: FlatMercatorProjection(earth_radius=6371)), ("turned map", lambda: FlatMercatorProjection((10, 20), (80, -160), 1))):
    for k2 in ("project", "round"):
        subject(f"{n} {k2}", AR[:1] + ["view"], lambda k: dict(p=pack([[54.0, 10.0], [50.0, 8.0], [-20.0, 100.0]], k)),
                (lambda p, mk=mk: mk().project(p)) if k2 == "project" else lambda p, mk=mk: mk().lat_lon(mk().project(p)))
    subject(f"{n} back", ["array", "view"], lambda k, mk=mk: dict(p=pack(mk().project(np.array([[54.0, 10.0], [50.0, 8.0]])), k)), lambda p, mk=mk: mk().lat_lon(p))
    subject(f"{n} distance", FLAT[:2] + ["tuple"], lambda k: dict(a=pack([54.0, 10.0], k), b=pack([50.0, 8.0], k)), lambda a, b, mk=mk: mk().distance(a, b))
    subject(f"{n} path", FLAT[:2] + ["tuple"], lambda k: dict(a=pack([54.0, 10.0], k), b=pack([50.0, 8.0], k)), lambda a, b, mk=mk: mk().shortest_path(a, b, res=5))
    subject(f"{n} projected path", FLAT[:2], lambda k, mk=mk: dict(a=pack(mk().project(np.array([54.0, 10.0])), k), b=pack(mk().project(np.array([50.0, 8.0])), k)),
            lambda a, b, mk=mk: mk().shortest_projected_path(a, b, res=5))


def routes():
    m = GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["TWS", "TWA"])
    return m


for n in ("table", "curve", "sails"):
    subject(f"{n} cost", ["tuple", "list", "array"], lambda k, n=n: dict(pd=PDS[n](), a=pack([54.0, 10.0], k), b=pack([54.05, 10.05], k)), lambda pd, a, b: cost_cruise(pd, a, b, T0, routes()))
    subject(f"{n} isochrone", ["tuple", "list", "array"], lambda k, n=n: dict(pd=PDS[n](), a=pack([54.0, 10.0], k)), lambda pd, a: isochrone(pd, a, T0, 40.0, routes(), total_time=0.25))

# pipeline
PIPES = {"plain": {}, "table": dict(extension=TableExtension(wind_resolution=([6, 10, 14], [30, 60, 120, 240]), neighbourhood=pc.Ball(radius=1)))}
for n, comps in PIPES.items():
    for con in ("frame", "tuple", "list", "two"):
        def raw(k, con=con):
            if con == "frame":
                return dict(d=[pandas.DataFrame({"TWS": [p[0] for p in PTS], "TWA": [p[1] for p in PTS], "BSP": [p[2] for p in PTS]})])
            if con == "list":
                return dict(d=[([list(p) for p in PTS], ["TWS", "TWA", "BSP"])])
            if con == "two":
                return dict(d=[(np.array(PTS), ["TWS", "TWA", "BSP"]), (np.array(PTS[::2]), ["TWS", "TWA", "BSP"])])
            return dict(d=[(np.array(PTS), ["TWS", "TWA", "BSP"])])
        for test in (False, True):
            def run(d, test=None, comps=comps):
                out = PolarPipeline(data_handler=ArrayHandler(), imputator=RemoveOnlyImputator(), **comps)(d, test)
                return out
            subject(f"pipeline {n} {con}{' tested' if test else ''}", ["-"], (lambda k, raw=raw: dict(raw(k), test=raw(k)["d"])) if test else raw, run,
                    observe=lambda r: plain(r.polardiagram))


@R.scenario(lambda t: [[n, k] for n, s in S.items() for k in s[0]])
def inputs(ctx, case):
    """No input changes; changing any one input, or all, afterwards shows nowhere."""
    name, kind = case
    kinds, mk, call, observe, keep = S[name]
    inp = mk(kind)
    before = {k: plain(v) for k, v in inp.items()}
    res = call(**inp)
    for k, v in inp.items():
        check(plain(v) == before[k], "%s modified its input %r: %s -> %s", name, k, before[k], plain(v))
    first = observe(res)
    for k, v in inp.items():
        check(plain(v) == before[k], "using the result of %s modified its input %r", name, k)
    ctx.step()
    again = observe(call(**inp))
    check(again == first, "%s answers the same call differently: %s, then %s", name, first, again)
    for k, v in inp.items():
        check(plain(v) == before[k], "%s modified its input %r in the second call", name, k)
    mutable = [k for k, v in inp.items() if not isinstance(v, (str, float, int, datetime)) and not hasattr(v, "get_slices")]
    if keep:
        for sel in [[k] for k in mutable] + ([mutable] if len(mutable) > 1 else []):
            inp = mk(kind)
            res = call(**inp)
            base = observe(res)
            check(base == first, "%s answers the same call differently: %s, then %s", name, first, base)
            for k in sel:
                spoil(inp[k])
            after = observe(res)
            check(after == base, "%s: changing %s afterwards changed the result from %s to %s", name, sel, base, after)
            # changed inputs are really read again
            ctx.step()
    return first


# ---- what is handed out is no back door --------------------------------------
OUT = {
    "table": {"boat_speeds": lambda d: d.boat_speeds, "points": lambda d: d.get_points(), "default_points": lambda d: d.default_points,
              "slices": lambda d: d.get_slices([8.0])[1][0], "all slices": lambda d: d.get_slices()[1], "labels": lambda d: d.get_slices([4.0, 8.0])[0]},
    "cloud": {"points": lambda d: d.points, "get_points": lambda d: d.get_points(), "default_points": lambda d: d.default_points, "slices": lambda d: d.get_slices([8.0])[1][0],
              "wind_speeds": lambda d: d.wind_speeds, "wind_angles": lambda d: d.wind_angles, "boat_speeds": lambda d: d.boat_speeds, "default slices": lambda d: d.default_slices},
    "curve": {"points": lambda d: d.get_points(), "slices": lambda d: d.get_slices([8.0])[1][0], "default slices": lambda d: d.default_slices},
    "sails": {"slices": lambda d: d.get_slices([8.0])[1][0], "default slices": lambda d: d.default_slices, "info": lambda d: d.get_slices([8.0], full_info=True)[2], "names": lambda d: d.sails,
              "diagrams": lambda d: d.diagrams},
}


def value(pd):
    out = [plain(pd)]
    for w in (8.0, 9.5):
        out.append([plain(np.asarray(s)) for s in pd.get_slices([w])[1]])
        for a in (45.0, 77.0):
            try:
                out.append(round(float(pd(w, a)), 9))
            except (ValueError, RuntimeError) as e:
                out.append(type(e).__name__)
    return out


@R.scenario(lambda t: [[k, o] for k in OUT for o in OUT[k]])
def outputs(ctx, case):
    """Changing what a diagram hands out does not change the diagram."""
    kind, what = case
    pd = PDS[kind]()
    base = value(pd)
    got = OUT[kind][what](pd)
    try:
        spoil(got)
    except (ValueError, TypeError):
        pass  # read-only
    after = value(pd)
    check(after == base, "changing %s of a %s changed the diagram", what, kind)
    ctx.step()
    return plain(base[1])


# ---- diagrams derived from diagrams share nothing -----------------------------
def edit(pd):
    if isinstance(pd, PolarDiagramTable):
        pd.change_entries(np.full((len(pd.wind_angles), len(pd.wind_speeds)), 9.0))
        pd.change_entries(3.5, ws=pd.wind_speeds[0], wa=pd.wind_angles[0])
    elif isinstance(pd, PolarDiagramPointcloud):
        pd.add_points([[8.0, 77.0, 9.0]])
    elif isinstance(pd, PolarDiagramMultiSails):
        for d in pd.diagrams:
            edit(d)


DERIVE = {
    "symmetrize": lambda p: p.symmetrize(),
    "twice": lambda p: p.symmetrize().symmetrize(),
    "rebuilt": lambda p: PolarDiagramTable(p.wind_speeds, p.wind_angles, p.boat_speeds) if isinstance(p, PolarDiagramTable)
    else PolarDiagramPointcloud(p.points) if isinstance(p, PolarDiagramPointcloud) else PolarDiagramMultiSails([d.symmetrize() for d in p.diagrams], list(p.sails)),
    "from points": lambda p: PolarDiagramPointcloud(p.get_points()) if not isinstance(p, PolarDiagramMultiSails) else PolarDiagramPointcloud(p.diagrams[0].get_points()),
}
HALF = {
    "table": pd_table, "cloud": pd_cloud, "sails": pd_sails, "mixed": pd_sails_mixed,
    "half table": lambda: PolarDiagramTable([4.0, 8.0], [45.0, 90.0, 120.0], [[1, 2], [3, 4], [3, 5]]),
    "empty cloud": lambda: PolarDiagramPointcloud(np.empty((0, 3))),
    "empty sails": lambda: PolarDiagramMultiSails([PolarDiagramPointcloud(np.empty((0, 3))), PolarDiagramPointcloud([[8.0, 0.0, 1.0]])]),
    "one point": lambda: PolarDiagramPointcloud([[8.0, 0.0, 1.0]]),
    "symmetric cloud": lambda: PolarDiagramPointcloud([[8.0, 90.0, 5.0], [8.0, 270.0, 5.0]]),
}


@R.scenario([[k, d, first] for k in HALF for d in DERIVE for first in ("old", "new")
             if "table" not in k or d != "twice"])
def derived(ctx, case):
    """Editing a diagram or a diagram derived from it leaves the other unchanged."""
    kind, how, first = case
    old = HALF[kind]()
    keep = plain(old)
    new = DERIVE[how](old)
    check(plain(old) == keep, "%s modified the diagram", how)
    check(new is not old, "%s handed out the diagram itself", how)
    a, b = (old, new) if first == "old" else (new, old)
    vb = plain(b)
    edit(a)
    check(plain(b) == vb, "%s: editing the %s diagram changed the other", how, first)
    va = plain(a)
    edit(b)
    check(plain(a) == va, "%s: editing the other diagram changed the %s one", how, first)
    ctx.step(2)
    return keep


# ---- large inputs ---------------------------------------------------------------
def rows(n, turns=True):
    """n measurements in no order, angles beyond a turn, some of them twice"""
    i = np.arange(n)
    wa = (i * 37.25) % 360 + np.where(i % 3 == 0, -360, 360) * (1 if turns else 0)
    out = np.column_stack((2.0 + (i * 7 % 29) / 2, wa, 1.0 + (i * 13 % 31) / 8))
    out[-1] = out[0]
    return out


def few(n):
    return rows(n, False)


def wts(n):
    return ((np.arange(n) * 31) % 97) / 97


def grid(n):
    ws, wa = np.linspace(20, 2, n // 40 + 2), (np.linspace(0, 359, 60) * 7) % 360
    return dict(ws=ws, wa=wa, b=np.outer(1 + np.sin(np.deg2rad(wa / 2)), ws) / 3)


def fit_(reg, p):
    reg.fit(p)
    return reg


def fitted_(p):
    m = WindAngleCorrectingInfluenceModel()
    m.fit({"TWS": p[:40, 0], "TWA": p[:40, 1]})
    return m


MANY = {
    "cloud": lambda n: (dict(p=rows(n)), lambda p: PolarDiagramPointcloud(p)),
    "cloud, points added": lambda n: (dict(p=few(n), q=rows(n)), lambda p, q: PolarDiagramPointcloud(p).add_points(q)),
    "cloud, points changed": lambda n: (dict(p=few(n), q=few(20)), lambda p, q: PolarDiagramPointcloud(p).add_points(q)),
    "cloud, slices": lambda n: (dict(p=few(n), w=np.linspace(15, 2, 130)), lambda p, w: PolarDiagramPointcloud(p).get_slices(w)),
    "table": lambda n: (grid(n), lambda ws, wa, b: PolarDiagramTable(ws, wa, b)),
    "table, slices": lambda n: (dict(grid(n), w=np.linspace(15, 2, 130)), lambda ws, wa, b, w: PolarDiagramTable(ws, wa, b).get_slices(np.sort(ws)[:30])),
    "table, change": lambda n: (dict(grid(n), new=np.arange(60.0)), lambda ws, wa, b, new: PolarDiagramTable(ws, wa, b).change_entries(new, ws=ws[1])),
    "curve at winds": lambda n: (dict(p=rows(n)), lambda p: PolarDiagramCurve(mf.ws_times_wa, 0.02)(p[:, 0], p[:, 1])),
    "true wind": lambda n: (dict(p=rows(n)), lambda p: comp.convert_apparent_wind_to_true(p)),
    "apparent wind": lambda n: (dict(p=rows(n)), lambda p: comp.convert_true_wind_to_apparent(p)),
    "weighted points": lambda n: (dict(p=rows(n), w=wts(n), m=np.arange(n) % 3 > 0), lambda p, w, m: WeightedPoints(p, w)[m]),
    "weighted points, extended": lambda n: (dict(p=rows(n), w=wts(n), q=rows(n)), lambda p, w, q: WeightedPoints(p, w).extend(WeightedPoints(q, 1))),
    "ball": lambda n: (dict(p=few(n)[:, :2] / [20, 360]), lambda p: pc.Ball(radius=0.3).is_contained_in(p)),
    "scaling ball": lambda n: (dict(p=few(n)[:, :2] / [20, 360]), lambda p: pc.ScalingBall(min_pts=7).is_contained_in(p)),
    "cuboid": lambda n: (dict(p=few(n)[:, :2] / [20, 360]), lambda p: pc.Cuboid(dimensions=(0.3, 0.2)).is_contained_in(p)),
    "polytope": lambda n: (dict(p=few(n)[:, :2] / [20, 360]), lambda p: pc.Polytope().is_contained_in(p)),
    "ellipsoid": lambda n: (dict(p=few(n)[:, :2] / [20, 360]), lambda p: pc.Ellipsoid(radius=0.3).is_contained_in(p)),
    "idw": lambda n: (dict(p=few(n), w=wts(n), g=np.array([8.3, 100.1])), lambda p, w, g: pc.IDWInterpolator().interpolate(WeightedPoints(p, w), g)),
    "mean": lambda n: (dict(p=few(n), w=wts(n), g=np.array([8.3, 100.1])), lambda p, w, g: pc.ArithmeticMeanInterpolator().interpolate(WeightedPoints(p, w), g)),
    "improved idw": lambda n: (dict(p=few(n), w=wts(n), g=np.array([8.3, 100.1])), lambda p, w, g: pc.ImprovedIDWInterpolator().interpolate(WeightedPoints(p, w), g)),
    "quantile": lambda n: (dict(w=wts(n)), lambda w: pc.QuantileFilter(40).filter(w)),
    "bounds": lambda n: (dict(w=wts(n)), lambda w: pc.BoundFilter(0.3, 0.8).filter(w)),
    "fuzzy": lambda n: (dict(p=rows(n)), lambda p: pc.FuzzyWeigher((pc.FuzzyVariable()[1] < 90) & (pc.FuzzyVariable()[0] > 5)).weigh(p)),
    "zeros of many": lambda n: (dict(p=rows(n), w=wts(n)), lambda p, w: pc.ZeroInjector(5).inject(WeightedPoints(p, w))),
    "many zeros": lambda n: (dict(p=rows(25), w=wts(25)), lambda p, w: pc.ZeroInjector(n).inject(WeightedPoints(p, w))),
    "regressor": lambda n: (dict(p=rows(n)), lambda p: fit_(pc.LeastSquareRegressor(mf.ws_times_wa, init_vals=[0.02]), p)),
    "odr": lambda n: (dict(p=rows(n)), lambda p: fit_(pc.ODRegressor(mf.ws_times_wa, init_values=[0.02]), p)),
    "array handler": lambda n: (dict(p=rows(n)), lambda p: ArrayHandler().handle((p, ["TWS", "TWA", "BSP"]))),
    "influence": lambda n: (dict(p=rows(n)), lambda p: fitted_(p).remove_influence({"TWS": p[:, 0], "TWA": p[:, 1], "BSP": p[:, 2]})),
    "quality": lambda n: (dict(p=few(n)), lambda p: MinimalQualityAssurance().check(PolarDiagramCurve(mf.ws_times_wa, 0.02), p)),
    "projection": lambda n: (dict(p=np.column_stack((wts(n) * 80, wts(n)[::-1] * 170))), lambda p: (SphericalGlobe().project(p), FlatMercatorProjection().project(p))),
}
for _n in ("FibonacciSampler", "ArchimedeanSampler", "UniformRandomSampler"):
    MANY[_n] = lambda n, _n=_n: (dict(p=few(n)[:, :2]), lambda p: getattr(pc, _n)(50).sample(p))
for _n, _mk in (("mean weigher", WEIGHERS["Mean"]), ("member weigher", WEIGHERS["Member"])):
    MANY[_n] = lambda n, _mk=_mk: (dict(p=rows(min(n, 600))), lambda p: _mk().weigh(p))


@R.scenario(lambda t: [[k, n, o] for k in MANY for n in ((300, 1500, 5003) if t != "thorough" else (300, 1500, 5003, 20011)) for o in ("C", "F")])
def many(ctx, case):
    """Large arrays stay what they are, bit by bit."""
    name, n, order = case
    inp, call = MANY[name](n)
    inp = {k: np.array(v, order=order) for k, v in inp.items()}
    before = {k: v.copy() for k, v in inp.items()}
    for turn in ("first", "second"):
        call(**inp)
        for k, v in inp.items():
            check(v.shape == before[k].shape and v.dtype == before[k].dtype and v.tobytes() == before[k].tobytes(), "%s modified its input %r of %s entries in the %s call", name, k, v.shape, turn)
        ctx.step()
    return name
