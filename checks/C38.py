"""C38: invalid requests are refused and leave no trace."""
import itertools
import os
import warnings
from datetime import datetime, timedelta

import numpy as np

import hrosailing.core.modelfunctions as mf
import hrosailing.processing as pc
from hrosailing.models.influencemodel import WindAngleCorrectingInfluenceModel
from hrosailing.core.computing import convert_apparent_wind_to_true, convert_true_wind_to_apparent
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.cruising import convex_direction, cruise
from hrosailing.models.weather_model import GriddedWeatherModel, MultiWeatherModel
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.extensions import TableExtension
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramMultiSails, PolarDiagramPointcloud, PolarDiagramTable, from_csv
from hrosailing.processing import neighbourhood as nb
from hrosailing.processing.datahandler import ArrayHandler
from hrosailing.processing.imputator import RemoveOnlyImputator
from hrosailing.processing.interpolator import BilinearGridInterpolator, ShepardInterpolator
from vf.core import Registry, check, digest, fail

ID = "C38"
ASSUMPTIONS = [
    "a request is refused by raising any exception; which one is left to the other properties",
    "only conditions the documentation or the code names as invalid are asked for, and limiting values next to them",
    "a refused update of several columns of a measurement table counts as one request",
]
R = Registry()
NAN, INF = float("nan"), float("inf")


def refused(fn, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = fn()
        except Exception:
            return
    fail(f"{what}: accepted, giving {str(got)[:200]}")


def accepted(fn, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn()
        except Exception as e:
            fail(f"{what}: refused by {type(e).__name__}: {e}")


# ------------------------------------------------------------ constructors
def model(ws, wa, a):
    return a * ws + 0 * wa


def needs_two(ws, wa, *p):
    return p[0] * ws + p[1] * wa


EPS = 1e-9
TABLE = [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]
# name -> (call of one argument, invalid arguments, valid arguments)
CALLS = {
    "ball radius": (lambda r: nb.Ball(radius=r), [0, -1, -EPS, 0.0, -INF], [EPS, 1, 100]),
    "scaling ball points": (lambda n: nb.ScalingBall(n), [0, -1, -5], [1, 2, 1000]),
    "ellipsoid radius": (lambda r: nb.Ellipsoid(radius=r), [0, -EPS, -3], [EPS, 2]),
    "ellipsoid matrix": (lambda m: nb.Ellipsoid(m), [np.eye(3), np.ones((2, 2)), [[1, 2], [2, 4]], np.zeros((2, 2)), [1, 0], [[1, NAN], [0, 1]], [[INF, 0], [0, 1]], np.ones((2, 3))],
                         [np.eye(2), [[0, 1], [-1, 0]], [[1, 5], [0, EPS]], -np.eye(2)]),
    "polytope": (lambda a: nb.Polytope(*a), [(np.eye(3), np.ones(3)), (np.eye(2), np.ones(3)), (np.eye(2), np.ones((2, 1))), (np.ones(2), np.ones(2)), (np.array([[1, NAN], [0, 1]]), np.ones(2)), (np.eye(2), np.array([1, INF]))],
                 [(np.eye(2), np.ones(2)), (np.array([[1, 1]]), np.zeros(1)), (np.array([[1.0, 0], [0, 1], [-1, -1]]), np.array([0, 0, -5.0]))]),
    "idw exponent": (lambda p: pc.IDWInterpolator(p=p), [-1, -3, 1.5, 2.0, "2"], [0, 1, 2, 7]),
    "mean radius": (lambda s: pc.ArithmeticMeanInterpolator(s=s), [0, -1, -EPS], [EPS, 1, 3]),
    "shepard tolerance": (lambda t: ShepardInterpolator(nb.Ball(), tol=t), [0, -1, -EPS], [EPS, 1]),
    "shepard slope": (lambda s: ShepardInterpolator(nb.Ball(), slope=s), [0, -1, -EPS], [EPS, 1]),
    "quantile": (lambda p: pc.QuantileFilter(p), [-1, 101, -EPS, 100.0001, 1e9], [0, 100, 50.5, EPS]),
    "bounds": (lambda b: pc.BoundFilter(lower_bound=b[0], upper_bound=b[1]), [(1, 0), (0.5, 0.5 - EPS), (2, 1), (0, -1)], [(0, 1), (0.5, 0.5), (-1, 0), (0, 0)]),
    "mean weigher radius": (lambda r: pc.CylindricMeanWeigher(radius=r), [0, -1, -EPS], [EPS, 2]),
    "member weigher radius": (lambda r: pc.CylindricMemberWeigher(radius=r), [0, -1, -EPS], [EPS, 2]),
    "member weigher length": (lambda x: pc.CylindricMemberWeigher(length=x), [-1, -EPS], [0, EPS, 2]),
    "uniform count": (lambda n: pc.UniformRandomSampler(n), [0, -1, -10], [1, 2, 500]),
    "fibonacci count": (lambda n: pc.FibonacciSampler(n), [0, -1, -10], [1, 2, 500]),
    "archimedean count": (lambda n: pc.ArchimedeanSampler(n), [0, -1, -10], [1, 2, 500]),
    "table speeds": (lambda ws: PolarDiagramTable(ws, [30, 60, 90], None), [0, -1, 41, 40.5, [], [-1, 2], [1, NAN], [1, INF], [[1, 2]], [-EPS], ["a", "b"], [None]], [40, 0.5, [0], [0, 1], (3,), np.array([5.0, 2.0]), None]),
    "table angles": (lambda wa: PolarDiagramTable([4, 8], wa, None), [0, -1, 361, 360.5, [], [NAN], [1, INF], [[1, 2]], [None]], [360, 0.5, [0], [-10, 400], (3,), np.array([5.0, 2.0]), None]),
    "table entries": (lambda b: PolarDiagramTable([4, 8], [30, 60, 90], b), [[[1, 2]], [1, 2, 3], [[1, 2, 3], [4, 5, 6]], [[1, 2], [3, 4], [5, NAN]], [[1, 2], [3, 4], [5, -INF]], [], [TABLE], "x", [["a", "b"]] * 3, 5],
                      [TABLE, np.array(TABLE), [[0, 0]] * 3]),
    "cloud": (PolarDiagramPointcloud, [np.array([[1, 2, NAN]]), np.array([[INF, 2, 3]]), np.array([[1, -INF, 3.0]])], [np.array([[0.0, 0, 0]]), np.array([[-1.0, 2, 3], [1, 2, 3]]), np.array([[4, 400, 5]])]),
    "apparent cloud": (lambda p: PolarDiagramPointcloud(p, apparent_wind=True), [np.array([[-1.0, 2, 3]]), np.array([[1, 2, NAN]]), np.array([[1.0, 2]])], [np.array([[5.0, 60, 3], [7, 300, 4]])]),
    "curve function": (lambda f: PolarDiagramCurve(f, 1.0), [5, "f", None, needs_two, lambda ws: ws, lambda ws, wa: ws, lambda ws, wa, a, b: ws], [model, mf.ws_times_wa, lambda ws, wa, a: ws]),
    "to true": (convert_apparent_wind_to_true, [[[1, 2]], [1, 2, 3], [[1, 2, 3, 4]], [[[1, 2, 3]]], [[-1, 2, 3]], [[1, 2, 3], [-EPS, 2, 3]], [[1, NAN, 3]], [[1, 2, INF]], [[1, 2, None]], []], [[[1, 2, 3]], [[0, 0, 1]], np.array([[5, -50, 2], [5, 500, -1]])]),
    "to apparent": (convert_true_wind_to_apparent, [[[1, 2]], [1, 2, 3], [[1, 2, 3, 4]], [[[1, 2, 3]]], [[-1, 2, 3]], [[1, 2, 3], [-EPS, 2, 3]], [[1, NAN, 3]], [[1, 2, INF]], [[1, 2, None]], []], [[[1, 2, 3]], [[0, 0, 1]], np.array([[5, -50, 2], [5, 500, -1]])]),
    "read format": (lambda f: from_csv(csv_file(), fmt=f), ["", "HRO", "csv", "orc ", "xlsx", None], ["hro"]),
    "read path": (lambda f: from_csv(os.path.join(os.environ["VF_SCRATCH"], "c38", f)), ["missing.csv", os.path.join("missing", "x.csv"), "."], []),
    "array keys": (lambda k: ArrayHandler().handle((np.ones((3, 2)), k)), [["a"], [], ["a", "b", "c"]], [["a", "b"]]),
    "cruise format": (lambda f: cruise(PolarDiagramTable([5, 10], [45, 90, 135, 180, 225, 270, 315], [[3, 5]] * 7), (0, 50), (1, 51), (8, 20, 30)[: 3 if f == "ws_wa_hdt" else 2], wind_fmt=f), ["ws_wa", "", "uv", None, "WS_WAN", "ws_wan "], ["ws_wan", "uv_grd", "ws_wa_hdt"]),
    "direction": (lambda d: convex_direction(PolarDiagramTable([5, 10], [45, 90, 135], [[3, 5]] * 3), 8, d), [0, 20, 200, 350], [45, 60, 90, 135]),
    "data dict": (Data.from_dict, [5, "abc", {"a": [1, "x"]}, {"a": [1, 2.5]}, {"a": [True, 1]}, [("a", [1])]], [{}, {"a": []}, {"a": [None]}, {"a": [1, None, 2]}, {"a": 5}]),
    "interpolating without points": (lambda i: i.interpolate(WeightedPoints(np.empty((0, 3)), np.empty(0)), np.array([1.0, 2.0])), [pc.IDWInterpolator(), BilinearGridInterpolator()], []),
}


def csv_file():
    d = os.path.join(os.environ["VF_SCRATCH"], "c38")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "t.csv")
    if not os.path.exists(path):
        own = f"{path}.{os.getpid()}"
        PolarDiagramTable([4, 8], [30, 60, 90], TABLE).to_csv(own)
        os.replace(own, path)
    return path


def frozen(x):
    return repr(plain(x)) if not hasattr(x, "interpolate") and not callable(x) else None


@R.scenario(lambda tier: [[name, *k] for name, (_, bad, good) in CALLS.items() for k in itertools.product(range(len(bad) + len(good)), repeat=1 if tier == "quick" else 2)])
def single_calls(ctx, case):
    """Every invalid argument is refused, every limiting one accepted, whatever was asked before."""
    name, *ks = case
    fn, bad, good = CALLS[name]
    for k in ks:
        arg = (bad + good)[k]
        before = frozen(arg)
        what = f"{name} = {arg!r}"
        if k < len(bad):
            refused(lambda: fn(arg), what)
        else:
            accepted(lambda: fn(arg), what)
        check(frozen(arg) == before, f"{what}: the argument was changed")
        ctx.step()
    return case


# ---------------------------------------------------------------- histories
T0 = datetime(2023, 5, 1)


def plain(x):
    if isinstance(x, Data):
        return ["Data", x.n_rows, [[k, x.type(k).__name__ if x.type(k) else None, list(x[k])] for k in x.keys()]]
    if isinstance(x, WeightedPoints):
        return ["wp", plain(x.data), plain(x.weights)]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), x.shape, x.tolist()]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def see_table(p):
    return [plain(v) for v in (p.wind_speeds, p.wind_angles, p.boat_speeds, p.default_points)] + [p(w, a) for w in p.wind_speeds for a in p.wind_angles]


def see_cloud(p):
    return [plain(v) for v in (p.points, p.wind_speeds, p.wind_angles, p.boat_speeds)] + ([p(w, a) for w, a, _ in p.points] if len(p.points) else [])


def see_curve(p):
    return [plain(p.parameters), p.radians, plain(p.get_points(([4.0, 9.0], [30.0, 200.0])))]


def see_multi(p):
    return [plain(p.sails), [see_table(d) for d in p.diagrams], p(6, 60)]


def see_data(d):
    return [plain(d), list(map(plain, d)) if d.keys() else [], str(d)]


def table():
    return PolarDiagramTable([4, 6, 8], [30, 60, 90, 0], [[1.0, 2, 3], [4, 5, 6], [7, 8, 9], [0.5, 0.25, 0]])


def cloud():
    return PolarDiagramPointcloud(np.array([[4.0, 30, 1], [6, 60, 5], [6, 90, 8], [8, 300, 2]]))


def weather():
    return GriddedWeatherModel(np.arange(24.0).reshape(2, 3, 2, 2), [T0, T0 + timedelta(hours=1)], [10.0, 11, 13], [20.0, 22], ["TWS", "TWD"])


SUBJECTS = {
    "table": (table, see_table, {
        "angle off": lambda p: p.change_entries([1.0], ws=4, wa=31), "speed off": lambda p: p.change_entries([1.0], ws=4.0000001, wa=30), "some off": lambda p: p.change_entries([[1.0, 2], [3, 4]], ws=[4, 5], wa=[30, 60]),
        "shape": lambda p: p.change_entries([1.0, 2], ws=4, wa=30), "shape rows": lambda p: p.change_entries([1.0, 2], ws=4), "shape all": lambda p: p.change_entries(np.ones((3, 4))), "transposed": lambda p: p.change_entries(np.ones((2, 3)), ws=[4, 6], wa=[30, 60, 90]),
        "nan": lambda p: p.change_entries([NAN], ws=4, wa=30), "inf": lambda p: p.change_entries([[1.0, 2, 3], [4, 5, 6], [7, 8, INF], [0, 0, 0]]), "negative speed": lambda p: p.change_entries([1.0], ws=-4, wa=30), "no speeds": lambda p: p.change_entries([], ws=[], wa=30),
        "none": lambda p: p.change_entries([None], ws=4, wa=30), "lookup": lambda p: p[5, 30], "lookup angle": lambda p: p[4, 31], "lookup negative": lambda p: p[-4, 30], "slice names": lambda p: p.get_slices("4"), "slice mixed": lambda p: p.get_slices([4, "x"]),
        "steps": lambda p: p.get_slices([4, 6], n_steps=0), "steps negative": lambda p: p.get_slices([4, 6], n_steps=-2), "points": lambda p: p.get_points([[4, 30]]), "points shape": lambda p: p.get_points(np.ones((3, 3))), "points tuple": lambda p: p.get_points((4, 30, 5)),
        "format": lambda p: p.to_csv(os.path.join(os.environ["VF_SCRATCH"], "c38.x"), fmt="xlsx"), "bilinear outside": lambda p: p(20, 45, interpolator=BilinearGridInterpolator(), neighbourhood=nb.Ball(radius=100)), "no slice": lambda p: p.get_slices(None, n_steps=0),
    }, {
        "cell": lambda p: p.change_entries([11.0], ws=6, wa=60), "zero": lambda p: p.change_entries([0.0], ws=4, wa=0), "column": lambda p: p.change_entries([1.5, 2.5, 3.5, 4.5], ws=8), "row": lambda p: p.change_entries([7.5, 8.5, 9.5], wa=[450]), "all": lambda p: p.change_entries(np.arange(12.0).reshape(4, 3)),
        "slices": lambda p: p.get_slices([4, 8], n_steps=1), "symmetric": lambda p: p.symmetrize(),
    }),
    "cloud": (cloud, see_cloud, {
        "zero wind": lambda p: p.add_points(np.array([[0.0, 20, 1]])), "negative": lambda p: p.add_points(np.array([[5.0, 20, 1], [-1, 20, 1]])), "nan": lambda p: p.add_points(np.array([[5.0, NAN, 1]])), "inf": lambda p: p.add_points(np.array([[5.0, 1, 1], [5, 1, INF]])),
        "width": lambda p: p.add_points(np.array([[5.0, 20]])), "wide": lambda p: p.add_points(np.array([[5.0, 20, 1, 2]])), "apparent negative": lambda p: p.add_points(np.array([[-5.0, 20, 1]]), apparent_wind=True), "flat": lambda p: p.add_points(np.array([5.0, 20, 1])),
        "call": lambda p: p(-1, 20), "slice names": lambda p: p.get_slices("4"), "steps": lambda p: p.get_slices([4, 6], n_steps=0), "points": lambda p: p.get_points([[4, 30]]),
    }, {
        "one": lambda p: p.add_points(np.array([[5.0, 20, 1]])), "wrap": lambda p: p.add_points(np.array([[1e-9, 380, 1], [4, -30, 2]])), "apparent": lambda p: p.add_points(np.array([[5.0, 50, 1]]), apparent_wind=True), "list": lambda p: p.add_points([[7, 20, 1]]),
        "slices": lambda p: p.get_slices([4, 6]), "symmetric": lambda p: p.symmetrize(),
    }),
    "curve": (lambda: PolarDiagramCurve(mf.ws_times_wa, 0.01), see_curve, {
        "call": lambda p: p(-1, 20), "calls": lambda p: p(np.array([1.0, -1]), np.array([20.0, 20])), "slice names": lambda p: p.get_slices("4"), "steps": lambda p: p.get_slices([4, 6], n_steps=0), "points": lambda p: p.get_points([[4, 30]]), "points shape": lambda p: p.get_points(np.ones((3, 3))), "points negative": lambda p: p.get_points(([-1.0], [20.0])),
        "path": lambda p: p.to_csv(os.path.join(os.environ["VF_SCRATCH"], "missing", "x.csv")),
    }, {"zero": lambda p: p(0, 400), "slices": lambda p: p.get_slices([0, 6], n_steps=1), "symmetric": lambda p: p.symmetrize()}),
    "multi": (lambda: PolarDiagramMultiSails([table(), PolarDiagramTable([4, 6, 8], [45, 60], [[9.0, 9, 9], [1, 1, 1]])], ["jib", "spi"]), see_multi, {
        "name": lambda p: p["gennaker"], "case": lambda p: p["Jib"], "number": lambda p: p[0], "slice names": lambda p: p.get_slices("4"), "steps": lambda p: p.get_slices([4, 6], n_steps=-1), "points": lambda p: p.get_points([[4, 30]]),
        "path": lambda p: p.to_csv(os.path.join(os.environ["VF_SCRATCH"], "missing", "x.csv")), "entries": lambda p: p["spi"].change_entries([1.0], ws=4, wa=31),
    }, {"sail": lambda p: p["spi"], "change": lambda p: p["jib"].change_entries([12.0], ws=6, wa=60), "symmetric": lambda p: p.symmetrize()}),
    "data": (lambda: Data.from_dict({"a": [1.0, None, 3.0], "s": ["x", "y", None], "n": [1, 2, 3], "e": [None, None, None]}), see_data, {
        "second column": lambda d: d.update({"a": [4.0], "s": [5.0]}), "first column": lambda d: d.update({"s": [5.0], "a": [4.0]}), "mixed": lambda d: d.update({"a": [4.0, "x"]}), "mixed new": lambda d: d.update({"z": [1, "x"], "a": [1.0]}), "new then mixed": lambda d: d.update({"z": [1], "a": [1]}),
        "value": lambda d: d.update({"n": 7, "a": "x"}), "compressed": lambda d: d.update({"s": "z", "a": 4}, compress=True), "compressed list": lambda d: d.update({"s": ["z"], "a": [4]}, True), "other data": lambda d: d.update(Data.from_dict({"q": [1.0], "n": [1.5]})), "no table": lambda d: d.update([1, 2]), "text": lambda d: d.update("a"),
        "extend": lambda d: d.extend("a", ["x"]), "extend mixed": lambda d: d.extend("a", [4.0, 4]), "extend new": lambda d: d.extend("z", [4.0, 4]), "append": lambda d: d.append("n", 4.0), "append true": lambda d: d.append("n", True), "rename": lambda d: d.rename("a", "s"), "rename missing": lambda d: d.rename("q", "r"),
        "delete missing": lambda d: d.delete("q"), "delete some": lambda d: d.delete(["n", "q"]), "delete some first": lambda d: d.delete(["q", "n"]), "rows": lambda d: list(d.rows(return_type=set)), "item": lambda d: d["q"], "row": lambda d: d[99], "float": lambda d: d[1.5], "floats": lambda d: d[[1.5, 2.5]], "type": lambda d: d.type("q"), "concatenate": lambda d: Data.concatenate([d, Data.from_dict({"a": ["x"]})]),
    }, {
        "fine": lambda d: d.update({"a": [4.0], "s": ["z"]}), "new": lambda d: d.update({"z": [True]}), "none": lambda d: d.update({"e": [None, 5]}), "compress": lambda d: d.update({"a": 4.0}, compress=True), "rename": lambda d: d.rename("e", "t") if "e" in d else None,
        "drop": lambda d: d.delete([2]), "strip": lambda d: d.strip(),
    }),
    "points": (lambda: WeightedPoints(Data.from_dict({"a": [1.0, 2.0], "s": ["x", "y"]}), np.array([0.5, 1])), lambda w: plain(w), {
        "mixed": lambda w: w.extend(WeightedPoints(Data.from_dict({"a": ["x"], "s": ["z"]}), np.array([1.0]))), "mixed last": lambda w: w.extend(WeightedPoints(Data.from_dict({"a": [1.0], "s": [1]}), np.array([1.0]))), "array": lambda w: w.extend(np.ones(3)), "nothing": lambda w: w.extend(None),
        "column": lambda w: w.data["q"], "floats": lambda w: w[[1.5, 2.5]],
    }, {"fine": lambda w: w.extend(WeightedPoints(Data.from_dict({"a": [3.0], "s": ["z"]}), np.array([1.0]))), "other column": lambda w: w.extend(WeightedPoints(Data.from_dict({"b": [3.0]}), np.array([1.0]))), "masked": lambda w: w[[True] * (len(w.weights) - 1) + [False]]}),
    "array points": (lambda: WeightedPoints(np.arange(6.0).reshape(2, 3), np.array([0.5, 1])), lambda w: plain(w), {
        "width": lambda w: w.extend(WeightedPoints(np.ones((2, 2)), np.ones(2))), "mask": lambda w: w[[True] * (len(w.weights) + 1)],
    }, {"fine": lambda w: w.extend(WeightedPoints(np.ones((2, 3)), np.ones(2))), "masked": lambda w: w[[True] * (len(w.weights) - 1) + [False]]}),
    "angle influence": (lambda: WindAngleCorrectingInfluenceModel(wa_shift=5), lambda i: plain(i.remove_influence(Data.from_dict({"TWS": [5.0, 6.0], "TWA": [3.0, 350.0], "BSP": [1.0, 2.0]}))), {
        "no angle": lambda i: i.fit(Data.from_dict({"TWS": [1.0]})), "no speed": lambda i: i.fit(Data.from_dict({"TWA": [1.0]})), "nothing": lambda i: i.fit(Data()), "text": lambda i: i.fit(Data.from_dict({"TWA": ["a", "b"], "TWS": [1.0, 2.0]})),
        "gaps": lambda i: i.fit(Data.from_dict({"TWA": [10.0, None], "TWS": [1.0, 2.0]})), "incomplete": lambda i: i.remove_influence(Data.from_dict({"TWS": [1.0], "BSP": [2.0]})), "no boat speed": lambda i: i.remove_influence(Data.from_dict({"TWS": [1.0], "TWA": [2.0]})),
    }, {"fit": lambda i: i.fit(Data.from_dict({"TWA": [100.0, 200.0], "TWS": [4.0, 4.0]}))}),
    "weather": (weather, lambda m: [plain(m.grid), plain(m.data), m.attrs, plain(m.get_weather((T0 + timedelta(minutes=20), 10.5, 21)))], {
        "early": lambda m: m.get_weather((T0 - timedelta(microseconds=1), 10, 20)), "late": lambda m: m.get_weather((T0 + timedelta(hours=1, microseconds=1), 10, 20)), "south": lambda m: m.get_weather((T0, 9.999999, 20)), "north": lambda m: m.get_weather((T0, 13.000001, 20)),
        "west": lambda m: m.get_weather((T0, 10, 19.999999)), "east": lambda m: m.get_weather((T0, 10, 22.000001)), "all": lambda m: m.get_weather((T0 - timedelta(days=1), 0, 0)), "number": lambda m: m.get_weather((5, 10, 20)),
    }, {"corner": lambda m: m.get_weather((T0, 10, 20)), "other corner": lambda m: m.get_weather((T0 + timedelta(hours=1), 13, 22)), "inside": lambda m: m.get_weather((T0, 12, 21))}),
    "several weathers": (lambda: MultiWeatherModel(weather(), GriddedWeatherModel(np.ones((2, 2, 2, 1)), [T0, T0 + timedelta(hours=2)], [12.0, 14], [20.0, 22], ["rain"]), exception_sensitive=True),
                         lambda m: [plain(m.get_weather((T0 + timedelta(minutes=20), 12.5, 21)))], {
        "none": lambda m: m.get_weather((T0, 50, 20)), "first only": lambda m: m.get_weather((T0, 10.5, 20)), "second only": lambda m: m.get_weather((T0 + timedelta(hours=1.5), 12, 20)),
    }, {"both": lambda m: m.get_weather((T0, 13, 20))}),
    "zero injector": (lambda: pc.ZeroInjector(4), lambda i: [plain(i.inject(WeightedPoints(np.array([[3.0, 50, 1], [9, 60, 2]]), np.ones(2)))), plain(i.get_latest_statistics())], {
        "list": lambda i: i.inject(WeightedPoints([[1, 2, 3]], [1])), "table": lambda i: i.inject(WeightedPoints(Data.from_dict({"TWS": [1.0]}), [1])), "width": lambda i: i.inject(WeightedPoints(np.ones((3, 2)), np.ones(3))), "flat": lambda i: i.inject(WeightedPoints(np.ones(3), np.ones(3))),
        "nothing": lambda i: i.inject(WeightedPoints(np.empty((0, 3)), np.empty(0))),
    }, {"one": lambda i: i.inject(WeightedPoints(np.array([[3.0, 50, 1]]), np.ones(1)))}),
    "odr": (lambda: fitted(pc.ODRegressor(model, [1.0])), lambda r: plain(r.optimal_params), {
        "nothing": lambda r: r.fit(np.empty((0, 3))), "width": lambda r: r.fit(np.ones((4, 2))), "wide": lambda r: r.fit(np.ones((4, 4))), "flat": lambda r: r.fit(np.ones(3)),
    }, {"list": lambda r: r.fit([[1.0, 2, 3], [2.0, 1, 6]])}),
    "least squares": (lambda: fitted(pc.LeastSquareRegressor(model, init_vals=[1.0])), lambda r: plain(r.optimal_params), {
        "nothing": lambda r: r.fit(np.empty((0, 3))), "width": lambda r: r.fit(np.ones((4, 2))), "flat": lambda r: r.fit(np.ones(3)), "nan": lambda r: r.fit(np.array([[1.0, 2, NAN], [2, 3, 4]])),
    }, {"list": lambda r: r.fit([[1.0, 2, 3], [2.0, 1, 6]])}),
    "smoother": (pc.AffineSmoother, lambda s: plain(s.smooth(series([0, 1, 2, 3, 4]))), {
        "backwards": lambda s: s.smooth(series([0, 2, 1, 3, 4])), "last backwards": lambda s: s.smooth(series([0, 1, 2, 4, 3])), "first backwards": lambda s: s.smooth(series([1, 0, 2, 3, 4])),
    }, {"equal times": lambda s: s.smooth(series([0, 1, 1, 3, 4])), "other": lambda s: s.smooth(series([5, 7, 9, 30, 31]))}),
    "member weigher": (lambda: pc.CylindricMemberWeigher(radius=2, length=2), lambda w: plain(w.weigh(np.array([[4.0, 30, 1], [4, 31, 2], [9, 60, 5]]))), {
        "flat": lambda w: w.weigh(np.ones(3)), "text": lambda w: w.weigh("abc"),
    }, {"table": lambda w: w.weigh(Data.from_dict({"TWS": [1.0, 2.0], "TWA": [3.0, 4.0], "BSP": [1.0, 2.0]}))}),
    "fuzzy weigher": (lambda: pc.FuzzyWeigher(pc.FuzzyVariable()["BSP"] > 3), lambda w: plain(w.weigh(Data.from_dict({"BSP": [1.0, 3.0, 5.0]}))), {
        "list": lambda w: w.weigh([[1, 2]]), "text": lambda w: w.weigh("abc"), "missing": lambda w: w.weigh(Data.from_dict({"TWS": [1.0]})),
    }, {"other": lambda w: w.weigh(Data.from_dict({"BSP": [2.0]}))}),
    "pipeline": (lambda: PolarPipeline(data_handler=ArrayHandler(), imputator=RemoveOnlyImputator(), extension=TableExtension(([4, 8], [30, 60, 90]), nb.Ball(radius=20), pc.IDWInterpolator())), lambda p: plain([see_table(p(frames(12)).polardiagram)]), {
        "nothing left": lambda p: p(frames(0)), "keys": lambda p: p([(np.ones((4, 2)), ["TWS", "TWA", "BSP"])]), "no frames": lambda p: p([(np.ones((4, 4)), ["a", "b", "c", "d"])]), "test keys": lambda p: p(frames(12), [(np.ones((4, 2)), ["TWS"])]),
    }, {"other": lambda p: p(frames(20), frames(7)), "no filters": lambda p: p(frames(9), pre_expander_filtering=False, post_filtering=False)}),
}


def fitted(r):
    r.fit(np.array([[1.0, 20, 2], [2, 30, 4], [3, 40, 6]]))
    return r


def series(hours):
    return Data.from_dict({"datetime": [T0 + timedelta(hours=h) for h in hours], "BSP": [1.0, 2.0, 2.0, 2.0, 5.0]})


def frames(n):
    i = np.arange(n)
    return [(np.column_stack((4 + i % 5, 30 + 7.0 * i % 90, 2 + i % 3 / 2.0)), ["TWS", "TWA", "BSP"])]


@R.scenario(lambda tier: [[name, list(seq)] for name, (_, _, bad, good) in SUBJECTS.items()
                          for n in range(1, (5 if len(bad) + len(good) < 8 else 4) if tier == "thorough" else 4 if len(bad) + len(good) < 12 else 3)
                          for seq in itertools.product([*(("bad", b) for b in bad), *(("good", g) for g in good)], repeat=n) if any(k == "bad" for k, _ in seq)])
def refusals(ctx, case):
    """Every history of valid and invalid requests; invalid ones have no effect."""
    name, seq = case
    make, see, bad, good = SUBJECTS[name]
    obj, twin = make(), make()
    for kind, op in seq:
        if kind == "good":
            for x in (obj, twin):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    good[op](x)
        else:
            before = digest(plain(see(obj)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    got = bad[op](obj)
                except Exception:
                    got = refused
            check(got is refused, f"{name} after {seq}: {op} was accepted, giving {str(got)[:100]}")
            after = see(obj)
            check(digest(plain(after)) == before, f"{name} after {seq}: the refused request {op!r} had an effect: {str(after)[:300]}")
        ctx.step()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check(digest(plain(see(obj))) == digest(plain(see(twin))), f"{name} after {seq}: differs from one without the refused requests")
    ctx.state(name, plain(see(obj)))
    return case


@R.scenario(lambda tier: [[kind, fmt, there] for kind in ("table", "cloud", "curve", "multi") for fmt in ("xlsx", "", "HRO", "csv", None, "orc ", 5) for there in (False, True)])
def refused_files(ctx, case):
    """A refused format neither writes a file nor touches the one that is there."""
    kind, fmt, there = case
    obj = SUBJECTS[kind][0]()
    d = os.path.join(os.environ["VF_SCRATCH"], "c38f", digest(case))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "x.csv")
    if there:
        with open(path, "w", encoding="utf-8") as fh:
            fh.write("precious")
    before = frozen(SUBJECTS[kind][1](obj))
    refused(lambda: obj.to_csv(path, fmt=fmt), f"format {fmt!r} of {kind}")
    ctx.step()
    check(os.listdir(d) == (["x.csv"] if there else []), "files %s", os.listdir(d))
    check(not there or open(path, encoding="utf-8").read() == "precious", "the file was changed")
    check(frozen(SUBJECTS[kind][1](obj)) == before, "the diagram was changed")
    if there:
        os.remove(path)
