"""C26: the pipeline applies exactly its enabled steps, in order."""
import copy
import itertools
from datetime import datetime, timedelta

import numpy as np

import hrosailing.processing as pc
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.models import IdentityInfluenceModel, WindAngleCorrectingInfluenceModel
from hrosailing.models.influencemodel import InfluenceModel
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.expander import Expander, LazyExpander
from hrosailing.pipeline.extensions import CurveExtension, PipelineExtension, PointcloudExtension, TableExtension
from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance, QualityAssurance
from hrosailing.polardiagram import PolarDiagramPointcloud
from hrosailing.processing import FillLocalImputator
from hrosailing.processing.datahandler import ArrayHandler, DataHandler
from hrosailing.processing.filter import Filter
from hrosailing.processing.imputator import Imputator, RemoveOnlyImputator
from hrosailing.processing.injector import Injector
from hrosailing.processing.smoother import Smoother
from hrosailing.processing.weigher import Weigher
from vf.core import Registry, check, raises, same

ID = "C26"
ASSUMPTIONS = [
    "components return new objects or change the object handed from step to step (not the user's input)",
    "steps in the documented order: handle, impute, smooth, weigh and filter, expand, weigh and filter, concatenate, fit and remove influence, weigh and filter, inject, build",
    "smoothing precedes the filters (as implemented; the docstring mentions it after pre_filtering)",
]
R = Registry()

# ---- pure step functions on lists of rows ------------------------------------
# a row is [TWS, TWA, BSP]; every step leaves a trace no other step leaves.


def f_handle(raw, k):
    return [[a + 0.0, b, c] for a, b, c in raw] if not k else [[a + 1000.0 * k, b, c] for a, b, c in raw]


def f_impute(rows):
    return [[a * 2, b, c] for a, b, c in rows]


def f_smooth(rows):
    return [[a + 3, b + i % 2, c] for i, (a, b, c) in enumerate(rows)]


def f_weigh(rows, q):
    return [round((7 * a + 3 * b + q) % 11 / 11, 6) for a, b, _ in rows]


def f_filter(weights, q):
    return [w > 0.1 + 0.04 * q for w in weights]


def f_expand(rows):
    return [[a * 1.5, b, c + 0.5] for a, b, c in rows]


def f_fit(rows):
    return round(sum(r[0] for r in rows) % 17, 6)


def f_remove(rows, shift):
    return [[a + shift, b, c] for a, b, c in rows]


def f_inject(rows, weights):
    return [[min(r[0] for r in rows), 0.0, 0.0], [max(r[0] for r in rows), 359.0, round(sum(weights), 6)]], [0.5, 0.25]


def rows_of(d):
    if isinstance(d, Data):
        assert all(len(d[k]) == d.n_rows for k in d.keys())
        return [[float(x) for x in r] for r in d.rows(["TWS", "TWA", "BSP"], return_type=list)]
    return [[float(x) for x in r] for r in np.asarray(d)]


def data_of(rows):
    return Data.from_dict({k: [r[i] for r in rows] for i, k in enumerate(("TWS", "TWA", "BSP"))})


class Log:
    def __init__(self):
        self.calls = []
        self.n = 0


class C_:
    """Mixin: statistics identify the call."""

    def _note(self, log, step, *what):
        log.calls.append((step,) + what)
        self._statistics = {"step": step, "call": copy.deepcopy(what)}


class Handler(C_, DataHandler):
    def __init__(self, log, k=0):
        super().__init__()
        self.log, self.k = log, k

    def handle(self, data):
        self._note(self.log, "handle", self.k, rows_of(data))
        return data_of(f_handle(data, self.k))


class Imp(C_, Imputator):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def impute(self, data):
        self._note(self.log, "impute", rows_of(data))
        return data_of(f_impute(rows_of(data)))


class Smo(C_, Smoother):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def smooth(self, data):
        self._note(self.log, "smooth", rows_of(data))
        return data_of(f_smooth(rows_of(data)))


class Wei(C_, Weigher):
    def __init__(self, log, q):
        super().__init__()
        self.log, self.q = log, q

    def weigh(self, points):
        check(isinstance(points, np.ndarray) == (self.q == 3), f"weigher {self.q} is handed {type(points)}")
        self._note(self.log, f"weigh{self.q}", rows_of(points))
        return np.array(f_weigh(rows_of(points), self.q))


class Fil(C_, Filter):
    def __init__(self, log, q, drop=()):
        super().__init__()
        self.log, self.q, self.drop = log, q, drop

    def filter(self, weights):
        w = [round(float(x), 6) for x in weights]
        self._note(self.log, f"filter{self.q}", w)
        return np.array([False] * len(w) if len(w) in self.drop else f_filter(w, self.q), dtype=bool)


class Exp(C_, Expander):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def expand(self, data):
        self._note(self.log, "expand", rows_of(data))
        return data_of(f_expand(rows_of(data)))


class Inf(C_, InfluenceModel):
    def __init__(self, log):
        super().__init__()
        self.log, self.shift = log, 0.0

    def fit(self, training_data):
        self._note(self.log, "fit", rows_of(training_data))
        self._statistics = {"fitted": rows_of(training_data)}
        self.shift = f_fit(rows_of(training_data))

    def remove_influence(self, data):
        self._note(self.log, "remove", rows_of(data))
        return np.array(f_remove(rows_of(data), self.shift)).reshape(-1, 3)

    def add_influence(self, pd, influence_data):
        raise NotImplementedError


class Inj(C_, Injector):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def inject(self, weighted_points):
        w = [round(float(x), 6) for x in weighted_points.weights]
        self._note(self.log, "inject", rows_of(weighted_points.data), w)
        pts, ws = f_inject(rows_of(weighted_points.data), w)
        return WeightedPoints(np.array(pts), np.array(ws))


class Ext(C_, PipelineExtension):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def process(self, weighted_points):
        w = [round(float(x), 6) for x in weighted_points.weights]
        rows = rows_of(weighted_points.data)
        self._note(self.log, "process", rows, w)
        return PolarDiagramPointcloud(rows)


class Qual(QualityAssurance):
    def __init__(self, log):
        self.log = log

    def check(self, polar_diagram, test_data):
        self.log.calls.append(("quality", rows_of(polar_diagram.points), rows_of(test_data)))
        return {"tested": rows_of(test_data)}


FLAGS = ("smoothing", "pre_expander_weighing", "pre_expander_filtering", "pre_influence_weighing", "pre_influence_filtering", "post_weighing", "post_filtering", "injecting", "testing")
STAGES = ("data_handler", "imputator", "smoother", "pre_expanding_weigher", "pre_expanding_filter", "expander", "pre_influence_weigher", "pre_influence_filter", "influence_model", "post_weigher", "post_filter", "injector", "extension", "quality_assurance")


def pipeline(log, handlers=None):
    return PolarPipeline(
        data_handler=handlers or Handler(log), imputator=Imp(log), smoother=Smo(log), pre_expander_weigher=Wei(log, 1), pre_expander_filter=Fil(log, 1), expander=Exp(log),
        pre_influence_weigher=Wei(log, 2), pre_influence_filter=Fil(log, 2), influence_model=Inf(log), post_weigher=Wei(log, 3), post_filter=Fil(log, 3),
        injector=Inj(log), extension=Ext(log), quality_assurance=Qual(log))


ANY = "any"  # statistics of a default weigher are not compared


class Expected:
    """The specification: steps applied one after the other."""

    def __init__(self, flags, handler_ids=None, drop=None):
        self.f = dict.fromkeys(FLAGS, True) | flags
        self.drop = drop or {}
        self.ids = iter(handler_ids) if handler_ids else itertools.repeat(0)
        self.calls = []
        self.shift = None

    def call(self, step, *what):
        self.calls.append((step,) + what)
        return {"step": step, "call": what}

    def weigh(self, rows, q, w, f):
        if not rows:
            return rows, [], {}, {}
        weights, sw, sf = [1.0] * len(rows), ANY, {}
        if self.f[w]:
            sw = self.call(f"weigh{q}", rows)
            weights = f_weigh(rows, q)
        if self.f[f]:
            sf = self.call(f"filter{q}", weights)
            keep = [False] * len(rows) if len(rows) in self.drop.get(q, ()) else f_filter(weights, q)
            rows, weights = [r for r, k in zip(rows, keep) if k], [x for x, k in zip(weights, keep) if k]
        return rows, weights, sw, sf

    def preprocess(self, inputs, training):
        st = {s: {} for s in STAGES[:11]}
        data = []
        for i, raw in enumerate(inputs):
            k = next(self.ids)
            st["data_handler"][i] = self.call("handle", k, raw)
            data.append(f_handle(raw, k))
        for i, d in enumerate(data):
            st["imputator"][i] = self.call("impute", d)
        data = [f_impute(d) for d in data]
        if self.f["smoothing"]:
            for i, d in enumerate(data):
                st["smoother"][i] = self.call("smooth", d)
            data = [f_smooth(d) for d in data]
        for i, d in enumerate(data):
            data[i], _, st["pre_expanding_weigher"][i], st["pre_expanding_filter"][i] = self.weigh(d, 1, "pre_expander_weighing", "pre_expander_filtering")
        for i, d in enumerate(data):
            st["expander"][i] = self.call("expand", d)
            data[i] = f_expand(d)
        for i, d in enumerate(data):
            data[i], _, st["pre_influence_weigher"][i], st["pre_influence_filter"][i] = self.weigh(d, 2, "pre_influence_weighing", "pre_influence_filtering")
        rows = [r for d in data for r in d]
        inf = {}
        if training:
            self.call("fit", rows)
            self.shift = f_fit(rows)
            inf["fitted"] = rows
        inf.update(self.call("remove", rows))
        st["influence_model"] = inf
        rows, weights, st["post_weigher"], st["post_filter"] = self.weigh(f_remove(rows, self.shift), 3, "post_weighing", "post_filtering")
        return rows, weights, st

    def run(self, training, test):
        rows, weights, st = self.preprocess(training, True)
        if not rows:
            return None
        st.update(injector={}, quality_assurance={})
        if self.f["injecting"]:
            st["injector"] = self.call("inject", rows, weights)
            a, b = f_inject(rows, weights)
            rows, weights = rows + a, weights + b
        st["extension"] = self.call("process", rows, weights)
        test_st = dict.fromkeys(STAGES, {})
        if test is not None and self.f["testing"]:
            t, _, test_st = self.preprocess(test, False)
            test_st.update(injector={}, extension={}, quality_assurance={})
            self.calls.append(("quality", rows, t))
            st["quality_assurance"] = {"tested": t}
        return rows, weights, st, test_st


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return round(float(x), 4) if isinstance(x, (int, float, np.number)) and not isinstance(x, bool) else x


def statistics_ok(got, want, what):
    check(set(got._fields) == set(STAGES), f"{what}: statistics {got._fields}")
    for s in STAGES:
        g, w = getattr(got, s), want[s]
        if s == "quality_assurance":
            g = {k: v for k, v in g.items() if k != "execution time"}
        if w == {} and not g:
            continue
        g, w = plain(g), plain(w)
        if isinstance(w, dict):
            for k, v in w.items():
                if v == ANY and k in g:
                    w = {**w, k: g[k]}
        if w == ANY:
            continue
        if s in ("smoother", "pre_expanding_filter", "pre_influence_filter", "pre_expanding_weigher", "pre_influence_weigher") and isinstance(g, dict):
            g, w = ({k: v for k, v in x.items() if v} for x in (g, w))
        check(g == w, f"{what}: statistics {s} are {g}, expected {w}")


MANY = "efghijklmnopqr"
RAW = {
    "a": [[4.0, 10.0, 1.0], [6.0, 20.0, 2.0], [8.0, 33.0, 3.0], [5.0, 45.0, 4.0]],
    "b": [[7.0, 90.0, 5.0], [9.0, 100.0, 6.0]],
    "c": [[12.0, 120.0, 7.0], [3.0, 77.0, 8.0], [11.0, 5.0, 9.0]],
    "d": [[2.0, 300.0, 10.0]],
}
RAW.update({k: [[2.0 + (i * 5 + j * 3) % 17, float((i * 41 + 13 * j) % 360), 0.5 * j + i] for i in range(5 + j + (40 if j == 3 else 0))] for j, k in enumerate(MANY)})
RAW["0"] = []
SPLITS = [("a", None), ("ab", None), ("a", "b"), ("ca", "db"), ("abc", "d")]


def inputs(s):
    return None if s is None else [[list(r) for r in RAW[k]] for k in s]


def run_ok(pipe, log, flags, split, what, expected=None, **kw):
    train, test = inputs(split[0]), inputs(split[1])
    exp = expected or Expected({k: v for k, v in flags.items() if k in FLAGS})
    want = exp.run(inputs(split[0]), inputs(split[1]))
    log.calls.clear()
    if want is None:
        raises(RuntimeError, lambda: pipe(train, test, **flags), f"{what}: no data left")
        return "empty"
    out = pipe(train, test, **flags, **kw)
    same_calls(log.calls, exp.calls, what)
    check(train == inputs(split[0]) and test == inputs(split[1]), f"{what}: inputs changed")
    got = rows_of(out.polardiagram.points)
    check(sorted(plain(got)) == sorted(plain(want[0])), f"{what}: diagram {got}")
    check(out.training_statistics.quality_assurance["execution time"] >= 0, f"{what}: time")
    statistics_ok(out.training_statistics, want[2], what + " training")
    statistics_ok(out.test_statistics, want[3], what + " test")
    return [len(want[0]), len(exp.calls)]


def same_calls(got, want, what):
    """The same components were handed the same data.

    What a call is handed tells which calls came before it, so the order in
    which independent data sets are processed is left open.
    """
    got, want = (sorted(plain(x), key=repr) for x in (got, want))
    extra = [c for c in got if c not in want]
    missing = [c for c in want if c not in got]
    check(got == want, f"{what}: calls {extra[:2]} instead of {missing[:2]} ({len(got)} calls, expected {len(want)})")


@R.scenario([[list(p), i] for p in itertools.product((1, 0), repeat=len(FLAGS)) for i in range(len(SPLITS))])
def configurations(ctx, case):
    """Every combination of switches and data splits."""
    p, i = case
    log = Log()
    pipe = pipeline(log)
    flags = {k: bool(v) for k, v in zip(FLAGS, p)}
    out = run_ok(pipe, log, flags, SPLITS[i], f"{case}")
    ctx.step(len(log.calls))
    return out


@R.scenario([[list(off), i] for n in range(3) for off in itertools.combinations(range(len(FLAGS)), n) for i in (2, 3)])
def defaults(ctx, case):
    """Steps not mentioned are carried out; aliases mean the same."""
    off, i = case
    alias = {"pre_influence_weighing": "pre_weighing", "pre_influence_filtering": "pre_filtering", "post_weighing": "weighing", "post_filtering": "filtering"}
    log = Log()
    pipe = pipeline(log)
    flags = {FLAGS[k]: False for k in off}
    run_ok(pipe, log, flags, SPLITS[i], f"{case}")
    named = {alias.get(k, k): v for k, v in flags.items()}
    exp = Expected(flags)
    want = exp.run(inputs(SPLITS[i][0]), inputs(SPLITS[i][1]))
    log.calls.clear()
    out = pipe.execute(inputs(SPLITS[i][0]), inputs(SPLITS[i][1]), **named)
    same_calls(log.calls, exp.calls, f"{case} aliases")
    statistics_ok(out.training_statistics, want[2], f"{case} aliases")
    ctx.step(2 * len(log.calls))
    return len(log.calls)


RUNS = [({}, ("a", None)), ({}, ("cb", "d")), ({"smoothing": False, "post_filtering": False}, ("ab", "c")), ({"injecting": False, "pre_expander_weighing": False}, ("d", "ab")),
        ({"testing": False}, ("ba", "c")), ({"pre_influence_filtering": False, "post_weighing": False}, ("c", "a"))]


@R.scenario(lambda t: [[list(o)] for o in itertools.product(range(len(RUNS)), repeat=4 if t == "thorough" else 3)])
def histories(ctx, case):
    """Every history of runs on one pipeline object."""
    log = Log()
    pipe = pipeline(log)
    outs = []
    for k in case[0]:
        flags, split = RUNS[k]
        run_ok(pipe, log, flags, split, f"{case} run {k}")
        ctx.step(len(log.calls))
    return case


@R.scenario([[kind, tr, te] for kind in ("list", "tuple") for tr in ("a", "ab", "abc") for te in (None, "d", "dc")])
def several_handlers(ctx, case):
    """One handler per input, training data first."""
    kind, tr, te = case
    log = Log()
    n = len(tr) + len(te or "")
    handlers = [Handler(log, k + 1) for k in range(n)]
    pipe = pipeline(log, handlers if kind == "list" else tuple(handlers))
    for turn in range(2):
        exp = Expected({}, handler_ids=range(1, n + 1))
        run_ok(pipe, log, {}, (tr, te), f"{case} turn {turn}", expected=exp)
        ctx.step(len(log.calls))
    return case


@R.scenario([[name] for name in ("filter", "weigher", "pre_filter", "pre_weigher")])
def component_aliases(ctx, case):
    """Aliases of components."""
    name = case[0]
    log = Log()
    full = {"filter": "post_filter", "weigher": "post_weigher", "pre_filter": "pre_influence_filter", "pre_weigher": "pre_influence_weigher"}[name]
    comps = dict(data_handler=Handler(log), imputator=Imp(log), smoother=Smo(log), pre_expander_weigher=Wei(log, 1), pre_expander_filter=Fil(log, 1), expander=Exp(log),
                 pre_influence_weigher=Wei(log, 2), pre_influence_filter=Fil(log, 2), influence_model=Inf(log), post_weigher=Wei(log, 3), post_filter=Fil(log, 3),
                 injector=Inj(log), extension=Ext(log), quality_assurance=Qual(log))
    comps[name] = comps.pop(full)
    run_ok(PolarPipeline(**comps), log, {}, ("ab", "c"), f"{case}")
    ctx.step()
    return case


class Dropper(Filter):
    """Keeps a fixed number of points."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def filter(self, weights):
        m = np.arange(len(weights)) < self.n
        self._statistics = {"left": int(m.sum())}
        return m


@R.scenario([[stage, n, tr, te] for stage in ("pre_expander_filter", "pre_influence_filter", "post_filter") for n in (0, 1, 2) for tr in ("a", "ad") for te in (None, "b")])
def nothing_left(ctx, case):
    """Training data filtered away completely is refused."""
    stage, n, tr, te = case
    log = Log()
    pipe = pipeline(log)
    for q, s in enumerate(("pre_expander_filter", "pre_influence_filter", "post_filter")):
        setattr(pipe, s, Dropper(n if s == stage else 99))
    if n == 0:
        raises(RuntimeError, lambda: pipe(inputs(tr), inputs(te)), f"{case}")
        check(not any(c[0] in ("process", "quality") for c in log.calls), f"{case}: {[c[0] for c in log.calls]}")
    else:
        out = pipe(inputs(tr), inputs(te))
        left = sum(min(n, len(RAW[k])) for k in tr) if stage != "post_filter" else min(n, sum(len(RAW[k]) for k in tr))
        check(len(out.polardiagram.points) == left + 2, f"{case}: {len(out.polardiagram.points)} points")
    ctx.step()
    return case


@R.scenario(lambda t: [[q, list(gone), tr, te, w, f] for q in (1, 2) for n in range(4) for gone in itertools.combinations("abc", n) for tr in (("abc", "cab", "bdac") if t == "thorough" else ("abc", "bdac"))
                       for te in (None, "ca") for w in (True, False) for f in (True, False)])
def emptied_inputs(ctx, case):
    """Single inputs of which a filter leaves nothing."""
    q, gone, tr, te, w, f = case
    drop = {len(RAW[k]) for k in gone}
    log = Log()
    pipe = pipeline(log)
    setattr(pipe, ("pre_expander_filter", "pre_influence_filter")[q - 1], Fil(log, q, drop))
    flags = {("pre_expander_weighing", "pre_influence_weighing")[q - 1]: w, "injecting": f}
    for turn in range(2):
        run_ok(pipe, log, flags, (tr, te), f"{case} turn {turn}", expected=Expected(flags, drop={q: drop}))
    ctx.step(len(log.calls))
    return case


@R.scenario([[tr, te] for tr in ("0a", "a0", "b0a", "00c", "0") for te in (None, "b", "0b", "b0", "0c0")])
def empty_inputs(ctx, case):
    """Inputs without measurements among others."""
    log = Log()
    pipe = pipeline(log)
    run_ok(pipe, log, {}, case, f"{case}")
    ctx.step(len(log.calls))
    return case


@R.scenario([[n, m, k] for n in (1, 5, 11, 14) for m in (None, 2, 12) for k in ("one", "each")])
def many_inputs(ctx, case):
    """More than ten inputs, one of them long."""
    n, m, kind = case
    split = (MANY[:n], m and MANY[::-1][:m])
    log = Log()
    ids = range(1, n + (m or 0) + 1)
    pipe = pipeline(log, None if kind == "one" else [Handler(log, k) for k in ids])
    for flags in ({}, {"pre_influence_filtering": False, "smoothing": False}):
        run_ok(pipe, log, flags, split, f"{case}", expected=Expected(flags, handler_ids=None if kind == "one" else ids))
    ctx.step(len(log.calls))
    return case


# ---- the library's own components --------------------------------------------
def measurements(seed, n, missing=True):
    """Deterministic series of plausible measurements."""
    t0 = datetime(2022, 1, 1) + timedelta(hours=seed)
    rows = []
    for i in range(n):
        ws = 6 + (i * 7 + seed * 3) % 9 + 0.25 * (i % 4)
        wa = (i * 37 + 11 * seed) % 360 + 0.5
        bsp = 0.4 * ws * (1.2 - np.cos(np.deg2rad(wa))) + 0.01 * (i % 5)
        rows.append([t0 + timedelta(seconds=10 * i), ws, wa, bsp])
    return rows


def frame(rows, gaps):
    arr = np.array(rows, dtype=object)
    for i in gaps:
        arr[i % len(arr), 1 + i % 3] = None
    return arr, ["datetime", "TWS", "TWA", "BSP"]


SETS = [[(1, 40, (3, 17))], [(2, 30, ()), (5, 25, (7,))], [(3, 50, (0, 11, 12)), (4, 12, ())]]
TESTS = [None, [(7, 20, ())], [(8, 15, (2,)), (9, 10, ())]]
REAL = {
    "default": dict(),
    "nosmooth": dict(smoother=lambda: pc.AffineSmoother(), imputator=lambda: FillLocalImputator()),
    "weights": dict(imputator=RemoveOnlyImputator, post_weigher=lambda: pc.CylindricMemberWeigher(radius=3, length=60), post_filter=lambda: pc.BoundFilter(lower_bound=0.05), pre_influence_filter=lambda: pc.QuantileFilter(10)),
    "curve": dict(influence_model=lambda: WindAngleCorrectingInfluenceModel(interval_size=40), extension=lambda: CurveExtension(regressor=pc.LeastSquareRegressor(linear, [0.1, 0.1])), injector=lambda: pc.ZeroInjector(20)),
    "cloud": dict(extension=lambda: PointcloudExtension(sampler=pc.FibonacciSampler(30), neighbourhood=pc.ScalingBall(8), interpolator=pc.IDWInterpolator()), quality_assurance=ComformingQualityAssurance, injector=lambda: pc.ZeroInjector(5)),
    "table": dict(extension=lambda: TableExtension(wind_resolution=([4, 8, 12, 16], [20, 60, 100, 140, 200, 300]), neighbourhood=pc.ScalingBall(10), interpolator=pc.IDWInterpolator())),
}


def linear(ws, wa, a, b):
    return a * ws + b * ws * np.sin(np.deg2rad(wa) / 2)


def fresh(kind):
    made = {k: v() for k, v in REAL[kind].items()}
    comps = dict(data_handler=ArrayHandler(), imputator=FillLocalImputator(), smoother=pc.LazySmoother(), pre_expander_weigher=pc.CylindricMeanWeigher(), pre_expander_filter=pc.QuantileFilter(), expander=LazyExpander(),
                 pre_influence_weigher=pc.CylindricMeanWeigher(), pre_influence_filter=pc.QuantileFilter(), influence_model=IdentityInfluenceModel(), post_weigher=pc.CylindricMeanWeigher(), post_filter=pc.QuantileFilter(),
                 injector=pc.ZeroInjector(500), extension=TableExtension(), quality_assurance=MinimalQualityAssurance())
    comps.update(made)
    return made, comps


def by_hand(c, train, test, f):
    """Apply components one after the other."""
    def prep(sets, training):
        series = []
        for raw in sets:
            d = c["imputator"].impute(c["data_handler"].handle(raw))
            if f["smoothing"]:
                d = c["smoother"].smooth(d)
            for a in ("pre_expander", "pre_influence"):
                w = c[a + "_weigher"].weigh(d) if f[a + "_weighing"] else np.ones(d.n_rows)
                if f[a + "_filtering"]:
                    keep = c[a + "_filter"].filter(w)
                    d = d[[bool(x) for x in keep]]
                if a == "pre_expander":
                    d = c["expander"].expand(d)
            series.append(d)
        d = Data.concatenate(series)
        if training:
            c["influence_model"].fit(d)
        pts = c["influence_model"].remove_influence(d)
        w = c["post_weigher"].weigh(pts) if f["post_weighing"] else np.ones(len(pts))
        if f["post_filtering"]:
            keep = np.asarray(c["post_filter"].filter(w))
            pts, w = pts[keep], np.asarray(w)[keep]
        return pts, np.asarray(w, dtype=float)
    pts, w = prep(train, True)
    if f["injecting"]:
        new = c["injector"].inject(WeightedPoints(pts, w))
        pts, w = np.concatenate([pts, new.data]), np.concatenate([w, new.weights])
    pd = c["extension"].process(WeightedPoints(pts, w))
    q = {}
    if test is not None and f["testing"]:
        q = c["quality_assurance"].check(pd, prep(test, False)[0])
    return pd, q


def diagram_same(a, b, what):
    check(type(a) is type(b), f"{what}: {type(a)}")
    if hasattr(a, "points") and not hasattr(a, "boat_speeds"):
        same(np.asarray(a.points), np.asarray(b.points), f"{what}: points")
    elif hasattr(a, "boat_speeds"):
        for attr in ("wind_speeds", "wind_angles", "boat_speeds"):
            same(np.asarray(getattr(a, attr)), np.asarray(getattr(b, attr)), f"{what}: {attr}")
    else:
        same(np.asarray(a.parameters), np.asarray(b.parameters), f"{what}: parameters", rtol=1e-6)


def realcases(tier):
    for kind in REAL:
        flags = [{}] + [{k: False} for k in FLAGS]
        if tier == "thorough":
            flags += [{a: False, b: False} for a, b in itertools.combinations(FLAGS, 2)]
        for fl in flags:
            for i, j in (itertools.product(range(3), repeat=2) if tier == "thorough" else ((0, 0), (1, 2), (2, 1))):
                yield [kind, sorted(fl), i, j]


@R.scenario(realcases)
def real_components(ctx, case):
    """The library's components in the pipeline and by hand."""
    kind, off, i, j = case
    train, test = ([frame(measurements(s, n), g) for s, n, g in x] if x else None for x in (SETS[i], TESTS[j]))
    keep = copy.deepcopy((train, test))
    f = dict.fromkeys(FLAGS, True) | {k: False for k in off}
    made, _ = fresh(kind)
    pipe = PolarPipeline(data_handler=ArrayHandler(), **made)
    _, comps = fresh(kind)
    want, q = by_hand(comps, *copy.deepcopy((train, test)), f)
    for turn in range(2):
        out = pipe(train, test, **{k: False for k in off})
        diagram_same(out.polardiagram, want, f"{case} turn {turn}")
        got = {k: v for k, v in out.training_statistics.quality_assurance.items() if k != "execution time"}
        check(set(got) == set(q), f"{case}: quality {got}")
        for k in q:
            same(float(got[k]), float(q[k]), f"{case}: {k}", rtol=1e-6)
        for a, b in zip((train or []) + (test or []), (keep[0] or []) + (keep[1] or [])):
            check(np.array_equal(a[0], b[0]), f"{case}: input changed")
        check(len(out.training_statistics.data_handler) == len(train), f"{case}: handler statistics")
        ctx.step(8)
    return [len(out.training_statistics.data_handler), sorted(q)]


# ---- inputs alike --------------------------------------------------------------
@R.scenario([["".join(w), te, f] for n in (2, 3) for w in itertools.product("ab", repeat=n) for te in (None, "a", "aa") for f in range(3)])
def inputs_alike(ctx, case):
    """The same recording handed over several times counts several times."""
    tr, te, f = case
    log = Log()
    flags = [{}, dict.fromkeys(FLAGS[1:7], False), {"smoothing": False, "post_filtering": False}][f]
    run_ok(pipeline(log), log, flags, (tr, te), f"{case}")
    ctx.step(len(log.calls))


class Shared(DataHandler):
    """Hands out the same table for inputs of the same name."""

    def __init__(self, tables):
        super().__init__()
        self.tables = tables

    def handle(self, data):
        self.set_statistics(self.tables[data])
        return self.tables[data]


class Keep(Imputator):
    def impute(self, data):
        return data


@R.scenario([["".join(w), list(f)] for n in (1, 2, 3) for w in itertools.product("ab", repeat=n) for f in itertools.product((0, 1), repeat=3)])
def shared_tables(ctx, case):
    """Handlers may hand out one and the same table for several inputs."""
    names, f = case
    tables = {k: Data.from_dict({"TWS": [r[0] for r in RAW[k]], "TWA": [r[1] for r in RAW[k]], "BSP": [r[2] for r in RAW[k]]}) for k in "ab"}
    flags = dict.fromkeys(FLAGS[1:8], False)
    flags["smoothing"] = False
    for on, k in zip(f, ("pre_expander_weighing", "pre_influence_weighing", "post_weighing")):
        flags[k] = bool(on)
    log = Log()
    pipe = PolarPipeline(data_handler=Shared(tables), imputator=Keep(), extension=Ext(log))
    pipe(list(names), **flags)
    want = [row for k in names for row in RAW[k]]
    got = [c[1] for c in log.calls if c[0] == "process"]
    check(len(got) == 1 and plain(got[0]) == plain(rows_of(np.array(want, dtype=float))), f"{case}: the points {got} instead of {want}")
    ctx.step()
