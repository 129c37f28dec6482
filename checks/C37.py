"""C37: statistics describe the latest run of their component."""
import itertools
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data, WeightedPoints
from hrosailing.core.statistics import ComponentWithStatistics
from hrosailing.models import (
    IdentityInfluenceModel,
    InfluenceModel,
    WeatherModel,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.pipeline.expander import Expander, LazyExpander, WeatherExpander
from hrosailing.pipeline.extensions import (
    CurveExtension,
    PointcloudExtension,
    TableExtension,
)
from hrosailing.processing import (
    AffineSmoother,
    AllOneWeigher,
    ArrayHandler,
    BoundFilter,
    CsvFileHandler,
    CylindricMeanWeigher,
    CylindricMemberWeigher,
    FillLocalImputator,
    Filter,
    FluctuationWeigher,
    FuzzyWeigher,
    LazySmoother,
    LeastSquareRegressor,
    NMEAFileHandler,
    QuantileFilter,
    RemoveOnlyImputator,
    Weigher,
    ZeroInjector,
)
from hrosailing.processing.imputator import Imputator
from vf.core import Registry, check

ID = "C37"
ASSUMPTIONS = [
    "a weight exactly between two tenths of the span may be counted in either or both",
    "shares are given in percent and rounded to two decimals",
    "statistics of weighing no points are not specified beyond being reported without an error",
]
R = Registry()


def weights_ok(st, weights, what):
    """The statistics are those of the weights."""
    n = len(weights)
    lo, hi = min(weights), max(weights)
    tol = 1e-9 * (1 + max(abs(lo), abs(hi)))
    for key, val in (("average_weight", sum(weights) / n), ("minimal_weight", lo), ("maximal_weight", hi)):
        check(st.get(key) is not None and abs(float(st[key]) - val) <= tol, "%s: %s is %s instead of %s", what, key, st.get(key), val)
    q = st.get("quantiles")
    check(q is not None and len(q) == 10, "%s: shares %s", what, q)
    span = hi - lo
    if not span:
        check(sum(q) >= 100 - 1e-9 and all(0 <= x <= 100 for x in q), "%s: shares %s of equal weights", what, q)
        return
    check(sum(q) >= 100 - 0.05, "%s: shares %s", what, q)
    for i, got in enumerate(q):
        a, b = lo + span * i / 10, lo + span * (i + 1) / 10
        sure = sum(a + tol < w < b - tol or i == 0 and w == lo or i == 9 and w == hi for w in weights)
        most = sum(a - tol <= w <= b + tol for w in weights)
        check(100 * sure / n - 0.0051 <= got <= 100 * most / n + 0.0051, "%s: share %s of tenth %s of %s is not within [%s, %s] of %s points", what, got, i, weights, sure, most, n)


class Given(Weigher):
    """Weights are the first column."""

    def weigh(self, points):
        w = points[:, 0] * 1.0
        self.set_statistics(w)
        return w


def kinds():
    return {
        "own": Given(),
        "fuzzy": FuzzyWeigher(lambda p: p[0] * 1.0),
        "sum": Given() + AllOneWeigher() - 1,
        "scaled": 0.5 * Given() * 2,
        "power": Given() ** 1,
    }


ALPHA = [0.0, 0.1, 0.25, 0.5, 0.85, 1.0, -1.5, 10.0, 7.25]


def vectors(tier):
    for n in (1, 2, 3):
        yield from itertools.product(range(len(ALPHA)), repeat=n)
    yield from itertools.combinations_with_replacement(range(len(ALPHA)), 4)
    yield from itertools.combinations_with_replacement(range(len(ALPHA)), 5)
    yield from itertools.combinations_with_replacement(range(len(ALPHA)), 6)
    if tier == "thorough":
        yield from itertools.product(range(len(ALPHA)), repeat=4)
        yield from itertools.combinations_with_replacement(range(len(ALPHA)), 7)
    for i, j in itertools.product(range(5), repeat=2):
        yield [i] * 97 + [j] * 2 + [(i + 1) % 5]
        yield [i, j, (i + j) % 5] * 5 + [5] * 2


@R.scenario(lambda tier: [[list(v)] for v in vectors(tier)])
def weighers(ctx, case):
    """Every weight vector, with one weigher of each kind used repeatedly."""
    w = [ALPHA[i] for i in case[0]]
    for kind, weigher in kinds().items():
        for vec in (w, w[::-1], w + w[:1]):
            pts = np.column_stack((vec, np.ones(len(vec)), np.ones(len(vec))))
            got = weigher.weigh(pts)
            check(np.allclose(got, vec, atol=1e-12), "%s weigher: %s for %s", kind, got, vec)
            weights_ok(weigher.get_latest_statistics(), list(map(float, vec)), f"{kind} weigher of {vec}")
            ctx.step()
    return len(w)


@R.scenario([[n, at] for n in (101, 257, 1001, 3000) for at in (0, 1, 500, 999, -2, -1)])
def many_weights(ctx, case):
    """One point that stands out among many is seen."""
    n, at = case
    w = np.array([0.3 + 0.4 * ((i * 617) % 1000) / 1000 for i in range(n)])
    w[at % n] = 1.0
    w[(at + 77) % n] = 0.0
    kind = kinds()["sum" if at % 2 else "own"]
    kind.weigh(np.column_stack((w, w, w)))
    weights_ok(kind.get_latest_statistics(), w.tolist(), f"weigher of {n} points")
    for f in (BoundFilter(lower_bound=0.9), BoundFilter(upper_bound=0.1, lower_bound=0.0), QuantileFilter(60)):
        mask = np.asarray(f.filter(w))
        st = f.get_latest_statistics()
        check(st["n_rows"] == int(mask.sum()) and st["n_filtered_points"] == n - int(mask.sum()), "filter of %s points keeps %s, reports %s", n, int(mask.sum()), st)
    cols = {"TWS": w.tolist(), "TWA": [None if i in (at % n, 3) else 40.0 for i in range(n)], "BSP": [5.0] * n}
    for i in range(23):
        cols[f"x{i}"] = [float(i)] * n
    rem = RemoveOnlyImputator()
    rem.impute(Data.from_dict({k: list(v) for k, v in cols.items()}))
    gone = len({at % n, 3})
    st = rem.get_latest_statistics()
    check((st["n_rows"], st["n_removed_rows"], st["n_cols"]) == (n - gone, gone, 26), "imputator of %s rows reports %s", n, st)
    h = ArrayHandler()
    h.handle((np.column_stack([w] * 26), list(cols)))
    check(h.get_latest_statistics() == {"n_rows": n, "n_cols": 26}, "handler of %s rows reports %s", n, h.get_latest_statistics())
    ctx.step(6)


MASKS = [list(m) for n in range(1, 6) for m in itertools.product((0, 1), repeat=n)]


@R.scenario([[m] for m in MASKS])
def filters(ctx, case):
    """Every pattern of kept and removed points."""
    w = np.array([0.8 - 0.01 * i if k else 0.2 + 0.01 * i for i, k in enumerate(case[0])])
    flt = {"bound": BoundFilter(lower_bound=0.5), "upper": BoundFilter(upper_bound=0.5, lower_bound=0), "quantile": QuantileFilter(40), "all": BoundFilter(lower_bound=2, upper_bound=3)}
    for turn in range(2):
        for name, f in flt.items():
            for arr in (w, w[:1], np.concatenate([w, w])):
                mask = np.asarray(f.filter(arr))
                st = f.get_latest_statistics()
                check(st["n_rows"] == int(mask.sum()) and st["n_filtered_points"] == len(arr) - int(mask.sum()), "%s filter of %s keeps %s, reports %s", name, arr, mask, st)
                ctx.step()
    return case


TABLES = [
    {"TWS": [10.0], "TWA": [45.0], "BSP": [6.0]},
    {"TWS": [10.0, 11.0, 12.0], "TWA": [45.0, 50.0, 60.0], "BSP": [6.0, 7.0, None]},
    {"TWS": [10.0, 11.0], "TWA": [45.0, None], "BSP": [6.0, 5.0], "lat": [50.0, 50.1], "lon": [1.0, 1.5]},
    {"TWS": [8.0, 9.0, 9.5, 10.0, 10.0], "BSP": [1.0, 2.0, None, 4.0, 5.0]},
]


@R.scenario([[list(p)] for n in (1, 2, 3) for p in itertools.product(range(len(TABLES)), repeat=n)])
def steps(ctx, case):
    """Row, column and point counts of data steps after each of a sequence of runs."""
    handler, expander, remover, lazy = ArrayHandler(), LazyExpander(), RemoveOnlyImputator(), LazySmoother()
    injector = [ZeroInjector(0), ZeroInjector(3)]
    for i in case[0]:
        t = TABLES[i]
        keys = list(t)
        full = {k: [0.5 if x is None else x for x in v] for k, v in t.items()}
        n = len(t[keys[0]])
        data = handler.handle((np.array(list(zip(*full.values()))), keys))
        st = handler.get_latest_statistics()
        check(st["n_rows"] == n == data.n_rows and st["n_cols"] == len(keys) == len(list(data.keys())), "%s: handler reports %s", t, st)
        out = expander.expand(Data.from_dict({k: list(v) for k, v in full.items()}))
        st = expander.get_latest_statistics()
        check(st["n_rows"] == n == out.n_rows and st["n_cols"] == len(keys), "%s: expander reports %s", t, st)
        lazy.smooth(Data.from_dict({k: list(v) for k, v in full.items()}))
        out = remover.impute(Data.from_dict({k: list(v) for k, v in t.items()}))
        st = remover.get_latest_statistics()
        gone = sum(any(v[r] is None for v in t.values()) for r in range(n))
        check(st["n_rows"] == out.n_rows == n - gone and st["n_removed_rows"] == gone and st["n_removed_cols"] == 0 and st["n_filled_fields"] == 0 and st["n_cols"] == len(keys), "%s: imputator reports %s", t, st)
        if "lat" in t or len(keys) == 3:
            wp = WeightedPoints(np.array(list(zip(full["TWS"], full["TWA"], full["BSP"]))), weights=1)
            for zeros, inj in zip((0, 3), injector):
                extra = inj.inject(wp)
                check(inj.get_latest_statistics()["n_injected"] == 2 * zeros == len(extra.data), "injector of %s reports %s", zeros, inj.get_latest_statistics())
        ctx.step(4)
    return case


RUNS = [{"a": 1}, {"b": 2.5, "c": None}, {"a": [], "b": 0}, {}, {"c": "x"}]


@R.scenario([[list(p)] for n in (1, 2, 3, 4) for p in itertools.product(range(len(RUNS)), repeat=n)])
def own(ctx, case):
    """Runs of a user's component that report different things; earlier reports stay as they were."""
    first, second = ComponentWithStatistics(), ComponentWithStatistics()
    check(first.get_latest_statistics() == {}, "a component reports %s before any run", first.get_latest_statistics())
    kept = []
    for turn, i in enumerate(case[0]):
        comp = (first, second)[turn % 2] if case[0][0] == 0 else first
        comp.set_statistics(**RUNS[i])
        kept.append((comp, comp.get_latest_statistics(), RUNS[i]))
        for j, (_, got, want) in enumerate(kept):
            check(got == want, "runs %s: report %s reads %s instead of %s after run %s", [RUNS[k] for k in case[0]], j, got, want, turn)
        for c in (first, second):
            want = next((w for k, _, w in reversed(kept) if k is c), {})
            check(c.get_latest_statistics() == want, "runs %s: %s instead of %s after run %s", [RUNS[k] for k in case[0]], c.get_latest_statistics(), want, turn)
        ctx.step()
    return case


class Somewhere(WeatherModel):
    """Weather at the places 0 (all), 1 (some) and 2 (more); none at place 3."""

    def get_weather(self, point):
        _, lat, lon = list(point)
        if lat == 3:
            raise ValueError
        return [{"TWS": 10.0, "TWA": 45.0}, {"TWS": 11.0}, {"TWS": 12.0, "TWA": 50.0, "WVHGT": 1.0}][int(lat)]


@R.scenario([[list(p), mode] for n in (0, 1, 2, 3, 4) for p in itertools.product(range(4), repeat=n) for mode in ("delete", "ignore")])
def weather(ctx, case):
    """The weather expander's counts after deleting or keeping rows without weather."""
    places, mode = case
    exp = WeatherExpander(Somewhere(), exception_handling_mode=mode)
    for part in (places, places[::-1], places[1:], [3] + places):
        if not part:
            continue
        data = Data.from_dict({"datetime": [datetime(2020, 1, 1, i) for i in range(len(part))], "lat": [float(x) for x in part], "lon": [0.0] * len(part), "BSP": [5.0] * len(part)})
        out = exp.expand(data)
        rows = len(part) if mode == "ignore" else sum(x != 3 for x in part)
        cols = 4 + len({k for x in part if x != 3 for k in (("TWS", "TWA"), ("TWS",), ("TWS", "TWA", "WVHGT"))[x]})
        st = exp.get_latest_statistics()
        check(st["n_rows"] == rows == out.n_rows, "%s at %s: rows %s, reported %s", mode, part, out.n_rows, st)
        check(st["n_cols"] == cols == len(out.keys()), "%s at %s: columns %s, reported %s", mode, part, out.keys(), st)
        ctx.step()
    return case


T0 = datetime(2020, 1, 1)
FILL = [None, 0, 30, 60, 600]


@R.scenario([[list(t), list(x)] for n in (1, 2, 3, 4) for t in ([0, 30, 60, 90], [0, 30, 600, 610], [0, None, 60, 600], [None, 0, None, 700]) for x in itertools.product((0, 1), repeat=n)])
def fillers(ctx, case):
    """The imputator's counts agree with what it did to the data."""
    times, have = case
    n = len(have)
    imp = FillLocalImputator(max_time_diff=timedelta(seconds=60))
    for xs in (have, have[::-1]):
        cols = {
            "datetime": [None if t is None else T0 + timedelta(seconds=t) for t in times[:n]],
            "x": [float(i) if h else None for i, h in enumerate(xs)],
            "y": [1.0] * n,
            "empty": [None] * n,
        }
        if all(t is None for t in cols["datetime"]):
            continue
        data = Data.from_dict({k: list(v) for k, v in cols.items()})
        n_cols = len(data.keys())
        out = imp.impute(data)
        st = imp.get_latest_statistics()
        check(st["n_rows"] == out.n_rows and st["n_cols"] == len(out.keys()), "%s: reported %s for %s rows and columns %s", case, st, out.n_rows, out.keys())
        check(st["n_removed_rows"] == n - out.n_rows, "%s: %s of %s rows left, reported %s", case, out.n_rows, n, st)
        check(st["n_removed_cols"] == n_cols - len(out.keys()), "%s: reported %s, columns %s", case, st, out.keys())
        ctx.step()
    return case


def components():
    f = lambda ws, wa, a: a * ws  # noqa: E731
    return {
        "array": ArrayHandler(), "csv": CsvFileHandler(), "nmea": NMEAFileHandler(), "remove": RemoveOnlyImputator(), "fill": FillLocalImputator(),
        "lazy": LazySmoother(), "affine": AffineSmoother(), "one": AllOneWeigher(), "mean": CylindricMeanWeigher(), "member": CylindricMemberWeigher(),
        "fluctuation": FluctuationWeigher(["BSP"], timedelta(seconds=5), [1]), "fuzzy": FuzzyWeigher(lambda p: 1.0), "sum": AllOneWeigher() + 1, "both": AllOneWeigher() * AllOneWeigher(),
        "quantile": QuantileFilter(), "bound": BoundFilter(), "expander": LazyExpander(), "weather": WeatherExpander(Somewhere()),
        "identity": IdentityInfluenceModel(), "angle": WindAngleCorrectingInfluenceModel(), "zero": ZeroInjector(1),
        "table": TableExtension(), "curve": CurveExtension(LeastSquareRegressor(f)), "cloud": PointcloudExtension(),
    }


@R.scenario([[k] for k in components()])
def fresh(ctx, case):
    """A component that has not run reports nothing, and nothing of another one's runs."""
    used, new = components()[case[0]], components()[case[0]]
    check(new.get_latest_statistics() == {}, "fresh %s reports %s", case[0], new.get_latest_statistics())
    pts = np.array([[1.0, 2.0, 3.0], [2.0, 3.0, 5.0]])
    data = {"TWS": [1.0, 2.0], "TWA": [2.0, 3.0], "BSP": [3.0, 5.0]}
    recorded = Data.from_dict({"datetime": [T0, T0], "lat": [0.0, 0.0], "lon": [0.0, 0.0], **data})
    if isinstance(used, Weigher):
        used.weigh(recorded if case[0] == "fluctuation" else pts)
    elif isinstance(used, Filter):
        used.filter(np.array([0.2, 0.7]))
    elif isinstance(used, (Imputator, Expander)):
        getattr(used, "impute" if isinstance(used, Imputator) else "expand")(recorded)
    elif isinstance(used, InfluenceModel):
        used.fit(Data.from_dict(data))
    elif isinstance(used, ArrayHandler):
        used.handle((pts, ["TWS", "TWA", "BSP"]))
    check(new.get_latest_statistics() == {} and components()[case[0]].get_latest_statistics() == {}, "fresh %s reports %s after a run of another one", case[0], new.get_latest_statistics())
    ctx.step(2)
    return case
