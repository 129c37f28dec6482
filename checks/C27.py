"""C27: weather expansion adds weather to the rows it belongs to."""
import itertools
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.models import GriddedWeatherModel, MultiWeatherModel
from hrosailing.models.weather_model import WeatherModel
from hrosailing.pipeline.expander import LazyExpander, WeatherExpander
from vf.core import Registry, check, same

ID = "C27"
ASSUMPTIONS = [
    "data has complete columns datetime, lat and lon in standard format; weather is a dictionary of numbers per point",
    "a model that cannot answer raises ValueError (documented)",
    "weather under a name already used is added under a new name beginning with that name",
]
R = Registry()
T0 = datetime(2021, 6, 1, 12)


class Logged(WeatherModel):
    """Answers by a table indexed with the time step of the point."""

    def __init__(self, answers, places=None):
        self.answers = answers
        self.places = places  # the points of the answers if their times do not tell them apart
        self.asked = []

    def get_weather(self, point):
        self.asked.append(tuple(point))
        i = self.places.index(tuple(point)) if self.places else round((point[0] - T0).total_seconds() / 60)
        w = self.answers[i]
        if w is None:
            raise ValueError("no weather here")
        return dict(w)


def rows_of(n, start=0):
    idx = range(start, start + n)
    return {
        "datetime": [T0 + timedelta(minutes=i) for i in idx],
        "lat": [50.0 + i for i in idx],
        "lon": [-3.0 * i for i in idx],
        "BSP": [5.0 + i / 4 if i % 3 != 1 else None for i in idx],
        "TWS": [10.0 + i for i in idx],
        "note": [f"n{i}" for i in idx],
    }


def data_of(cols, order=0):
    keys = list(cols)
    keys = [keys, keys[::-1], keys[3:] + keys[:3]][order]
    return Data.from_dict({k: list(cols[k]) for k in keys})


def table(d):
    return {k: list(d[k]) for k in d.keys()}


def aligned(d, n, what):
    check(d.n_rows == n, f"{what}: {d.n_rows} rows, expected {n}")
    for k in d.keys():
        check(len(d[k]) == n, f"{what}: column {k} has {len(d[k])} entries, expected {n}")
    check(d.n_cols == len(d.keys()), f"{what}: n_cols")


def expanded(out, cols, weather, names, what):
    """The columns of out are cols and the weather, row by row."""
    n = len(cols["datetime"])
    aligned(out, n, what)
    for k, v in cols.items():
        check(k in out, f"{what}: column {k} lost, there are {out.keys()}")
        check(list(out[k]) == v, f"{what}: column {k} became {list(out[k])}, recorded {v}")
    new = [k for k in out.keys() if k not in cols]
    check(len(new) == len(names), f"{what}: new columns {new} for {names}")
    for key, std in names.items():
        if std not in cols:
            check(std in out, f"{what}: no column {std} for {key}, there are {out.keys()}")
            got = out[std]
        else:
            cand = [k for k in new if k.startswith(std)]
            check(len(cand) == 1, f"{what}: columns {cand} hold {key}")
            got = out[cand[0]]
        want = [w.get(key) if w is not None else None for w in weather]
        check(list(got) == want, f"{what}: {key} is {list(got)}, the model reports {want}")


KEYSETS = {
    "temp": {"temp": "temp"},
    "wind": {"wind speed": "TWS"},
    "three": {"temperature": "temp", "WDIR": "WD", "wave height": "wave height"},
    "clash": {"TWS": "TWS", "lat": "lat", "gust": "gust"},
    "order": {"z": "z", "a": "a", "BSP": "BSP", "rhum": "humidity"},
}


def weather_of(keys, i):
    return {k: 100.0 * (j + 1) + i for j, k in enumerate(keys)}


def patterns(tier):
    top = 9 if tier == "thorough" else 7
    for n in range(0, top + 1):
        for p in itertools.product((1, 0), repeat=n):
            for mode in ("delete", "ignore", "default"):
                for ks in KEYSETS:
                    if n == top and ks not in ("clash", "three"):
                        continue
                    yield [list(p), mode, ks]


@R.scenario(patterns)
def rows(ctx, case):
    """Every pattern of answered and unanswered rows."""
    p, mode, ks = case
    n = len(p)
    names = KEYSETS[ks]
    for order, voyage in itertools.product(range(3 if n < 4 else 1), ("under way", "moored", "two places", "one time", "one latitude") if n < 6 else ("under way", "moored")):
        answers = [weather_of(names, i) if a else None for i, a in enumerate(p)]
        cols = rows_of(n)
        if voyage == "moored":
            cols.update(lat=[54.5] * n, lon=[10.25] * n)
        elif voyage == "two places":
            cols.update(lat=[54.5 + i % 2 for i in range(n)], lon=[10.25] * n)
        elif voyage == "one time":
            cols.update(datetime=[T0] * n)
        elif voyage == "one latitude":
            cols.update(datetime=[T0] * n, lat=[54.5] * n)
        model = Logged(answers, list(zip(cols["datetime"], cols["lat"], cols["lon"])))
        ex = WeatherExpander(model) if mode == "default" else WeatherExpander(model, exception_handling_mode=mode)
        out = ex.expand(data_of(cols, order))
        check(sorted(set(model.asked)) == sorted((t, la, lo) for t, la, lo in zip(cols["datetime"], cols["lat"], cols["lon"])), f"{case}: asked for {model.asked}")
        if mode != "ignore":
            keep = [i for i in range(n) if p[i]]
            cols = {k: [v[i] for i in keep] for k, v in cols.items()}
            answers = [answers[i] for i in keep]
        if any(p):
            expanded(out, cols, answers, names, f"{case}, {voyage}")
        else:
            aligned(out, len(cols["datetime"]), f"{case}")
            for k in cols:
                check(list(out[k]) == cols[k], f"{case}: column {k} became {out[k]}")
            for k in out.keys():
                check(k in cols or all(v is None for v in out[k]), f"{case}: weather {k} = {out[k]} without an answer")
        st = ex.get_latest_statistics()
        check(st["n_rows"] == out.n_rows and st["n_cols"] == out.n_cols, f"{case}: statistics {st}")
        ctx.step(n + 1)
    return sorted(out.keys()), out.n_rows


@R.scenario([[list(p), list(q), mode] for n in (1, 2, 3, 4) for p in itertools.product((0, 1, 2, 3), repeat=n) for q in [[0] * n] for mode in ("delete", "ignore")])
def partial(ctx, case):
    """Points for which a model knows some of the attributes only."""
    p, _, mode = case
    full = {"temp": "temp", "gust": "gust"}
    answers = [{k: v for j, (k, v) in enumerate(weather_of(full, i).items()) if a & (1 << j)} for i, a in enumerate(p)]
    cols = rows_of(len(p))
    out = WeatherExpander(Logged(answers), mode).expand(data_of(cols))
    known = {k: s for k, s in full.items() if any(k in a for a in answers)}
    check(all(k in cols or k in full for k in out.keys()), f"{case}: columns {out.keys()}")
    expanded(out, cols, answers, known, f"{case}") if len(known) == sum(k not in cols for k in out.keys()) else fail_if_values(out, cols, known, case)
    ctx.step(len(p))
    return sorted(known)


def fail_if_values(out, cols, known, case):
    for k in out.keys():
        check(k in cols or k in known or all(v is None for v in out[k]), f"{case}: {k} = {out[k]}")
    aligned(out, len(cols["datetime"]), f"{case}")
    for k in known:
        check(k in out, f"{case}: {k} is missing")


LATS, LONS = [50.0, 51.0, 52.0, 53.0], [-9.0, -6.0, -3.0, 0.0]
GT = [T0 + timedelta(minutes=m) for m in (0, 2, 4)]


def value(j, t, la, lo):
    return (j + 1) * (1 + (t - T0).total_seconds() / 60) + 2 * la - lo * (j + 0.5)


def gridded(keys):
    return GriddedWeatherModel([[[[value(j, t, la, lo) for j in range(len(keys))] for lo in LONS] for la in LATS] for t in GT], GT, LATS, LONS, keys)


POINTS = [(0, 50.0, 0.0), (1, 50.5, -1.5), (4, 53.0, -9.0), (5, 51.0, -3.0), (3, 49.0, -3.0), (2, 52.25, 1.0), (2, 52.0, -4.5)]


@R.scenario(lambda t: [[list(o), mode, kind] for n in range(1, 5 if t != "thorough" else 6) for o in itertools.permutations(range(len(POINTS)), n) for mode in ("delete", "ignore") for kind in ("grid", "multi", "strict")
                       if n < 5 or kind == "grid"])
def models(ctx, case):
    """The library's own models, inside and outside their grid."""
    o, mode, kind = case
    pts = [POINTS[i] for i in o]
    keys = ["temp", "TWS"]
    model = gridded(keys)
    if kind != "grid":
        model = MultiWeatherModel(gridded(["temp"]), gridded(["junk", "TWS"]), exception_sensitive=kind == "strict")
    cols = {"BSP": [float(i) for i in o], "lon": [p[2] for p in pts], "datetime": [T0 + timedelta(minutes=p[0]) for p in pts], "lat": [p[1] for p in pts]}
    out = WeatherExpander(model, mode).expand(data_of(cols))
    inside = [0 <= p[0] <= 4 and 50 <= p[1] <= 53 and -9 <= p[2] <= 0 for p in pts]
    want = [{k: value(j, T0 + timedelta(minutes=p[0]), p[1], p[2]) for j, k in enumerate(keys)} if i else {} for p, i in zip(pts, inside)]
    if mode == "delete" and kind != "multi":
        cols = {k: [x for x, i in zip(v, inside) if i] for k, v in cols.items()}
        want = [w for w, i in zip(want, inside) if i]
    aligned(out, len(want), f"{case}")
    for k, v in cols.items():
        check(list(out[k]) == v, f"{case}: column {k} became {out[k]}")
    for k in keys:
        for i, w in enumerate(want):
            got = out[k][i] if k in out else None
            check((got is None) == (not w), f"{case}: {k} of row {i} is {got}")
            if w:
                same(got, w[k], f"{case}: {k} of row {i}")
    ctx.step(len(o))
    return [len(want), sum(map(bool, want))]


@R.scenario([[list(o), mode] for o in itertools.product(range(4), repeat=3) for mode in ("delete", "ignore")])
def reuse(ctx, case):
    """One expander for several data sets; expanding expanded data."""
    order, mode = case
    sets = [((1, 1), 0), ((0, 1, 1), 2), ((1, 0), 5), ((1,), 7)]
    answers = [None] * 8
    for p, s in sets:
        for i, a in enumerate(p):
            answers[s + i] = weather_of(["temp", "BSP"], s + i) if a else None
    ex = WeatherExpander(Logged(answers), mode)
    outs = []
    for k in order:
        p, s = sets[k]
        cols = rows_of(len(p), s)
        w = answers[s:s + len(p)]
        if mode == "delete":
            cols = {key: [x for x, a in zip(v, p) if a] for key, v in cols.items()}
            w = [x for x in w if x is not None]
        out = ex.expand(data_of(rows_of(len(p), s)))
        outs.append((out, cols, w))
        for o in outs:
            expanded(*o, {"temp": "temp", "BSP": "BSP"}, f"{case}")
        ctx.step(len(p))
    out, cols, w = outs[0]
    before = table(out)
    again = ex.expand(out)
    aligned(again, len(cols["datetime"]), f"{case}: expanded twice")
    for k, v in before.items():
        check(list(again[k]) == v, f"{case}: expanding again changed {k}")
    new = [k for k in again.keys() if k not in before]
    check(len(new) == 2, f"{case}: second expansion added {new}")
    for key in ("temp", "BSP"):
        cand = [k for k in new if k.startswith(key)]
        check(len(cand) == 1, f"{case}: {cand}")
        check(list(again[cand[0]]) == [x[key] if x else None for x in w], f"{case}: second {key}")
    return case


@R.scenario([[n] for n in range(5)])
def lazy(ctx, case):
    cols = rows_of(case[0])
    ex = LazyExpander()
    out = ex.expand(data_of(cols))
    check(table(out) == cols, f"{case}: {table(out)}")
    check(ex.get_latest_statistics()["n_rows"] == case[0] and ex.get_latest_statistics()["n_cols"] == len(cols), f"{case}: statistics")
    ctx.step()
    return case


# ------------------------------------------------------- rows close together
@R.scenario([[list(p), unit, mode] for n in (2, 3, 4) for p in itertools.product((0, 1, 2), repeat=n) for unit in ("microsecond", "millisecond", "second", "place", "tiny place") for mode in ("delete", "ignore")])
def rows_close_together(ctx, case):
    """Each row has the weather of exactly its own time and place."""
    p, unit, mode = case
    dt = {"microsecond": timedelta(microseconds=1), "millisecond": timedelta(milliseconds=1), "second": timedelta(seconds=1)}.get(unit, timedelta(0))
    dx = {"place": 2.0 ** -10, "tiny place": 2.0 ** -36}.get(unit, 0.0)
    pts = [(T0 + dt * k, 50.0 + dx * k, -3.0 - dx * (k % 2)) for k in p]
    answers = {q: {"temp": 10.0 + i, "gust": 20.0 - i} for i, q in enumerate(dict.fromkeys(pts))}

    class Fine(WeatherModel):
        def get_weather(self, point):
            return dict(answers[tuple(point)])

    cols = {"datetime": [q[0] for q in pts], "lat": [q[1] for q in pts], "lon": [q[2] for q in pts], "BSP": [float(i) for i in range(len(p))]}
    out = WeatherExpander(Fine(), mode).expand(data_of(cols))
    expanded(out, cols, [answers[q] for q in pts], {"temp": "temp", "gust": "gust"}, f"{case}")
    ctx.step(len(p))
    return case


@R.scenario([[n, every, mode] for n in (40, 150, 300, 1100) for every in (1, 2, 3, 17, 2000) for mode in ("delete", "ignore")])
def many_rows(ctx, case):
    """Hundreds of rows, some without weather; the attributes appear late or early."""
    n, every, mode = case
    pts = {T0 + timedelta(minutes=i): i for i in range(n)}
    answers = [None if i % every == every - 1 and every > 1 else {"temp": float(i), **({"gust": -float(i)} if i > n // 2 or every == 2 else {})} for i in range(n)]

    class Table(WeatherModel):
        def get_weather(self, point):
            w = answers[pts[point[0]]]
            if w is None:
                raise ValueError("no weather")
            return dict(w)

    cols = {"datetime": list(pts), "lat": [i / 8 for i in range(n)], "lon": [-i / 8 for i in range(n)], "note": [f"n{i}" for i in range(n)]}
    out = WeatherExpander(Table(), mode).expand(data_of(cols))
    if mode == "delete":
        keep = [i for i in range(n) if answers[i]]
        cols = {k: [v[i] for i in keep] for k, v in cols.items()}
        answers = [answers[i] for i in keep]
    names = {k: k for k in ("temp", "gust") if any(w and k in w for w in answers)}
    expanded(out, cols, answers, names, f"{case}")
    ctx.step(n)
    return case
