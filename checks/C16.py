"""C16: saved weather grids are restored identically."""
import itertools
import os
from datetime import datetime, timedelta, timezone
from pathlib import Path

import numpy as np
import pandas as pd

from hrosailing.models import GriddedWeatherModel
from vf.core import Registry, check, fail, raises

ID = "C16"
ASSUMPTIONS = ["files are written and read by the library; attribute names are strings"]
R = Registry()

STAMPS = {
    "hours": [datetime(2021, 6, 1, h) for h in (0, 12, 23)],
    "seconds": [datetime(2021, 12, 31, 23, 59, 58), datetime(2021, 12, 31, 23, 59, 59), datetime(2022, 1, 1)],
    "micro": [datetime(2021, 1, 2, 3, 4, 5, 1), datetime(2021, 1, 2, 3, 4, 5, 2), datetime(2021, 1, 2, 3, 4, 5, 500000)],
    "days": [datetime(2021, 1, 2), datetime(2021, 2, 1), datetime(2021, 12, 3)],
    "years": [datetime(999, 1, 1), datetime(1999, 12, 31, 13), datetime(2400, 2, 29)],
    "stamp": [pd.Timestamp(2021, 6, 1, 13, 30, 15), pd.Timestamp(2021, 6, 1, 13, 30, 15, 250000), pd.Timestamp(2021, 6, 2)],
    "aware": [datetime(2021, 6, 1, h, tzinfo=timezone(timedelta(hours=2))) for h in (1, 2, 13)],
    "mixed": [datetime(2021, 6, 1), pd.Timestamp(2021, 6, 1, 7), datetime(2021, 6, 1, 7, 0, 0, 5)],
}
LATS = {"simple": [0.0, 1.0, 2.0], "fine": [-89.99999999999999, 1 / 3, 2 / 3], "ints": [-1, 0, 7]}
VALUES = {
    "plain": [0.0, 1.5, -2.0, 3.0],
    "odd": [1 / 3, 1e-300, -1.7976931348623157e308, 0.1],
    "nan": [float("nan"), 1.0, float("inf"), -0.0],
    "int": [1, 2, 3, 4],
}
ATTRS = [["TWS"], ["TWA", "TWS"], ["waves é", "\"quoted\"", "a,b", "TWS"]]


def build(stamps, lats, values, attrs, shape, shift=0):
    n, m, r = shape
    vals = VALUES[values]
    size = n * m * r * len(attrs)
    flat = [vals[(i * i + 3 * i + shift) % len(vals)] + (i if values != "odd" else 0) for i in range(size)]
    data = np.array(flat).reshape(n, m, r, len(attrs))
    return data, STAMPS[stamps][:n], LATS[lats][:m], [x + 10 for x in LATS[lats][:r]], attrs


def equal(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def compare(model, parts, what):
    data, times, lats, lons, attrs = parts
    t, la, lo = model.grid
    check(list(t) == list(times) and [x.utcoffset() for x in t] == [x.utcoffset() for x in times], "%s: times %s instead of %s", what, t, times)
    check(equal(la, lats) and equal(lo, lons), "%s: latitudes %s, longitudes %s instead of %s, %s", what, la, lo, lats, lons)
    check(list(model.attrs) == list(attrs), "%s: attributes %s instead of %s", what, model.attrs, attrs)
    got = np.asarray(model.data, dtype=float)
    check(got.shape == data.shape and equal(got, data), "%s: values %s instead of %s", what, got.tolist(), data.tolist())
    check(np.array_equal(np.signbit(got), np.signbit(np.asarray(data, dtype=float))), "%s: sign of zero lost", what)


def queries(times, lats, lons):
    ts = [times[0], times[-1], times[0] + (times[-1] - times[0]) / 2]
    return itertools.product(ts, {lats[0], (lats[0] + lats[-1]) / 2}, {lons[-1], (lons[0] + lons[-1]) / 2})


@R.scenario(lambda tier: [
    (st, la, va, at, sh) for st in STAMPS for la in LATS for va in VALUES for at in range(3)
    for sh in list(itertools.product((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3), repeat=3))])
def roundtrip(ctx, case):
    """One model written and read once and twice."""
    st, la, va, at, shape = case
    parts = build(st, la, va, ATTRS[at], shape)
    model = GriddedWeatherModel(*parts)
    path = "wm.json" if at else Path("wm dir.json")
    model.to_file(path)
    compare(model, parts, "model after saving")
    back = GriddedWeatherModel.from_file(path)
    check(type(back) is GriddedWeatherModel, "read a %s", type(back))
    compare(back, parts, "model read back")
    ctx.step(2)
    for q in queries(*parts[1:4]):
        a, b = model.get_weather(q), back.get_weather(q)
        check(list(a) == list(b) and equal(list(a.values()), list(b.values())), "weather at %s is %s after reading back instead of %s", q, b, a)
        ctx.step()
    back.to_file("again.json")
    compare(GriddedWeatherModel.from_file("again.json"), parts, "model read back twice")
    os.remove(path)
    os.remove("again.json")


OPS = ["save0", "save1", "save0b", "load", "loadb", "drop"]


@R.scenario(lambda tier: [(ops, st) for ops in itertools.product(OPS, repeat=5 if tier == "thorough" else 4) for st in ("seconds", "micro", "hours")])
def interleaved(ctx, case):
    """Interleavings of saving and loading two models in two files."""
    ops, st = case
    models = [build(st, "simple", "plain", ATTRS[0], (2, 2, 2)), build(st, "ints", "int", ATTRS[1], (3, 1, 2), 1)]
    files, loaded = {}, []
    for f in ("a.json", "b.json"):
        if os.path.exists(f):
            os.remove(f)
    for op in ops:
        ctx.step()
        if op.startswith("save"):
            i = int(op[4])
            f = "b.json" if op.endswith("b") else "a.json"
            GriddedWeatherModel(*models[i]).to_file(f)
            files[f] = i
        elif op == "drop":
            loaded.clear()
        else:
            f = "b.json" if op.endswith("b") else "a.json"
            if f in files:
                loaded.append((files[f], GriddedWeatherModel.from_file(f)))
            else:
                raises((OSError, ValueError), lambda: GriddedWeatherModel.from_file(f), "reading a file that does not exist")
        for i, m in loaded:
            compare(m, models[i], f"{ops} model {i}")
    check(sorted(x for x in os.listdir(".") if x in ("a.json", "b.json")) == sorted(files), "files %s", os.listdir("."))


@R.scenario([[t, la, lo, at] for t, la, lo, at in [(1, 1, 150, 2), (150, 1, 2, 1), (2, 130, 3, 1), (3, 3, 3, 60), (12, 11, 13, 3), (300, 2, 2, 2), (1, 40, 40, 1), (50, 5, 6, 8)]])
def large_models(ctx, case):
    """Long axes, many attributes, values and places with all their digits."""
    t, la, lo, at = case
    times = [datetime(2021, 1, 1) + timedelta(seconds=1.000001 * i * i + i) for i in range(t)]
    lats = [-80 + 160 * (i + 1 / 3) / la for i in range(la)]
    lons = [-170 + 340 * (i + 1 / 7) / lo for i in range(lo)]
    attrs = [f"attribute {i}" for i in range(at)]
    vals = np.sin(np.arange(t * la * lo * at) * 1.2345).reshape(t, la, lo, at) * np.exp(np.arange(at) - at / 2)
    parts = (vals, times, lats, lons, attrs)
    model = GriddedWeatherModel(*parts)
    model.to_file("large.json")
    back = GriddedWeatherModel.from_file("large.json")
    os.remove("large.json")
    ctx.step(2)
    compare(back, parts, f"model of shape {case}")
    for i in range(5):
        q = (times[0] + (times[-1] - times[0]) * i / 4, lats[0] + (lats[-1] - lats[0]) * i / 5, lons[0] + (lons[-1] - lons[0]) * i / 6)
        a, b = model.get_weather(q), back.get_weather(q)
        check(list(a) == list(b) and equal(list(a.values()), list(b.values())), "weather at %s is %s after reading back instead of %s", q, b, a)
