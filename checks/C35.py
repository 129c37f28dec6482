"""C35: weather models read from NetCDF files and meteostat hold the recorded weather.

netCDF4 and meteostat are not installed; stand-ins with the interface of the
real modules serve the recorded values (in a file of arrays, a table of hours).
"""
import itertools
import sys
import types
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

FILES = {}


class Variable:
    """Interface of netCDF4.Variable."""

    def __init__(self, name, dims, values, units=None):
        self.name, self.dimensions = name, tuple(dims)
        self._v = np.ma.masked_array(np.array(values))
        self.dtype, self.shape, self.ndim, self.size = self._v.dtype, self._v.shape, self._v.ndim, self._v.size
        if units is not None:
            self.units = units

    def __getitem__(self, idx):
        return self._v[idx].copy() if isinstance(self._v[idx], np.ndarray) else self._v[idx]

    def __len__(self):
        return self.shape[0]

    def __array__(self, dtype=None):
        return np.array(self._v, dtype=dtype)

    def ncattrs(self):
        return ["units"] if hasattr(self, "units") else []

    def __str__(self):
        return f"<class 'netCDF4._netCDF4.Variable'>\n{self.dtype} {self.name}({', '.join(self.dimensions)})\n" + (
            f"    units: {self.units}\n" if hasattr(self, "units") else "") + f"unlimited dimensions: \ncurrent shape = {self.shape}\nfilling on, default _FillValue of 9.969209968386869e+36 used"

    __repr__ = __str__


class Dataset:
    """Interface of netCDF4.Dataset."""

    def __init__(self, filename, mode="r", **kw):
        spec = FILES[str(filename)]
        self.variables = {n: Variable(n, *v) for n, v in spec.items()}
        self.dimensions = {d: n for v in self.variables.values() for d, n in zip(v.dimensions, v.shape)}

    def __getitem__(self, name):
        try:
            return self.variables[name]
        except KeyError:
            raise IndexError(f"{name} not found in /") from None

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


STATIONS = {}


class Point:
    def __init__(self, lat, lon, alt=None):
        self.lat, self.lon, self._lat, self._lon, self.alt = lat, lon, lat, lon, alt


class Hourly:
    def __init__(self, loc, start=None, end=None, timezone=None, **kw):
        self.loc, self.start, self.end = loc, start, end

    def fetch(self):
        rows = STATIONS.get((float(self.loc.lat), float(self.loc.lon)), [])
        rows = [r for r in rows if self.start <= r[0] <= self.end]
        cols = ["temp", "wdir", "wspd"]
        df = pd.DataFrame([r[1:] for r in rows], columns=cols, index=pd.DatetimeIndex([r[0] for r in rows], name="time"))
        return df.astype(float)


sys.modules["netCDF4"] = types.ModuleType("netCDF4")
sys.modules["netCDF4"].Dataset, sys.modules["netCDF4"].Variable = Dataset, Variable
sys.modules["meteostat"] = types.ModuleType("meteostat")
sys.modules["meteostat"].Point, sys.modules["meteostat"].Hourly = Point, Hourly
for _name in [m for m in sys.modules if m == "hrosailing" or m.startswith("hrosailing.")]:
    del sys.modules[_name]  # imported again, with the stand-ins in place

from hrosailing.models import GriddedWeatherModel, MultiWeatherModel, NetCDFWeatherModel  # noqa: E402
from vf.core import Registry, check, raises  # noqa: E402

ID = "C35"
ASSUMPTIONS = [
    "netCDF4 and meteostat are replaced by stand-ins with their interface (not installed here); the reading of the binary format itself is theirs",
    "every place that meteostat knows has data for the same hours; places without any data may hold zeros or nothing, but no values of other places",
]
R = Registry()
START = datetime(2020, 2, 28, 18)
LATS, LONS, STEPS = [48.0, 50.0, 51.5, 54.25], [-3.0, 0.5, 1.0, 2.25], [0.0, 1.0, 3.0, 4.0]


def val(a, i, j, k, lvl=0):
    return float((5 * i + 3 * i * i + 7 * j * (i + 1) + 11 * k * (j + 2) + 13 * (a + 1) * (k + 1) + 17 * lvl) % 29) + 0.5 * a


def weights(nodes, x):
    if x in nodes:
        return [(nodes.index(x), 1.0)]
    for i in range(len(nodes) - 1):
        if nodes[i] < x < nodes[i + 1]:
            lam = (x - nodes[i]) / (nodes[i + 1] - nodes[i])
            return [(i, 1 - lam), (i + 1, lam)]
    raise AssertionError(x)


def expect(fn, p, steps, lats, lons):
    return sum(a * b * c * fn(i, j, k) for (i, a), (j, b), (k, c) in itertools.product(weights(steps, p[0]), weights(lats, p[1]), weights(lons, p[2])))


def probes(nodes):
    return list(nodes) + [(a + 3 * b) / 4 for a, b in zip(nodes, nodes[1:])]


UNITS = {
    "hours": ("hours since 2020-02-28 18:00", timedelta(hours=1), 1.0),
    "hours with seconds": ("hours since 2020-02-28 18:00:00", timedelta(hours=1), 1.0),
    "seconds": ("seconds since 2020-02-28 18:00:00", timedelta(seconds=1), 3600.0),
    "seconds without": ("seconds since 2020-02-28 18:00", timedelta(seconds=1), 3600.0),
    "fractions": ("hours since 2020-02-28 18:00", timedelta(hours=1), 1.0),
    "offset": ("hours since 2020-02-28 12:00:00", timedelta(hours=1), 1.0),
    "odd seconds": ("seconds since 2020-02-28 18:00:00", timedelta(seconds=1), 3600.0),
    "odd start": ("hours since 2020-02-28 17:59:27", timedelta(hours=1), 1.0),
}
NAMES = {"lat": ("latitude", "lat_0", "y"), "lon": ("longitude", "lon_0", "x"), "datetime": ("time", "time_0", "t")}


def variable(a, order, shape, flip, levels):
    """Values of attribute a with its dimensions in the given order."""
    out = np.empty([{"t": shape[0], "y": shape[1], "x": shape[2], "z": levels}[d] for d in order])
    for pos in np.ndindex(*out.shape):
        at = dict(zip(order, pos))
        i, j, k = at.get("t", 0), at.get("y", 0), at.get("x", 0)
        j = shape[1] - 1 - j if flip[0] and "y" in order else j
        k = shape[2] - 1 - k if flip[1] and "x" in order else k
        out[pos] = val(a, i, j, k, at.get("z", 0))
    return out


ORDERS = [list(p) for p in itertools.permutations("tyx")]


def netcdf_cases(tier):
    for order in ORDERS:
        for flip in itertools.product((0, 1), repeat=2):
            for shape in ((2, 3, 4), (3, 2, 2), (4, 4, 3)) + (((5, 3, 2), (2, 6, 5), (3, 5, 7)) if tier == "thorough" else ()):
                yield ["".join(order), list(flip), list(shape), "hours", 0, "float64"]
    for order in ("t", "y", "x", "ty", "yx", "xt", "ztyx", "tzyx", "yxtz", "xz"):
        for flip in itertools.product((0, 1), repeat=2):
            yield [order, list(flip), [2, 3, 2], "hours", 0, "float64"]
    for unit in UNITS:
        for names in range(3):
            for dtype in ("float64", "float32", "int32"):
                yield ["tyx", [1, 0], [3, 2, 3], unit, names, dtype]
                yield ["yxt", [0, 1], [3, 2, 3], unit, names, dtype]
    for shape in itertools.product((1, 2), repeat=3):
        yield ["tyx", [0, 0], list(shape), "seconds", 1, "float64"]


@R.scenario(netcdf_cases)
def netcdf(ctx, case):
    """All nodes and cells of every layout of a file."""
    order, flip, shape, unit, names, dtype = case
    text, step, factor = UNITS[unit]
    lat, lon, tm = NAMES["lat"][names], NAMES["lon"][names], NAMES["datetime"][names]
    dims = {"t": tm, "y": lat, "x": lon, "z": "level"}
    steps = [0.0, 0.25, 1.5, 4.0] if unit == "fractions" and dtype[0] == "f" else STEPS
    steps = [45 / 3600, 130 / 3600, 1.5, 4.0] if unit == "odd seconds" else [x - 33 / 3600 for x in STEPS] if unit == "odd start" else steps
    steps, lats, lons = (steps + [6.0])[:shape[0]], (LATS + [55.0, 57.5, 58.0])[:shape[1]], (LONS + [4.0, 4.5, 6.0])[:shape[2]]
    offset = 6.0 if unit == "offset" else 33 / 3600 if unit == "odd start" else 0.0
    path = "/file-" + "-".join(map(str, np.ravel(case[:1] + case[3:]))) + str(shape) + str(flip)
    zs = 3 if "z" in order else 1
    spec = {
        tm: ((tm,), np.round([(s + offset) * factor for s in steps], 6).astype(dtype), text),
        lat: ((lat,), (lats[::-1] if flip[0] else lats), "degrees_north"),
        lon: ((lon,), (lons[::-1] if flip[1] else lons), "degrees_east"),
        "u": ([dims[d] for d in order], variable(0, order, shape, flip, zs), "m/s"),
        "v wind": ([dims[d] for d in "tyx"], variable(1, "tyx", shape, flip, 1)),
    }
    spec = {"u": spec.pop("u"), **spec} if names == 2 else spec
    FILES.clear()
    FILES[path] = spec
    kw = {} if names == 0 else {"aliases": {"lat": lat, "lon": lon, "datetime": tm}}
    if "z" in order:
        m = NetCDFWeatherModel(path, **kw)
        raises(NotImplementedError, lambda: m.get_weather((START, lats[0], lons[0])), f"{case}: level without index")
    for lvl in range(zs):
        if "z" in order:
            kw["further_indices"] = {"level": lvl}
        given = {a: dict(b) for a, b in kw.items()}
        model = NetCDFWeatherModel(path, **kw)
        check(isinstance(model, GriddedWeatherModel), f"{case}: {type(model)}")
        t, la, lo = model.grid
        check(len(t) == len(steps) and all(abs(x - START - timedelta(hours=s)) <= timedelta(milliseconds=1 if dtype != "float32" else 20) for x, s in zip(t, steps)), f"{case}: times {t}")
        check([float(x) for x in la] == lats and [float(x) for x in lo] == lons, f"{case}: grid {la}, {lo}")
        check(sorted(model.attrs) == ["u", "v wind"], f"{case}: attributes {model.attrs}")

        def u(i, j, k):
            return val(0, i if "t" in order else 0, j if "y" in order else 0, k if "x" in order else 0, lvl)

        for p in itertools.product(probes(steps), probes(lats), probes(lons)):
            got = model.get_weather((START + timedelta(hours=p[0]), p[1], p[2]))
            check(set(got) == {"u", "v wind"}, f"{case}: weather {got}")
            for key, fn in (("u", u), ("v wind", lambda i, j, k: val(1, i, j, k))):
                want = expect(fn, p, steps, lats, lons)
                check(abs(float(got[key]) - want) < 1e-9 * (1 + abs(want)), "%s: %s at %s is %s instead of %s", case, key, p, got[key], want)
            ctx.step()
        for p in ((START + timedelta(hours=steps[0], seconds=-1), lats[0], lons[0]), (START, lats[-1] + 1e-6, lons[0]), (START, lats[0], lons[0] - 1e-6), (START + timedelta(days=300), lats[0], lons[0])):
            raises(ValueError, lambda: model.get_weather(p), f"{case}: outside at {p}")
        check({a: dict(b) for a, b in kw.items()} == given, f"{case}: arguments changed to {kw}")
    return case[:3]


@R.scenario([["minutes since 2020-02-28 18:00"], ["days since 2020-02-28"], ["hours since 28.02.2020"], ["hours since yesterday"], ["2020"]])
def units(ctx, case):
    """Times that cannot be interpreted are refused."""
    FILES.clear()
    FILES["/f"] = {"time": (("time",), [0, 1], case[0]), "latitude": (("latitude",), LATS), "longitude": (("longitude",), LONS), "u": (("time", "latitude", "longitude"), np.zeros((2, 4, 4)))}
    raises(NotImplementedError, lambda: NetCDFWeatherModel("/f"), f"time unit {case[0]}")
    ctx.step()


@R.scenario([[list(o), [f1, f2]] for o in itertools.product((0, 1), repeat=3) for f1, f2 in itertools.product((0, 1), repeat=2)])
def together(ctx, case):
    """Several open files do not influence each other."""
    order, flips = case
    FILES.clear()
    for n in (0, 1):
        fl = (flips[n], 1 - flips[n])
        FILES[f"/f{n}"] = {"time": (("time",), [n, n + 1.0, n + 3.0], UNITS["hours"][0]), "latitude": (("latitude",), LATS[:3][::-1] if fl[0] else LATS[:3]), "longitude": (("longitude",), LONS[:3][::-1] if fl[1] else LONS[:3]),
                           "ab"[n]: (("time", "latitude", "longitude"), variable(n, "tyx", (3, 3, 3), fl, 1))}
    models = [NetCDFWeatherModel("/f0"), NetCDFWeatherModel("/f1")]
    multi = MultiWeatherModel(*models)
    steps = [[0.0, 1.0, 3.0], [1.0, 2.0, 4.0]]
    for n in order:
        for p in itertools.product([1.0, 1.75, 3.0], [48.0, 50.5], [0.5, 0.75]):
            at = (START + timedelta(hours=p[0]), p[1], p[2])
            want = [expect(lambda i, j, k, m=m: val(m, i, j, k), p, steps[m], LATS[:3], LONS[:3]) for m in (0, 1)]
            got = models[n].get_weather(at)
            check(list(got) == ["ab"[n]] and abs(float(got["ab"[n]]) - want[n]) < 1e-9, "%s: %s instead of %s at %s", case, got, want[n], p)
            got = multi.get_weather(at)
            check(set(got) == {"a", "b"} and abs(float(got["a"]) - want[0]) < 1e-9 and abs(float(got["b"]) - want[1]) < 1e-9, "%s: together %s instead of %s", case, got, want)
            ctx.step(2)
    return case


# ---- meteostat -----------------------------------------------------------------
KEYS = [["temp"], ["wspd", "temp"], ["temp", "wdir", "wspd"], ["wdir"]]


@R.scenario([[list(c), k] for c in itertools.product(range(2), repeat=6) for k in (0, 2)])
def meteostat_gaps(ctx, case):
    """Hours without a value stay without a value, all others keep theirs."""
    gaps, ki = case
    keys = KEYS[ki]
    lats, lons = LATS[:1], LONS[:2]
    STATIONS.clear()
    for j in range(2):
        STATIONS[lats[0], lons[j]] = [(START + timedelta(hours=s), np.nan if gaps[3 * j + s] else val(0, s + 1, 0, j), val(1, s + 1, 0, j), val(2, s + 1, 0, j)) for s in range(3)]
    model = GriddedWeatherModel.from_meteostat(lats, lons, START, START + timedelta(hours=2), keys)
    idx = {"temp": 0, "wdir": 1, "wspd": 2}
    for s, j in itertools.product(range(3), range(2)):
        got = model.get_weather((START + timedelta(hours=s), lats[0], lons[j]))
        for k in keys:
            v = float(got[k])
            if k == "temp" and gaps[3 * j + s]:
                check(v != v, "%s: unknown %s reported as %s", case, k, v)
            else:
                check(v == val(idx[k], s + 1, 0, j), "%s: %s is %s", case, k, v)
        ctx.step()


def meteostat_cases(tier):
    for n, m, h, keys in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 4), range(4)):
        if n * m > (14 if tier == "thorough" else 9):
            gaps = [g for g in range(2 ** (n * m)) if bin(g).count("1") < 2]
        else:
            gaps = range(2 ** (n * m) - 1)
        for gap in gaps:
            yield [n, m, h, keys, gap]


@R.scenario(meteostat_cases)
def meteostat(ctx, case):
    """The fetched grid holds each place's values at each hour."""
    n, m, h, ki, gap = case
    keys = KEYS[ki]
    lats, lons = (LATS[:n], LONS[:m]) if ki != 1 else ([48.0001, 48.0004, 48.00123][:n], [-0.0007, 0.0, 0.00005][:m])
    STATIONS.clear()
    for i, j in itertools.product(range(n), range(m)):
        if gap >> (i * m + j) & 1:
            continue
        STATIONS[lats[i], lons[j]] = [(START + timedelta(hours=s), val(0, s + 1, i, j), val(1, s + 1, i, j), val(2, s + 1, i, j)) for s in range(-2, h + 3)]
    before = list(lats), list(lons), list(keys)
    model = GriddedWeatherModel.from_meteostat(lats, lons, START, START + timedelta(hours=h - 1), keys)
    check((lats, lons, keys) == before, f"{case}: arguments changed")
    t, la, lo = model.grid
    check([pd.Timestamp(x) for x in t] == [pd.Timestamp(START + timedelta(hours=s)) for s in range(h)], f"{case}: times {t}")
    check(list(la) == lats and list(lo) == lons and list(model.attrs) == keys, f"{case}: grid {model.grid} {model.attrs}")
    check(np.shape(model.data) == (h, n, m, len(keys)), f"{case}: data of shape {np.shape(model.data)}")
    idx = {"temp": 0, "wdir": 1, "wspd": 2}
    for s, i, j in itertools.product(range(h), range(n), range(m)):
        if gap >> (i * m + j) & 1:
            got = model.get_weather((START + timedelta(hours=s), lats[i], lons[j]))
            check(set(got) == set(keys) and all(v != v or float(v) == 0.0 for v in got.values()), "%s: weather %s at a place without data", case, got)
            ctx.step()
            continue
        got = model.get_weather((START + timedelta(hours=s), lats[i], lons[j]))
        want = {k: val(idx[k], s + 1, i, j) for k in keys}
        check({k: float(v) for k, v in got.items()} == want, "%s: weather %s instead of %s", case, got, want)
        ctx.step()
    return case
