"""C15: gridded weather is interpolated from the surrounding grid nodes only."""
import itertools
import math
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd

from hrosailing.models import (
    GriddedWeatherModel,
    MultiWeatherModel,
    WeatherModel,
)
from vf.core import Registry, check, close, fail, raises, same

ID = "C15"
ASSUMPTIONS = [
    "grids have strictly increasing coordinates along every axis",
    "points outside are refused with ValueError; submodels that do not know a point are expected to say so with one of the documented exceptions",
]
R = Registry()

T0 = datetime(2021, 6, 1, 12)
HOURS = [0.0, 1.0, 3.5, 4.0]
LATS = [-1.5, 0.0, 0.5, 2.0]
LONS = [10.0, 10.25, 12.0, 179.0]
ATTRS = ["TWS", "TWA", "waves"]


def value(i, j, k, a):
    return ((7 * i + 3 * i * i + 11 * j * (i + 1) + 5 * k * (j + 2) * (i - 3) + 13 * a * (k + 1)) % 23) - 4.0 + 0.25 * a


def grid(shape, nattr, kind="datetime", int_values=False):
    n, m, r = shape
    data = [[[[value(i, j, k, a) for a in range(nattr)] for k in range(r)] for j in range(m)] for i in range(n)]
    if int_values:
        data = [[[[int(round(x)) for x in c] for c in b] for b in a] for a in data]
    base = {"datetime": T0, "timestamp": pd.Timestamp(T0), "aware": T0.replace(tzinfo=timezone.utc)}[kind]
    times = [base + timedelta(hours=h) for h in HOURS[:n]]
    return data, times, LATS[:m], LONS[:r], ATTRS[:nattr]


def axis_points(nodes):
    pts = []
    for i, x in enumerate(nodes):
        pts.append(x)
        if i + 1 < len(nodes):
            y = nodes[i + 1]
            pts += [x + 0.25 * (y - x), x + 0.5 * (y - x), x + 0.875 * (y - x)]
    return pts


def locate(nodes, x):
    """Indices and weights of the surrounding nodes."""
    if x in nodes:
        return [(nodes.index(x), 1.0)]
    for i in range(len(nodes) - 1):
        if nodes[i] < x < nodes[i + 1]:
            lam = (x - nodes[i]) / (nodes[i + 1] - nodes[i])
            return [(i, 1 - lam), (i + 1, lam)]
    return None


def reference(data, shape, point):
    h, la, lo = point
    sides = [locate(HOURS[:shape[0]], h), locate(LATS[:shape[1]], la), locate(LONS[:shape[2]], lo)]
    if any(s is None for s in sides):
        return None, None
    corners = [(data[i][j][k], a * b * c) for (i, a), (j, b), (k, c) in itertools.product(*sides)]
    n = len(corners[0][0])
    vals = [sum(d[x] * w for d, w in corners) for x in range(n)]
    hull = [(min(d[x] for d, w in corners), max(d[x] for d, w in corners)) for x in range(n)]
    return vals, hull


def ask(model, times, point, cast=float):
    h, la, lo = point
    return model.get_weather((times[0] + timedelta(hours=h), cast(la), cast(lo)))


SHAPES = [s for s in itertools.product((1, 2, 3), repeat=3)]


@R.scenario(lambda tier: [
    (s, a, kind, ints) for s in (SHAPES + [(4, 4, 4), (4, 2, 3), (2, 4, 1)] + ([(5, 2, 2), (2, 5, 3), (3, 3, 5), (5, 5, 1)] if tier == "thorough" else [])) for a in (1, 3)
    for kind, ints in ([("datetime", False), ("timestamp", False), ("aware", True)])])
def nodes_and_cells(ctx, case):
    """Every node, edge, face and cell point and points outside of every small grid."""
    shape, nattr, kind, ints = case
    data, times, lats, lons, attrs = grid(shape, nattr, kind, ints)
    model = GriddedWeatherModel(data, times, lats, lons, attrs)
    axes = [axis_points(HOURS[:shape[0]]), axis_points(lats), axis_points(lons)]
    for n, point in enumerate(itertools.product(*axes)):
        want, hull = reference(data, shape, point)
        got = ask(model, times, point, (float, np.float64)[n % 2])
        ctx.step()
        check(isinstance(got, dict) and list(got) == attrs, "weather attributes %s instead of %s", list(got), attrs)
        for a, w, (lo, hi) in zip(attrs, want, hull):
            check(abs(got[a] - w) <= 1e-9 and lo - 1e-9 <= got[a] <= hi + 1e-9, "%s at %s of grid %s is %s instead of %s", a, point, shape, got[a], w)
    inside = [c[len(c) // 2] for c in axes]
    for dim, nodes in enumerate((HOURS[:shape[0]], lats, lons)):
        gap = 1e-3 if dim == 0 else 1e-9
        for out in (nodes[0] - gap, nodes[0] - 5, nodes[-1] + gap, nodes[-1] + 5):
            for rest in itertools.product(*[[c[0], c[-1], m] for c, m in zip(axes, inside)]):
                p = list(rest)
                p[dim] = out
                raises(ValueError, lambda: ask(model, times, p), f"weather at {p} outside the grid {shape}")
                ctx.step()
    # the model describes its grid
    t, la, lo = model.grid
    check(list(t) == times and list(la) == lats and list(lo) == lons, "grid is %s, %s, %s", t, la, lo)
    check(list(model.attrs) == attrs and np.asarray(model.data).tolist() == data, "data of the model changed")
    return shape


@R.scenario(lambda tier: [(s, i) for s in ((2, 2, 2), (3, 2, 1), (1, 3, 2), (3, 3, 3)) for i in range(4)])
def independent(ctx, case):
    """Pairs of queries, other models and later changes of inputs have no influence."""
    shape, which = case
    data, times, lats, lons, attrs = grid(shape, 3)
    model = GriddedWeatherModel(data, times, lats, lons, attrs)
    other_data = (np.asarray(data) + 100).tolist()
    other = GriddedWeatherModel(other_data, times, lats, lons, attrs)
    axes = [axis_points(HOURS[:shape[0]]), axis_points(lats), axis_points(lons)]
    pts = list(itertools.product(*[[c[0], c[1 % len(c)], c[-1]] for c in axes]))
    if which == 0:
        for p in pts:
            for q in pts:
                first = ask(model, times, p)
                first[attrs[0]] = 1e6
                ask(other, times, q)
                got = ask(model, times, q)
                want, _ = reference(data, shape, q)
                ctx.step()
                check(all(abs(got[a] - w) < 1e-9 for a, w in zip(attrs, want)), "asked for %s and then %s: %s instead of %s", p, q, got, want)
        for q in pts:
            raises(ValueError, lambda: ask(model, times, (-50, 0, 0)), "weather outside")
            got = ask(model, times, q)
            want, _ = reference(data, shape, q)
            check(all(abs(got[a] - w) < 1e-9 for a, w in zip(attrs, want)), "%s after a refused query", got)
        return
    keep_t, keep_data = list(times), [[[list(c) for c in b] for b in a] for a in data]
    keep_attrs = list(attrs)
    if which == 1:
        ins = (data, times, lats, lons, attrs)
        model = GriddedWeatherModel(*ins)
        data[0][0][0][0] = 999.0
        times[0] = T0 - timedelta(days=9)
        lats[0] = -80.0
        lons[0] = -170.0
        attrs[0] = "x"
    elif which == 2:
        ins = (np.asarray(data), times, np.asarray(lats), np.asarray(lons), attrs)
        model = GriddedWeatherModel(*ins)
        ins[0][:] = 0
        ins[2][:] = 0
        ins[3][:] = 0
    else:
        t, la, lo = model.grid
        t[0] = T0 - timedelta(days=9)
        la[:] = 0
        lo[:] = 0
        model.attrs[0] = "y"
        model.data[:] = 0
    for q in pts:
        got = ask(model, keep_t, q)
        want, _ = reference(keep_data, shape, q)
        ctx.step()
        check(list(got) == keep_attrs and all(abs(got[a] - w) < 1e-9 for a, w in zip(keep_attrs, want)), "weather at %s is %s instead of %s after changing what was passed or returned", q, got, want)


class Known(WeatherModel):
    def __init__(self, answer, error=None):
        self.answer, self.error = answer, error
        self.asked = []

    def get_weather(self, point):
        self.asked.append(point)
        if self.error is not None:
            raise self.error("unknown")
        return self.answer


ERRORS = {"V": ValueError, "T": TypeError, "K": KeyError, "N": NotImplementedError}
ANSWERS = {"a": {"TWS": 1.0}, "b": {"TWA": 2.0, "waves": 0.5}, "c": {"TWS": 3.0, "TWA": 4.0}, "e": {}}


@R.scenario(lambda tier: [list(c) for n in range(0, 6 if tier == "thorough" else 5) for c in itertools.product([*ANSWERS, *ERRORS], repeat=n)])
def combined(ctx, case):
    """Combination of the answers of all submodels that know the point."""
    models = [Known(dict(ANSWERS[c])) if c in ANSWERS else Known(None, ERRORS[c]) for c in case]
    multi = MultiWeatherModel(*models)
    want = {}
    for c in case:
        want.update(ANSWERS.get(c, {}))
    for turn in range(2):
        got = multi.get_weather((T0, 1.0, 2.0))
        ctx.step()
        check(got == want, "submodels %s give %s instead of %s", case, got, want)
        got["TWS"] = -1
    for m, c in zip(models, case):
        check(all(p == (T0, 1.0, 2.0) for p in m.asked), "submodel asked for %s", m.asked)
        if c in ANSWERS:
            check(m.answer == ANSWERS[c], "answer of a submodel was changed to %s", m.answer)
    strict = MultiWeatherModel(*models, exception_sensitive=True)
    errs = [ERRORS[c] for c in case if c in ERRORS]
    if errs:
        raises(errs[0], lambda: strict.get_weather((T0, 1.0, 2.0)), f"exception sensitive combination of {case}")
    else:
        check(strict.get_weather((T0, 1.0, 2.0)) == want, "exception sensitive combination of %s", case)


class Crash(Exception):
    pass


@R.scenario([0])
def combined_other(ctx, case):
    """Other exceptions are not swallowed; overlapping gridded models."""
    for strict in (False, True):
        raises(Crash, lambda: MultiWeatherModel(Known({}), Known(None, Crash), exception_sensitive=strict).get_weather((T0, 0, 0)), "an unexpected exception of a submodel")
    d, t, la, lo, a = grid((3, 3, 3), 1)
    west = GriddedWeatherModel(d, t, la, lo, ["TWS"])
    east = GriddedWeatherModel((np.asarray(d) + 50).tolist(), t, la, [x + 1.9 for x in lo], ["TWS"])
    for models in itertools.permutations([west, east]):
        multi = MultiWeatherModel(*models)
        for x in (10.0, 11.0, 11.9, 11.95, 12.0, 12.1, 13.9, 14.0):
            got = multi.get_weather((t[0], 0.0, x))
            want = {}
            for m in models:
                try:
                    want = m.get_weather((t[0], 0.0, x))
                except ValueError:
                    pass
            ctx.step()
            check(got == want, "overlapping grids give %s instead of %s at %s", got, want, x)


# -------------------------------------------------- next to nodes, long axes
@R.scenario(lambda tier: [(d, e) for d in itertools.product((-1, 0, 1), repeat=3) for e in (-4, -5, -6, -7, -8, -9)])
def next_to_a_node(ctx, case):
    """A point next to a node of a steep field is interpolated, not taken as the node."""
    signs, e = case
    n = 5
    times = [T0 + timedelta(hours=i) for i in range(n)]
    lats = [-1.0 + 0.5 * j for j in range(n)]
    lons = [100.0 + 0.25 * k for k in range(n)]
    data = [[[[1e9 * ((i * i + 3 * j + 5 * k * j) % 7), 1e6 * ((2 * i + j * j + k) % 5)] for k in range(n)] for j in range(n)] for i in range(n)]
    model = GriddedWeatherModel(data, times, lats, lons, ["p", "q"])
    us = max(1, round(3600e6 * 10.0 ** e))
    for node in itertools.product((1, 2, 3), repeat=3):
        t = times[node[0]] + timedelta(microseconds=signs[0] * us)
        la = lats[node[1]] + signs[1] * 10.0 ** e
        lo = lons[node[2]] + signs[2] * 10.0 ** e
        got = model.get_weather((t, la, lo))
        ctx.step()
        fr = [(t - times[0]) / timedelta(hours=1), (la + 1) / 0.5, (lo - 100) / 0.25]
        low = [min(n - 2, math.floor(x)) for x in fr]
        lam = [x - b for x, b in zip(fr, low)]
        for a, name in enumerate(("p", "q")):
            want = sum(
                math.prod(m if s else 1 - m for s, m in zip(c, lam)) * data[low[0] + c[0]][low[1] + c[1]][low[2] + c[2]][a]
                for c in itertools.product((0, 1), repeat=3))
            check(abs(got[name] - want) <= 1e-2, "%s at %s + %s is %r instead of %r", name, node, [signs, e], got[name], want)


@R.scenario(lambda tier: [list(s) for s in ((40, 30, 35), (300, 3, 3), (2, 300, 2), (2, 3, 400), (1, 1, 700), (1200, 1, 1))])
def long_axes(ctx, case):
    """Grids with many nodes along an axis."""
    n, m, r = case
    times = [T0 + timedelta(hours=i) for i in range(n)]
    lats = [-75.0 + 150 * j / m for j in range(m)]
    lons = [-170.0 + 340 * k / r for k in range(r)]
    data = np.arange(n * m * r * 2, dtype=float).reshape(n, m, r, 2)
    data = data * 7919 % 1013
    model = GriddedWeatherModel(data, times, lats, lons, ["p", "q"])

    def around(size):
        step = max(1, size // 13)
        out = [(i, 0.0) for i in [*range(0, size, step), size - 1]]
        return out + [(i, 0.25) for i in [*range(0, size - 1, step), size - 2] if i + 1 < size and i >= 0]

    for (i, a), (j, b), (k, c) in itertools.product(around(n), around(m), around(r)):
        if (a > 0) + (b > 0) + (c > 0) == 1 and (i + j + k) % 3 and n * m * r > 5000:
            continue
        hi = [min(x + 1, s - 1) for x, s in ((i, n), (j, m), (k, r))]
        p = (times[i] + timedelta(hours=a), lats[j] + b * (lats[hi[1]] - lats[j]), lons[k] + c * (lons[hi[2]] - lons[k]))
        got = model.get_weather(p)
        ctx.step()
        for x, name in enumerate(("p", "q")):
            want = sum(
                w * data[u, v, s, x]
                for u, wu in ((i, 1 - a), (hi[0], a)) for v, wv in ((j, 1 - b), (hi[1], b)) for s, wl in ((k, 1 - c), (hi[2], c))
                for w in (wu * wv * wl,))
            check(abs(got[name] - want) <= 1e-6, "%s at %s of a %s grid is %s instead of %s", name, (i + a, j + b, k + c), case, got[name], want)
