"""C11: slices sample a diagram at exactly the requested winds."""
import itertools
import math

import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from hrosailing.processing import ArithmeticMeanInterpolator, IDWInterpolator
from vf.core import Registry, check, raises, same

ID = "C11"
ASSUMPTIONS = ["cloud slices without interpolator are the recorded points near the wind speed, in recorded order"]
R = Registry()

WS, WA = [4.0, 6.0, 9.0, 14.0], [0.0, 35.0, 90.0, 140.0, 180.0, 275.0]


def f(ws, wa, a, b):
    return a + b * np.asarray(ws) * np.sin(np.asarray(wa, dtype=float) / 2 + 0.1)


def diagram(k):
    if k == "table":
        return PolarDiagramTable(WS, WA, [[1 + i + 0.5 * j + 0.1 * i * j for j in range(4)] for i in range(6)])
    if k == "small":
        return PolarDiagramTable([8.0], [90.0], [[5.5]])
    if k == "cloud":
        return PolarDiagramPointcloud([[s + (0.25 if a > 100 else 0), a, 1 + s / 4 + a / 100] for s in WS for a in WA[::-1]])
    if k == "curve":
        return PolarDiagramCurve(f, 1.0, 0.5)
    if k == "radians":
        return PolarDiagramCurve(f, 2.0, 0.25, radians=True)
    return PolarDiagramMultiSails([diagram("table"), diagram("curve"), diagram("cloud")], ["a", "b", "c"])


KINDS = ["table", "small", "cloud", "curve", "radians", "sails"]
LISTS = [[6.0], [4, 9], [9.0, 4.0], [5.5, 7.25, 13.0], [14, 6, 6, 10], [4.0, 6.0, 9.0, 14.0], [2.5, 3], [0.0, 20.0], [6.03, 9.0001, 13.99], [5.9999999]]
FORMS = ["list", "tuple", "array", "range", "generator", "scalar", "npscalar"]


def steps(ws, n):
    if n is None:
        return [float(w) for w in ws]
    out = []
    for a, b in zip(ws, ws[1:]):
        out += [a + (b - a) * i / (n + 1) for i in range(n + 1)]
    return [float(w) for w in out] + [float(ws[-1])]


def forms(t):
    for k in KINDS:
        for ws in LISTS:
            for n in [None, 1, 2, 3, 7, 4, 5, 20] + ([6, 11, 50] if t == "thorough" else []):
                for form in ("list", "tuple", "array", "generator"):
                    yield [k, ws, form, n]
        for ws in ([4, 6, 8], [9, 7, 5], [5]):
            for n in (None, 2):
                yield [k, ws, "range", n]
        for w in (6, 6.0, 9, 7.25):
            yield [k, [w], "scalar", None]
            yield [k, [w], "scalar", 3]


@R.scenario(forms)
def requests(ctx, case):
    """Every form of asking for wind speeds yields exactly these slices in this order."""
    k, ws, form, n = case
    pd = diagram(k)
    arr = None
    if form == "tuple":
        arg = tuple(ws)
    elif form == "array":
        arg = arr = np.array(ws)
    elif form == "range":
        arg = range(ws[0], ws[-1] + (1 if ws[0] <= ws[-1] else -1), (ws[1] - ws[0]) if len(ws) > 1 else 1)
    elif form == "generator":
        arg = (w for w in list(ws))
    elif form == "scalar":
        arg = ws[0]
    else:
        arg = list(ws)
    kw = {} if n is None else {"n_steps": n}
    exp = steps(ws, n) if form != "scalar" else [float(ws[0])]
    labels, slices = pd.get_slices(arg, **kw)
    same(list(labels), exp, "wind speeds of the slices")
    check(len(slices) == len(exp), "%s slices for %s wind speeds", len(slices), len(exp))
    if arr is not None:
        check(np.array_equal(arr, ws), "the requested wind speeds were modified")
    elif form == "list":
        check(arg == ws, "the requested wind speeds were modified")
    direct = pd.ws_to_slices(exp)
    for w, s, d in zip(exp, slices, direct):
        s = np.asarray(s, dtype=float)
        check(s.ndim == 2 and s.shape[0] == 3, "slice has shape %s", s.shape)
        same(s, np.asarray(d, dtype=float), f"slice at {w} on its own")
        verify(pd, k, w, s)
        ctx.step()
    full = pd.get_slices(list(ws) if form != "scalar" else ws[0], full_info=True, **kw)
    check(len(full) == 3, "full info")
    same(list(full[0]), exp, "wind speeds with full info")
    for s, t in zip(slices, full[1]):
        same(np.asarray(s), np.asarray(t), "slices with full info")
    return [len(exp), [np.asarray(s).shape[1] for s in slices]]


def verify(pd, k, w, s):
    if k in ("table", "small"):
        same(s[0], np.full(len(s[0]), w), f"wind speeds of the slice at {w}")
        same(s[1], pd.wind_angles, f"wind angles of the slice at {w}")
        same(s[2], [pd(w, a) for a in pd.wind_angles], f"boat speeds of the slice at {w}")
    elif k in ("curve", "radians"):
        same(s[0], np.full(100, w), f"wind speeds of the slice at {w}")
        same(s[1], np.linspace(0, 360, 100), f"wind angles of the slice at {w}")
        u = np.deg2rad(s[1]) if k == "radians" else s[1]
        same(s[2], [float(pd(w, a)) for a in u], f"boat speeds of the slice at {w}")
    elif k == "cloud":
        exp = sorted(map(tuple, [p for p in np.asarray(pd.points).tolist() if abs(p[0] - w) <= 1]))
        check(sorted(map(tuple, s.T.tolist())) == exp, "slice at %s: %s, recorded %s", w, s.T, exp)
    else:
        n = 0
        for name, part in zip(("table", "curve", "cloud"), pd.diagrams):
            p = np.asarray(part.get_slices(float(w))[1][0], dtype=float)
            n += p.shape[1]
            rows = set(map(tuple, np.round(s.T, 9).tolist()))
            check(set(map(tuple, np.round(p.T, 9).tolist())) <= rows, "the slice at %s misses points of %s", w, name)
        check(s.shape[1] == n, "slice at %s has %s points, the sails have %s", w, s.shape[1], n)


@R.scenario([[k, n] for k in KINDS for n in (None, 1, 2)])
def defaults(ctx, case):
    """Without a request the default slices are returned."""
    k, n = case
    pd = diagram(k)
    dflt = list(map(float, pd.default_slices))
    labels, slices = pd.get_slices() if n is None else pd.get_slices(n_steps=n)
    same(list(labels), steps(dflt, n), "default wind speeds")
    for w, s in zip(labels, slices):
        verify(pd, k, float(w), np.asarray(s, dtype=float))
    exp = {"table": WS, "small": [8.0], "cloud": np.linspace(4, 14.25, 20), "curve": np.linspace(5, 20, 16),
           "radians": np.linspace(5, 20, 16), "sails": np.linspace(4, 20, 20)}[k]
    same(dflt, exp, "default slices")
    ctx.step(len(labels))


@R.scenario([[k, n] for k in ("curve", "radians") for n in (1, 2, 5, 36, 99, 101, 256, 361, 500, 720, 1001)])
def resolution(ctx, case):
    """Curves are sampled at the requested number of angles."""
    k, n = case
    pd = diagram(k)
    for s in pd.get_slices([4.0, 7.0], wa_resolution=n)[1]:
        check(s.shape == (3, n), "shape %s", s.shape)
        same(s[1], np.linspace(0, 360, n), "angles")
        u = np.deg2rad(s[1]) if k == "radians" else s[1]
        same(s[2], [float(pd(s[0][0], a)) for a in u], "boat speeds")
        ctx.step()


@R.scenario([[k, i] for k in ("table", "small") for i in ("idw", "mean")])
def interpolator(ctx, case):
    """Tables use the given interpolator between their wind speeds."""
    k, i = case
    pd = diagram(k)
    it = IDWInterpolator(p=3) if i == "idw" else ArithmeticMeanInterpolator(params=(5,))
    for w, s in zip(*pd.get_slices([4.0, 5.0, 8.0, 13.5], interpolator=it)):
        same(s[0], np.full(len(s[0]), w), "wind speeds")
        same(s[1], pd.wind_angles, "wind angles")
        same(s[2], [pd(w, a, interpolator=it) for a in pd.wind_angles], "boat speeds")
        ctx.step()


@R.scenario([[k, b] for k in KINDS for b in range(8)])
def refused(ctx, case):
    """Requests that name no wind speeds are refused."""
    k, b = case
    pd = diagram(k)
    bad = [
        (TypeError, lambda: pd.get_slices("abc")),
        (TypeError, lambda: pd.get_slices([4.0, "6"])),
        (TypeError, lambda: pd.get_slices([4.0, None])),
        (ValueError, lambda: pd.get_slices([4.0, 6.0], n_steps=0)),
        (ValueError, lambda: pd.get_slices([4.0, 6.0], n_steps=-2)),
        (TypeError, lambda: pd.get_slices([[4.0, 6.0]])),
        ((TypeError, ValueError), lambda: pd.get_points([1.0, 2.0])),
        ((TypeError, ValueError), lambda: pd.get_points((1.0, 2.0, 3.0))),
    ]
    raises(*bad[b], f"request {b}")
    ctx.step()


@R.scenario([[k, c] for k in ("table", "cloud", "curve", "radians", "sails") for c in ("tuple", "rows", "columns", "ints", "none", "slices", "bad")])
def points(ctx, case):
    """Point queries evaluate the diagram at each requested wind."""
    k, c = case
    pd = diagram(k)
    deg = math.radians if k == "radians" else float  # curves in radians are called in radians, asked in degrees
    winds = [(6.0, 35.0), (5.0, 100.0), (13.0, 359.0), (9.0, 140.0), (6.0, 395.0)]
    if c == "tuple":
        ws, wa = [5.0, 9, 6.0], np.array([35.0, 275.0])
        got = np.asarray(pd.get_points((ws, wa)))
        exp = sorted([float(s), float(a), float(pd(s, deg(a)))] for s in ws for a in wa)
        same(sorted(got.tolist()), exp, "points")
        got = np.asarray(pd.get_points((7.0, 90.0)))
        same(got, [[7.0, 90.0, float(pd(7.0, deg(90.0)))]], "one point")
    elif c in ("rows", "columns", "ints"):
        arr = np.array(winds, dtype=int if c == "ints" else float)
        exp = [[s, a, float(pd(s, deg(a)))] for s, a in winds]
        given = np.array(arr.T) if c == "columns" else arr.copy()
        keep = given.copy()
        same(np.asarray(pd.get_points(given)), exp, "points")
        check(np.array_equal(given, keep), "winds passed in were modified")
        two = np.array(winds[:2])
        same(np.asarray(pd.get_points(two)), exp[:2], "two points by rows")
    elif c == "none":
        same(np.asarray(pd.get_points()), np.asarray(pd.default_points), "default points")
        if k in ("table", "curve", "radians"):
            pts = np.asarray(pd.default_points)
            for s, a, b in pts[:: max(1, len(pts) // 200)]:
                same(float(pd(s, math.radians(a) if k == "radians" else a)), b, f"default point at {s, a}")
    elif c == "slices":
        _, sl = pd.get_slices([4.0, 9.0])
        for s in sl:
            for w, a, b in np.asarray(s).T[::7]:
                if k == "cloud":
                    same(float(pd(w, a)), b, "slice point")
                elif k == "sails":
                    check(float(pd(w, a)) >= b - 1e-9 or a == 360.0, "a sail is faster than the best at %s", (w, a))
                else:
                    same(float(pd(w, math.radians(a) if k == "radians" else a)), b, "slice point")
    else:
        raises(ValueError, lambda: pd.get_points(np.ones((3, 3))), "winds of wrong shape")
        raises(TypeError, lambda: pd.get_points("abc"), "no winds")
    ctx.step()


@R.scenario([[k, n, c] for k in ("table", "cloud", "curve", "sails") for n in (70, 150, 300, 700, 1200) for c in ("tuple", "rows", "columns", "slices")])
def many(ctx, case):
    """Hundreds of requested winds."""
    k, n, c = case
    pd = diagram(k)
    if c == "tuple":
        m = {70: 7, 150: 10, 300: 12, 700: 20, 1200: 3}[n]
        ws = [2.0 + 18.0 * i / m for i in range(m)]
        wa = [355.0 * i / (n // m) + 0.5 for i in range(n // m + 1)]
        if k in ("table", "sails"):
            ws, wa = ws[: m // 2 + 1], wa[::2]
        got = np.asarray(pd.get_points((ws, wa)))
        winds = [(s, a) for s in ws for a in wa]
    elif c == "slices":
        ws = [2.0 + 18.0 * i / n for i in range(n)]
        if k != "curve":
            return
        got, sl = pd.get_slices(ws, stepsize=None)[:2]
        check(list(map(float, got)) == ws and len(sl) == n, "%s slices for %s wind speeds", len(sl), n)
        for s, x in list(zip(ws, sl))[::9] + [(ws[-1], sl[-1])]:
            x = np.asarray(x)
            check(np.all(x[0] == s), "wind speed of slice %s is %s", s, x[0])
            same(x[2], [float(pd(s, a)) for a in x[1]], "slice")
        ctx.step(n)
        return
    else:
        if k in ("table", "sails"):
            n = n // 2
        winds = [(2.0 + (i * 7 % 36) / 2, (i * 31) % 719 / 2) for i in range(n)]
        arr = np.array(winds)
        got = np.asarray(pd.get_points(arr if c == "rows" else arr.T))
    step = 1 if k in ("curve", "cloud") else 5
    check(got.shape == (len(winds), 3), "%s points for %s winds", got.shape, len(winds))
    if c == "tuple":
        key = lambda r: (r[0], r[1])
        got = np.array(sorted(got.tolist(), key=key))
        winds = sorted(winds)
    check(got[:, :2].tolist() == [list(map(float, w)) for w in winds], "winds of the points differ")
    for i in [*range(0, len(winds), step), len(winds) - 1]:
        same(got[i, 2], float(pd(*winds[i])), f"boat speed at {winds[i]}")
    ctx.step(len(winds))
