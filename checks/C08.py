"""C08: curve and multi-sail diagrams evaluate to their function / best sail."""
import itertools
import math

import numpy as np

from hrosailing.core import modelfunctions as mf
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, fail, raises, same

ID = "C08"
ASSUMPTIONS = [
    "multi-sail evaluation at scalar winds all sails can evaluate",
]
R = Registry()
exp = math.exp


def sig(a, b, c, x):
    return c / (1 + exp(a - b * x))


def gau(a, b, c, x):
    return a * exp(-((x - b) ** 2) / (2 * c))


MODELS = {
    "ws_times_wa": (1, lambda x, y, p: p[0] * x * y),
    "ws_concave_dt_wa": (11, lambda x, y, p: p[0] + p[1] * x - p[2] * x * x + p[3] * y + p[5] * (y - p[4]) ** 2
                         + p[6] * x * y + p[7] * (360 - y) + p[9] * ((360 - y) - p[8]) ** 2 + p[10] * x * (360 - y)),
    "ws_wa_s_dt": (14, lambda x, y, p: sig(*p[:3], x) - p[3] * x * x + sig(*p[4:7], y) - p[7] * y * y + p[8] * x * y
                   + sig(*p[9:12], 360 - y) - p[12] * (360 - y) ** 2 + p[13] * x * (360 - y)),
    "ws_s_dt_wa_gauss": (10, lambda x, y, p: sig(*p[:3], x) - p[3] * x * x + gau(*p[4:7], y) + gau(*p[7:10], 360 - y)),
    "ws_s_s_dt_wa_gauss_comb": (12, lambda x, y, p: sig(*p[:3], x) - p[3] * x * x + gau(*p[4:7], y) + p[7] * x * y
                                + gau(*p[8:11], 360 - y) + p[11] * x * (360 - y)),
    "ws_s_wa_gauss": (9, lambda x, y, p: sig(*p[:3], x) + gau(*p[3:6], y) + gau(*p[6:9], 360 - y)),
    "ws_s_wa_gauss_and_square": (10, lambda x, y, p: (sig(*p[:3], x) - p[3] * x * x
                                 + x * (gau(*p[4:7], y) + gau(*p[7:10], 360 - y))) * y * (360 - y)),
}


def params(n, variant):
    """Different values at every position; positions used as variances stay positive."""
    base = [0.31, 0.17, 1.9, 0.013, 1.3, 71.0, 1500.0, 0.41, 0.83, 117.0, 1700.0, 0.29, 0.0007, 0.0023]
    if variant == "rot":
        base = [round(2.0 - 0.11 * i, 3) for i in range(14)]
    elif variant == "neg":
        base = [400.0 + i if i in (5, 6, 8, 9, 10) else (-1) ** i * (0.05 + 0.03 * i) for i in range(14)]
    elif variant.startswith("one"):
        base = [0.5] * 14
        base[int(variant[3:])] = 0.75
    return base[:n]


WS = [0.0, 0.5, 4.0, 7.5, 12.0, 25.0]
WA = [0.0, 1.5, 45.0, 90.0, 179.0, 180.0, 270.5, 359.0]
VARIANTS = ["base", "rot", "neg"] + [f"one{i}" for i in range(14)]


@R.scenario(lambda t: [[m, v, r] for m in MODELS for v in VARIANTS for r in (False, True)
                       if not v.startswith("one") or int(v[3:]) < MODELS[m][0]])
def curve(ctx, case):
    """A curve is its model function with its parameters, for scalars and arrays alike."""
    name, variant, radians = case
    n, ref = MODELS[name]
    p = params(n, variant)
    pd = PolarDiagramCurve(getattr(mf, name), *p, radians=radians)
    check(tuple(pd.parameters) == tuple(p) and pd.radians is radians and pd.curve is getattr(mf, name), "attributes")

    def u(a):
        return math.radians(a) if radians else a

    def val(x, a):
        return ref(x, u(a % 360), p)

    winds = [(x, a) for x in WS for a in WA]
    exp_ = [val(x, a) for x, a in winds]
    for (x, a), e in zip(winds, exp_):
        for k in (0, 360, -360, 720):
            same(pd(x, u(a + k)), val(x, a), f"value at {x, a + k}", rtol=1e-7, atol=1e-7)
    ws = np.array([w[0] for w in winds])
    wa = np.array([u(w[1] + (360 if i % 3 == 0 else 0)) for i, w in enumerate(winds)])
    keep = ws.copy(), wa.copy()
    same(pd(ws, wa), exp_, "values at arrays", rtol=1e-7, atol=1e-7)
    check(np.array_equal(ws, keep[0]) and np.array_equal(wa, keep[1]), "winds passed in were modified")
    same(pd(ws[::-1], wa[::-1]), exp_[::-1], "values at reversed arrays", rtol=1e-7, atol=1e-7)
    same(pd(4.0, wa[:8]), [val(4.0, a) for _, a in winds[:8]], "values at one wind speed", rtol=1e-7, atol=1e-7)
    if not radians:
        same(pd(np.array([4, 7, 12]), np.array([30, 390, -60])), [val(4.0, 30), val(7.0, 30), val(12.0, 300)], "integer winds", atol=1e-7)
    raises(ValueError, lambda: pd(-1.0, 1.0), "negative wind speed")
    raises(ValueError, lambda: pd(np.array([3.0, -1.0]), np.array([1.0, 1.0])), "negative wind speed")
    if n > 1:
        raises(ValueError, lambda: PolarDiagramCurve(getattr(mf, name), *p[:n - 1]), "too few parameters")
    raises(TypeError, lambda: PolarDiagramCurve("ws_times_wa", 1), "uncallable curve")
    ctx.step(len(winds) * 5)
    return [round(e, 6) for e in exp_]


PARTS = {
    "polynomial_function": [((1.5, -2.0), {}, lambda x: 1.5 - 2 * x), ((1.5, -2.0, 0.25, 3.0), {"deg": 3}, lambda x: 1.5 - 2 * x + 0.25 * x * x + 3 * x ** 3),
                            ((4.0,), {"deg": 0}, lambda x: 4.0)],
    "inverted_parabola": [((1.5, -2.0, 0.25), {}, lambda x: -2 + 0.25 * (x - 1.5) ** 2)],
    "inverted_shifted_parabola": [((1.5, -2.0, 0.25), {}, lambda x: 1.5 * x + 0.25 * (x + 2) ** 2)],
    "concave_function": [((1.5, -2.0, 0.25), {}, lambda x: 1.5 - 2 * x - 0.25 * x * x),
                         ((1.5, -2.0, 0.25), {"downturn": False, "sat_limit": True}, lambda x: 0.25 - 1.5 * exp(-2.0 - x)),
                         ((1.5, -2.0, 0.25, 0.125), {"sat_limit": True}, lambda x: 0.25 - 1.5 * exp(-2.0 - x) - 0.125 * x * x)],
    "s_shaped": [((1.5, 0.5, 0.25, 0.125), {}, lambda x: 0.25 / (1 + exp(1.5 - 0.5 * x)) - 0.125 * x * x),
                 ((1.5, 0.5, 0.25, 0.125), {"downturn": False}, lambda x: 0.25 / (1 + exp(1.5 - 0.5 * x)))],
    "gaussian_model": [((1.5, 0.5, 4.0), {}, lambda x: 1.5 * exp(-(x - 0.5) ** 2 / 8)), ((1.5, 0.5, 4.0, 2.0), {}, lambda x: 1.5 * exp(-(x - 0.5) ** 2 / 8)),
                       ((1.5, 0.5, 4.0, 2.0), {"offset": True}, lambda x: 2 + 1.5 * exp(-(x - 0.5) ** 2 / 8))],
}


@R.scenario(lambda t: [[k, i] for k, v in PARTS.items() for i in range(len(v))])
def one_dimensional_models(ctx, case):
    """The building blocks have their documented values."""
    name, i = case
    try:
        from hrosailing.core.modelfunctions import _models2d as m2
        f = getattr(m2, name)
    except (ImportError, AttributeError):  # not part of the public interface
        return None
    p, kw, ref = PARTS[name][i]
    xs = np.array([0.0, 0.5, 1.0, 2.5, 6.0, 11.0])
    keep = xs.copy()
    same(np.broadcast_to(f(xs, *p, **kw), xs.shape), [ref(x) for x in xs], name)
    check(np.array_equal(xs, keep), "argument modified")
    for x in xs:
        same(float(f(float(x), *p, **kw)), ref(x), name)
    ctx.step(len(xs))


# ------------------------------------------------------------- multiple sails
TWS, TWA = [4.0, 8.0, 12.0], [30.0, 90.0, 150.0, 210.0, 330.0]


def table(base, tilt):
    b = [[round(base + tilt * i - 0.25 * tilt * i * i + 0.125 * j, 4) for j in range(len(TWS))] for i in range(len(TWA))]
    return PolarDiagramTable(TWS, TWA, b)


def sail(k):
    if k == "flat":
        return table(3.0, 0.0)
    if k == "rising":
        return table(1.0, 1.5)
    if k == "falling":
        return table(5.0, -1.0)
    if k == "curve":
        return PolarDiagramCurve(lambda ws, wa, a: np.asarray(a + 0.2 * ws * np.cos(np.deg2rad(np.asarray(wa) / 2))), 2.0)
    if k == "cloud":
        return PolarDiagramPointcloud([[s, a, 2.0 + (int(a) % 7) / 2 + s / 16] for s in TWS for a in TWA + [12.0]])
    return PolarDiagramPointcloud([[s, a, 3.5 - s / 16] for s in (5.0, 7.5) for a in (0.0, 90.0, 350.0)])


SAILS = ["flat", "rising", "falling", "curve", "cloud", "cloud2"]


def selections(t):
    n = 4 if t == "quick" else 5
    for r in range(1, n + 1):
        for sel in itertools.permutations(SAILS, r):
            yield list(sel)
    yield ["flat", "flat"]
    yield ["rising", "rising", "falling"]
    yield ["flat", "rising", "falling", "flat"]
    for r in (2, 3):  # one and the same diagram for several sails
        for sel in itertools.product(["rising", "curve", "cloud", "flat"], repeat=r):
            if len(set(sel)) < r:
                yield ["same", *sel]


@R.scenario(lambda t: [[s] for s in selections(t)])
def best_sail(ctx, case):
    """The speed is the maximum over the sails, the slices those of the sails."""
    sel, = case
    if sel[0] == "same":
        sel = sel[1:]
        objects = {k: sail(k) for k in sel}
        pds = [objects[k] for k in sel]
    else:
        pds = [sail(k) for k in sel]
    names = [f"{k} no {i}" for i, k in enumerate(sel)]
    given, gnames = list(pds), list(names)
    ms = PolarDiagramMultiSails(given, gnames)
    check(given == pds and gnames == names, "lists passed in were modified")
    given.clear()
    gnames.append("x")
    check(ms.sails == names and all(a is b for a, b in zip(ms.diagrams, pds)) and len(ms.diagrams) == len(pds), "sails or diagrams")
    best = set()
    for s in (4.0, 6.0, 8.0, 11.0):
        for a in (0.0, 30.0, 75.0, 90.0, 150.0, 180.0, 269.5, 330.0, 405.0, -60.0):
            vals = [float(pd(s, a)) for pd in pds]
            got = float(ms(s, a))
            check(abs(got - max(vals)) < 1e-9, "speed at %s: %s, sails give %s", (s, a), got, vals)
            best.add(vals.index(max(vals)))
            ctx.step()
    for name, pd in zip(names, pds):
        check(ms[name] is pd, "sail %s", name)
    raises(ValueError, lambda: ms["nope"], "unknown sail")
    for args in (dict(ws=[4.0, 8.0]), dict(ws=8), dict(ws=[12.0, 4.0], n_steps=1), dict(ws=[4.0, 8.0], wa_resolution=5)):
        if "wa_resolution" in args and not all(hasattr(pd, "points") or hasattr(pd, "curve") for pd in pds):
            continue
        labels, slices, info = ms.get_slices(full_info=True, **args)
        labels2, slices2 = ms.get_slices(**args)
        check(len(labels) == len(slices) == len(info) == len(slices2), "number of slices")
        per = [pd.get_slices(**args)[1] for pd in pds]
        for i, w in enumerate(labels):
            exp_ = sorted((n, *map(float, col)) for n, sl in zip(names, per) for col in np.asarray(sl[i]).T)
            got = sorted((n, *map(float, col)) for n, col in zip(info[i], np.asarray(slices[i]).T))
            check(len(info[i]) == np.asarray(slices[i]).shape[1], "one sail name per point")
            check([g[0] for g in got] == [e[0] for e in exp_], "points per sail at %s: %s", w, info[i])
            same([g[1:] for g in got], [e[1:] for e in exp_], f"points of the sails at {w}")
            same(sorted(map(tuple, np.asarray(slices2[i]).T.tolist())), sorted(e[1:] for e in exp_), "slices without info")
            ctx.step()
    dflt = np.asarray(ms.default_slices)
    all_ = np.concatenate([np.asarray(pd.default_slices) for pd in pds])
    same([dflt.min(), dflt.max()], [all_.min(), all_.max()], "range of default slices")
    check(np.all(np.diff(dflt) >= 0), "default slices")
    if "curve" not in sel:
        pts = np.asarray(ms.default_points)
        exp_ = sorted(tuple(map(float, q)) for pd in pds for q in np.asarray(pd.default_points))
        same(sorted(map(tuple, pts.tolist())), exp_, "default points")
    return sorted(best)


@R.scenario(lambda t: [[n, m] for n in range(1, 5) for m in [None] + list(range(6))])
def sail_names(ctx, case):
    """Missing names are added, surplus names cut off."""
    n, m = case
    pds = [sail("flat") for _ in range(n)]
    given = None if m is None else tuple(f"name {i}" for i in range(m))
    ms = PolarDiagramMultiSails(tuple(pds), given)
    exp_ = [f"name {i}" if m is not None and i < m else f"Sail {i}" for i in range(n)]
    check(list(ms.sails) == exp_, "sails %s, expected %s", ms.sails, exp_)
    ms.sails.append("y")
    ms.diagrams.clear()
    check(list(ms.sails) == exp_ and len(ms.diagrams) == n, "lists handed out are live")
    for nme, pd in zip(exp_, pds):
        check(ms[nme] is pd, "sail %s", nme)
    ctx.step()


@R.scenario([[n, k] for n in (1, 100, 101, 256, 257, 1000, 5000) for k in ("deg", "rad")])
def long_arrays(ctx, case):
    """Large arrays of winds, and winds with all their digits."""
    n, k = case
    rad = k == "rad"
    p = params(MODELS["ws_s_dt_wa_gauss"][0], "base")
    ref = MODELS["ws_s_dt_wa_gauss"][1]
    pd = PolarDiagramCurve(mf.ws_s_dt_wa_gauss, *p, radians=rad)
    ws = 0.5 + (np.arange(n) * 37 % 1009) / 1009 * 20
    wa = (np.arange(n) * 360.0 / n + 1 / 3 - 30) * (math.pi / 180 if rad else 1)
    full = 2 * math.pi if rad else 360.0
    got = np.asarray(pd(ws, wa))
    ctx.step()
    check(got.shape == (n,), "%s winds give %s speeds", n, got.shape)
    want = np.array([ref(float(s), float(a) % full, p) for s, a in zip(ws, wa)])
    bad = np.abs(got - want) > 1e-9 * (1 + np.abs(want))
    check(not bad.any(), "%s winds: the speed at %s is %s instead of %s", n, list(zip(ws[bad][:1], wa[bad][:1])), got[bad][:1], want[bad][:1])
    res = max(n, 2)
    _, slices = pd.get_slices([4.123456789, 12.000001], wa_resolution=res)
    for s, sl in zip((4.123456789, 12.000001), slices):
        sl = np.asarray(sl)
        check(sl.shape == (3, res), "slice of %s angles has shape %s", res, sl.shape)
        same(sl[1], np.linspace(0, 360, res), "angles of the slice")
        at = [ref(s, (math.radians(a) if rad else a) % full, p) for a in sl[1]]
        same(sl[2], at, f"slice of {res} angles at {s}", rtol=1e-8)
    ctx.step()


@R.scenario([[e, n] for e in (0.1, 1e-3, 1e-6, 1e-9, 1e-12) for n in (2, 3, 7, 30, 120)])
def sails_alike(ctx, case):
    """Sails that differ by a tiny amount: still the best one counts, wherever it stands."""
    e, n = case
    for best_ in {0, 1, n // 2, n - 1}:
        pds = [table(3.0 + (e if i == best_ else 0.0) - (e / 2 if i == (best_ + 1) % n else 0.0), 0.0) for i in range(n)] if e > 1e-4 else \
            [PolarDiagramCurve(lambda ws, wa, a: a + 0 * np.asarray(wa) + 0 * np.asarray(ws), 3.0 + (e if i == best_ else 0.0)) for i in range(n)]
        ms = PolarDiagramMultiSails(pds)
        for s, a in ((4.0, 30.0), (8.0, 90.0), (12.0, 210.0)):
            vals = [float(pd(s, a)) for pd in pds]
            check(float(ms(s, a)) == max(vals), "speed at %s: %r, the best of %s sails makes %r", (s, a), float(ms(s, a)), n, max(vals))
            ctx.step()
        check(ms[ms.sails[best_]] is pds[best_] and len(set(ms.sails)) == n, "sails %s", ms.sails)


@R.scenario([[list(s), list(n)] for r in (2, 3) for s in itertools.product(["rising", "cloud", "flat", "cloud2"], repeat=r) for n in itertools.product("ab", repeat=r) if len(set(n)) < r])
def names_alike(ctx, case):
    """Several sails of one name: all are compared, each point has a name."""
    sel, names = case
    pds = [sail(k) for k in sel]
    ms = PolarDiagramMultiSails(pds, names)
    check(list(ms.sails) == names, "sails %s", ms.sails)
    for n in names:
        check(ms[n] is pds[names.index(n)], "lookup of %s in %s is not its first sail", n, names)
    for s, a in ((4.0, 30.0), (8.0, 90.0), (11.0, 269.5)):
        check(abs(float(ms(s, a)) - max(float(pd(s, a)) for pd in pds)) < 1e-9, "speed at %s", (s, a))
    for args in (dict(ws=[4.0, 8.0]), dict(ws=8)):
        labels, slices, info = ms.get_slices(full_info=True, **args)
        per = [pd.get_slices(**args)[1] for pd in pds]
        for i, w in enumerate(labels):
            exp_ = sorted((n, *map(float, col)) for n, sl in zip(names, per) for col in np.asarray(sl[i]).T)
            check(len(info[i]) == np.asarray(slices[i]).shape[1], "%s: %s names for %s points", case, len(info[i]), np.asarray(slices[i]).shape[1])
            check(sorted((n, *map(float, col)) for n, col in zip(info[i], np.asarray(slices[i]).T)) == exp_, "%s: points at %s", case, w)
    sym = ms.symmetrize()
    check(list(sym.sails) == names and len(sym.diagrams) == len(pds), "%s symmetrized: %s", case, sym.sails)
    ctx.step()
