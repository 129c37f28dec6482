"""C29: influence models remove and re-apply influences consistently."""
import copy
import itertools
import math

import numpy as np

from hrosailing.core.data import Data
from hrosailing.models import IdentityInfluenceModel, WindAngleCorrectingInfluenceModel
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, angle_close, check, fail, raises, same, same_angle

ID = "C29"
ASSUMPTIONS = [
    "data columns without missing values; influence data holds true wind speed and angle",
    "the shift is the measured minus the real wind angle: removed from data, added before evaluating a diagram",
    "fitted shifts are exact to 0.2 degrees (the search lattice of the library) for data of uniform wind speed",
]
R = Registry()

ROWS = [(8.0, 45.0, 5.0), (12.5, 0.0, 6.25), (6.0, 180.0, 4.0), (10.0, 270.0, 7.5), (7.0, 359.0, 0.5), (9.0, 90.0, 12.0), (4.0, 10.0, 0.0), (15.0, 200.5, 9.0)]


def table_of(rows, wind, speed, container, extra=False):
    cols = {wind[0]: [r[0] for r in rows], wind[1]: [r[1] for r in rows]}
    for k, s in enumerate(speed):
        cols[s] = [r[2] + 100 * k for r in rows]
    if extra:
        cols["HDT"] = [10.0 * i for i in range(len(rows))]
        cols["name"] = [f"r{i}" for i in range(len(rows))]
    return pack(cols, container)


def pack(cols, container):
    if container == "data":
        return Data.from_dict(cols)
    if container == "arrays":
        return {k: np.array(v) for k, v in cols.items()}
    return {k: list(v) for k, v in cols.items()}


def snapshot(d):
    if isinstance(d, Data):
        return {k: list(d[k]) for k in d.keys()}
    return {k: list(v) for k, v in d.items()}


def to_true(aws, awa, bsp):
    """Wind triangle: the apparent wind is the true one plus head wind."""
    x, y = aws * math.sin(math.radians(awa)), aws * math.cos(math.radians(awa)) - bsp
    return math.hypot(x, y), math.degrees(math.atan2(x, y)) % 360, bsp


def models(shift):
    return {
        "identity": (IdentityInfluenceModel(), 0),
        "shift": (WindAngleCorrectingInfluenceModel(wa_shift=shift), shift),
        "default": (WindAngleCorrectingInfluenceModel(), 0),
    }


SHIFTS = [0, 5, -5.5, 90, 180, 359.5, 400, -720.25]


@R.scenario(lambda t: [[m, sh, w, sp, c, list(rows)] for m in ("identity", "shift", "default") for sh in (SHIFTS if m == "shift" else [0])
                       for w in ("true", "apparent", "both") for sp in ("BSP", "SOG", "BSP,SOG", "SOG,BSP") for c in ("data", "lists", "arrays")
                       for rows in itertools.chain(itertools.combinations(range(8), 1), itertools.permutations((0, 3, 4), 3), [(0, 1, 2, 3, 4, 5, 6, 7), (7, 2, 5)])])
def remove(ctx, case):
    """Removing yields true wind and boat speed of each row."""
    m, sh, w, sp, c, rows = case
    model, shift = models(sh)[m]
    rows = [ROWS[i] for i in rows]
    speeds = sp.split(",")
    if w == "both":
        data = {"TWS": [r[0] for r in rows], "TWA": [r[1] for r in rows], "AWS": [3.0] * len(rows), "AWA": [33.0] * len(rows)}
        for k, s in enumerate(speeds):
            data[s] = [r[2] + 100 * k for r in rows]
        data = pack(data, c)
    else:
        data = table_of(rows, ("TWS", "TWA") if w == "true" else ("AWS", "AWA"), speeds, c, extra=c != "arrays")
    before = copy.deepcopy(snapshot(data))
    used = 100 * speeds.index("BSP") if "BSP" in speeds else 0
    want = [(r[0], r[1], r[2] + used) for r in rows]
    if w == "apparent":
        want = [to_true(*r) for r in want]
    want = [(s, (a - shift) % 360, b) for s, a, b in want]
    for turn in range(2):
        out = model.remove_influence(data)
        check(isinstance(out, np.ndarray) and out.shape == (len(rows), 3), f"{case}: shape {np.shape(out)}")
        same(out[:, [0, 2]], np.array(want)[:, [0, 2]], f"{case}: speeds", atol=1e-6)
        same_angle(out[:, 1], np.array(want)[:, 1], f"{case}: angles")
        if m != "identity":
            check(((out[:, 1] >= 0) & (out[:, 1] < 360 + 1e-9)).all(), f"{case}: angles {out[:, 1]} outside [0, 360)")
        check(snapshot(data) == before, f"{case}: data changed")
        out[:] = -1  # the result belongs to the caller
    ctx.step(2 * len(rows))
    return np.round(want, 6)


@R.scenario([[m, c, k] for m in ("identity", "shift") for c in ("data", "lists") for k in ("TWS", "TWA", "AWS", "AWA", "TWS,AWA", "AWS,TWA", "HDT")])
def refused(ctx, case):
    """Data without sufficient wind is refused."""
    m, c, keys = case
    data = pack({**{k: [1.0, 2.0] for k in keys.split(",")}, "BSP": [3.0, 4.0]}, c)
    raises(ValueError, lambda: models(5)[m][0].remove_influence(data), f"data with {keys} only")
    return case


# ---- re-applying -------------------------------------------------------------
WS, WA = [4.0, 8.0, 12.0, 16.0], [0.0, 30.0, 60.0, 90.0, 135.0, 180.0, 210.0, 270.0, 300.0, 330.0]


def curve(ws, wa, a, b):
    return a * np.asarray(ws) * (1 + b * np.sin(np.asarray(wa, dtype=float)) + 0.1 * np.cos(2 * np.asarray(wa, dtype=float)))


def curve_deg(ws, wa, a, b):
    return curve(ws, np.deg2rad(np.asarray(wa, dtype=float)), a, b)


def diagram(k):
    if k == "table":
        return PolarDiagramTable(WS, WA, [[1 + i + 0.5 * j + 0.1 * i * j for j in range(4)] for i in range(10)])
    if k == "cloud":
        return PolarDiagramPointcloud([[s, a, 1 + s / 4 + a / 100] for s in WS for a in WA])
    if k == "curve":
        return PolarDiagramCurve(curve_deg, 0.5, 0.25)
    if k == "radians":
        return PolarDiagramCurve(curve, 0.5, 0.25, radians=True)
    return PolarDiagramMultiSails([diagram("table"), diagram("radians"), diagram("curve")], ["a", "b", "c"])


def value(k, pd, ws, wa):
    """Boat speed of the diagram at an angle in degrees."""
    wa = wa % 360
    if k == "radians":
        return 0.5 * ws * (1 + 0.25 * math.sin(math.radians(wa)) + 0.1 * math.cos(2 * math.radians(wa)))
    if k == "sails":
        return max(value("table", diagram("table"), ws, wa), value("radians", None, ws, wa))
    if k == "curve":
        return value("radians", None, ws, wa)
    return float(pd(ws, wa))


ASKED = [(8.0, 90.0), (4.0, 0.0), (16.0, 330.0), (10.0, 45.0), (5.5, 200.0), (12, 30), (8, 359.0), (9.0, -30.0), (6.0, 400.0)]


@R.scenario([[k, m, sh, c] for k in ("table", "cloud", "curve", "radians", "sails") for m in ("identity", "shift", "default") for sh in (SHIFTS if m == "shift" else [0]) for c in ("scalar", "npscalar", "lists", "arrays", "data", "extra", "single")])
def add(ctx, case):
    """Adding evaluates the diagram at the influenced wind."""
    k, m, sh, c = case
    pd = diagram(k)
    model, shift = models(sh)[m]
    want = [value(k, pd, s, a + shift) for s, a in ASKED]
    if c in ("scalar", "npscalar", "extra"):
        got = []
        for s, a in ASKED:
            d = {"TWS": s, "TWA": a} if c != "npscalar" else {"TWS": np.float64(s), "TWA": np.float64(a)}
            if c == "extra":
                d.update(HDT=3.0, WVHGHT=1.5)
            keep = dict(d)
            v = model.add_influence(pd, d)
            check(np.ndim(v) == 0, f"{case}: speed {v!r} for single values")
            got.append(float(v))
            check(d == keep, f"{case}: influence data changed")
    elif c == "single":
        got = []
        for s, a in ASKED:
            v = model.add_influence(pd, {"TWS": [s], "TWA": [a]})
            check(len(v) == 1, f"{case}: speeds {v!r} for one row")
            got.append(float(v[0]))
    else:
        d = pack({"TWS": [float(s) for s, _ in ASKED], "TWA": [float(a) for _, a in ASKED]}, c)
        keep = snapshot(d)
        got = [float(v) for v in model.add_influence(pd, d)]
        check(snapshot(d) == keep, f"{case}: influence data changed")
    same(got, want, f"{case}: speeds")
    ctx.step(len(ASKED))
    return [round(g, 6) for g in got]


@R.scenario([[sh, k] for sh in SHIFTS + [33.3, 270] for k in ("table", "curve", "radians")])
def inverse(ctx, case):
    """Removing what measuring with a shifted instrument added gives the diagram."""
    sh, k = case
    pd = diagram(k)
    measured = {"TWS": [s for s, _ in ASKED], "TWA": [(a + sh) % 360 for _, a in ASKED], "BSP": [value(k, pd, s, a) for s, a in ASKED]}
    model = WindAngleCorrectingInfluenceModel(wa_shift=sh)
    real = model.remove_influence(measured)
    same_angle(real[:, 1], [a % 360 for _, a in ASKED], f"{case}: corrected angles")
    again = model.add_influence(pd, {"TWS": real[:, 0].tolist(), "TWA": ((real[:, 1])).tolist()})
    same([float(v) for v in again], [value(k, pd, s, m) for s, m in zip(measured["TWS"], measured["TWA"])], f"{case}: speeds at the measured winds", atol=1e-5, rtol=1e-5)
    ctx.step()
    return case


# ---- fitting -----------------------------------------------------------------
SHAPES = {
    "even": list(range(40, 321, 8)),
    "dense": list(range(90, 271, 3)),
    "two": [a for b in (-1, 1) for a in range(180 + b * 90 - 30, 180 + b * 90 + 31, 5)],
    "few": [120.0, 150.0, 180.0, 210.0, 240.0],
    "many": [40 + i / 2 for i in range(561)],
    "lots": [60 + i / 10 for i in range(2401)],
}


def density(angles, at, size):
    d = np.abs(np.asarray(angles, dtype=float)[:, None] - at) % 360
    d = np.minimum(d, 360 - d)
    return np.exp(-((d / size) ** 2)).sum(axis=0)


@R.scenario(lambda t: [[s, sh, size, o, c] for s in ("even", "dense", "two", "few") for sh in ((0, 3, 20, 45, 90, 180, 270, 355) if t == "thorough" else (0, 20, 90, 180, 355)) for size in (30, 15) for o in (0, 1, 2) for c in ("data", "lists")
                       if (o == 0 or sh == 20) and (c == "data" or sh in (20, 355)) and not (s == "few" and size == 15)]
            + [[s, sh, 30, o, c] for s in ("even", "few") for sh in (7.45, 123.55, 200.5, 329.48) for o, c in ((0, "data"), (2, "lists"))]
            + [[s, sh, 30, o, "lists"] for s, sh, o in (("many", 20, 2), ("many", 210.5, 0), ("lots", 210.5, 2))]
            + [[s, sh, 30, 0, c, sp] for s in ("even", "dense", "two", "few") for sh in (0, 20, 355) for c in ("data", "lists") for sp in ("light", "strong", "tiny", "mixed")])
def fit(ctx, case):
    """Data sailed symmetrically about the wind recovers the offset."""
    s, sh, size, o, c = case[:5]
    sp = case[5] if len(case) > 5 else "normal"
    angles = [(a + sh) % 360 for a in SHAPES[s]]
    n = len(angles)
    order = [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: i * 7 % n)][o]
    angles = [float(angles[i]) for i in order]
    speeds = [{"light": 1.5, "strong": 35.0, "tiny": 0.125, "mixed": 6 + abs((a - sh) % 360 - 180) / 60}.get(sp, 10.0) for a in angles]
    data = pack({"TWS": speeds, "TWA": angles, "BSP": [5.0] * n}, c)
    before = snapshot(data)
    model = WindAngleCorrectingInfluenceModel(interval_size=size)
    model.fit(data)
    check(snapshot(data) == before, f"{case}: fitting changed the data")
    got = model.get_latest_statistics()["wa_shift"]
    least = density(angles, np.arange(0, 360, 0.25), size).min()
    here = density(angles, np.array([got]), size)[0]
    check(sp == "mixed" or here <= least * 1.01 + 1e-12, f"{case}: density {here} at the shift {got}, elsewhere {least}")
    if s != "two":
        check(angle_close(got, sh, 0.25 if s != "dense" or size > 15 else 1), f"{case}: fitted {got}, offset {sh}")
    out = model.remove_influence(data)
    same_angle(out[:, 1], np.array(angles) - got, f"{case}: corrected angles")
    v = model.add_influence(diagram("curve"), {"TWS": 10.0, "TWA": 50.0})
    same(float(v), value("curve", None, 10.0, 50.0 + got), f"{case}: speed with the fitted shift")
    ctx.step(n)
    return round(float(got), 3)


@R.scenario([[list(o)] for o in itertools.product(range(3), repeat=2)])
def refit(ctx, case):
    """Fitting again forgets the earlier data."""
    sets = [{"TWS": [10.0] * 36, "TWA": [float((a + sh) % 360) for a in SHAPES["even"]], "BSP": [1.0] * 36} for sh in (10, 100, 350)]
    model = WindAngleCorrectingInfluenceModel(wa_shift=7)
    for i in case[0]:
        model.fit(sets[i])
        check(angle_close(model.get_latest_statistics()["wa_shift"], (10, 100, 350)[i], 0.25), f"{case}: fitted {model.get_latest_statistics()}")
        same_angle(model.remove_influence(sets[i])[:, 1], np.array(SHAPES["even"]), f"{case}: corrected", atol=0.25)
        ctx.step()
    ident = IdentityInfluenceModel()
    ident.fit(sets[0])
    same_angle(ident.remove_influence(sets[0])[:, 1], sets[0]["TWA"], "identity after fitting")
    return case


@R.scenario([[n, m, k] for n in (60, 150, 300, 1200) for m in ("identity", "shift") for k in ("true", "apparent", "add")])
def many_rows(ctx, case):
    """Hundreds of rows."""
    n, m, k = case
    rows = [(0.1 + (i * 13 % 97) / 4, (i * 31 % 1439) / 4, (i * 7 % 61) / 8) for i in range(n)]
    model, shift = models(12.25)[m]
    if k == "add":
        got = model.add_influence(diagram("curve"), {"TWS": [r[0] for r in rows], "TWA": [r[1] for r in rows]})
        same([float(v) for v in got], [value("curve", None, r[0], r[1] + shift) for r in rows], f"{case}: speeds")
    else:
        out = model.remove_influence(table_of(rows, ("TWS", "TWA") if k == "true" else ("AWS", "AWA"), ["BSP"], "data" if n % 100 else "lists"))
        want = rows if k == "true" else [to_true(*r) for r in rows]
        check(out.shape == (n, 3), f"{case}: shape {out.shape}")
        same(out[:, [0, 2]], [[w[0], w[2]] for w in want], f"{case}: speeds", atol=1e-6)
        still = np.array([w[0] for w in want]) < 1e-6
        same_angle(np.where(still, 0, out[:, 1]), np.where(still, 0, [(w[1] - shift) % 360 for w in want]), f"{case}: angles")
    ctx.step(n)
    return case
