"""C13: cruise directions bring the boat to its destination in the stated time."""
import itertools
import math

import numpy as np

from hrosailing.cruising import cruise
from hrosailing.models import InfluenceModel
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, fail, raises

ID = "C13"
ASSUMPTIONS = [
    "positions are longitude, latitude in degrees; speeds in knots, durations in hours",
    "distance within 0.03 % of the geodesic on the WGS84 ellipsoid (solved independently by iteration), course = initial great-circle course",
    "wind angles relative to north name where the wind comes from; TWA = heading - wind direction",
]
R = Registry()


def course_dist(a, b):
    lo1, la1, lo2, la2 = map(math.radians, (*a, *b))
    p = [math.cos(la1) * math.cos(lo1), math.cos(la1) * math.sin(lo1), math.sin(la1)]
    q = [math.cos(la2) * math.cos(lo2), math.cos(la2) * math.sin(lo2), math.sin(la2)]
    east = [-math.sin(lo1), math.cos(lo1), 0.0]
    north = [-math.sin(la1) * math.cos(lo1), -math.sin(la1) * math.sin(lo1), math.cos(la1)]
    dot = sum(x * y for x, y in zip(p, q))
    e = sum(x * y for x, y in zip(east, q))
    n = sum(x * y for x, y in zip(north, q))
    return math.degrees(math.atan2(e, n)) % 360, math.degrees(math.atan2(math.hypot(e, n), dot)) * 60


def geodesic(start, end):
    """Nautical miles between two points (longitude, latitude) on WGS84, by Vincenty's iteration"""
    a, f = 6378.137 / 1.852, 1 / 298.257223563
    lo1, la1, lo2, la2 = map(math.radians, (*start, *end))
    u1, u2, ll = math.atan((1 - f) * math.tan(la1)), math.atan((1 - f) * math.tan(la2)), lo2 - lo1
    lam = ll
    for _ in range(200):
        sl, cl = math.sin(lam), math.cos(lam)
        ss = math.hypot(math.cos(u2) * sl, math.cos(u1) * math.sin(u2) - math.sin(u1) * math.cos(u2) * cl)
        cs = math.sin(u1) * math.sin(u2) + math.cos(u1) * math.cos(u2) * cl
        sig = math.atan2(ss, cs)
        sa = math.cos(u1) * math.cos(u2) * sl / ss
        c2a = 1 - sa * sa
        c2m = cs - 2 * math.sin(u1) * math.sin(u2) / c2a if c2a > 1e-15 else 0.0
        c = f / 16 * c2a * (4 + f * (4 - 3 * c2a))
        lam, old = ll + (1 - c) * f * sa * (sig + c * ss * (c2m + c * cs * (2 * c2m**2 - 1))), lam
        if abs(lam - old) < 1e-14:
            break
    uu = c2a * (1 / (1 - f) ** 2 - 1)
    aa = 1 + uu / 16384 * (4096 + uu * (-768 + uu * (320 - 175 * uu)))
    bb = uu / 1024 * (256 + uu * (-128 + uu * (74 - 47 * uu)))
    d = bb * ss * (c2m + bb / 4 * (cs * (2 * c2m**2 - 1) - bb / 6 * c2m * (4 * ss**2 - 3) * (4 * c2m**2 - 3)))
    return a * (1 - f) * aa * (sig - d)


def best(points, course):
    c = math.cos(math.radians(course)), math.sin(math.radians(course))
    rot = []
    for a, s in points:
        x, y = s * math.cos(math.radians(a)), s * math.sin(math.radians(a))
        rot.append((x * c[0] + y * c[1], y * c[0] - x * c[1]))
    top = max([p[0] for p in rot if abs(p[1]) < 1e-9] or [0])
    for p in rot:
        for q in rot:
            if p[1] > 1e-9 and q[1] < -1e-9:
                lam = -q[1] / (p[1] - q[1])
                top = max(top, lam * p[0] + (1 - lam) * q[0])
    return top


def recorded(pd, ws):
    _, sl = pd.get_slices(ws)
    _, wa, bsp = np.asarray(sl[0], dtype=float)
    return [(float(a), float(b)) for a, b in zip(wa, bsp)]


WA = [0.0, 40.0, 60.0, 90.0, 130.0, 160.0, 180.0, 200.0, 250.0, 300.0, 335.0]


def speed(w, a):  # not symmetric
    r = math.radians(a)
    return 0.4 * w * (1.3 - math.cos(r)) * (1 + 0.25 * math.sin(r)) * 0.7 + 0.3


def rich(k, f=1.0):
    if k == "table":
        return PolarDiagramTable([6.0, 10.0], WA, [[f * speed(w, a) for w in (6.0, 10.0)] for a in WA])
    if k == "cloud":
        return PolarDiagramPointcloud([[w, a, f * speed(w, a)] for a in WA[::-1] for w in (10.0, 9.5, 6.0)])
    if k == "curve":
        return PolarDiagramCurve(lambda ws, wa, p: p * (0.3 * np.asarray(ws) * (1.2 - np.cos(np.deg2rad(wa))) + 0.2 + 0.1 * np.sin(np.deg2rad(wa))), f)
    t2 = PolarDiagramTable([6.0, 10.0], [20, 80, 130, 180, 230, 280], [[f, f], [3 * f, 4 * f], [7 * f, 8 * f], [6 * f, 7 * f], [7 * f, 8 * f], [3 * f, 4 * f]])
    return PolarDiagramMultiSails([rich("table", f), t2], ["a", "b"])


def judge(pd, pts, start, end, phi, res):
    """res brings the boat from start to end, as fast as the points allow."""
    crs, dist = course_dist(start, end)[0], geodesic(start, end)
    check(len(res) in (1, 2), "%s directions", len(res))
    total = sum(t for _, t in res)
    check(all(t >= -1e-12 for _, t in res), "negative durations: %s", res)
    top = best(pts, crs - phi)
    x = y = 0.0
    for a, t in res:
        here = [s for b, s in pts if abs((a - b + 180) % 360 - 180) < 1e-9]
        if here:
            v = max(here)
        else:
            check(len(res) == 1, "heading %s is not recorded", a)
            v = top
        x += t * v * math.sin(math.radians(phi + a))
        y += t * v * math.cos(math.radians(phi + a))
    got = math.hypot(x, y)
    check(abs(got - dist) <= 3e-4 * dist + 1e-9, "%s -> %s: %s displaces the boat by %s NM, needed %s", start, end, res, got, dist)
    off = (math.degrees(math.atan2(x, y)) - crs + 180) % 360 - 180
    check(abs(off) < 1e-4, "%s -> %s: %s leads %s degrees off course", start, end, res, off)
    check(abs(total * top - dist) <= 3e-4 * dist + 1e-9, "%s -> %s takes %s h, possible are %s h", start, end, total, dist / top)
    return [round(a, 6) for a, _ in res], round(total, 9)


STARTS = [(0.0, 0.0), (10.0, 54.0), (-70.0, -35.5), (179.9, 10.0)]
MOVES = [(dx, dy) for dx in (-0.5, 0.0, 0.5) for dy in (-0.4, 0.0, 0.4) if dx or dy] + [(3.0, 1.0), (-12.0, 5.0), (0.01, -0.02), (-0.25, 0.5), (0.0, 20.0), (40.0, 15.0), (30.0, -18.0)]
PHIS = [0.0, 45.0, 90.0, 200.0, 310.0]


@R.scenario(lambda t: [[k, list(s), list(m), ph] for k in (["table", "cloud", "curve", "sails"]) for s in STARTS for m in MOVES for ph in PHIS]
            + [[k, list(s), list(m), ph] for k in ("cloud", "curve", "sails") for s in STARTS[1:2] for m in MOVES[::3] for ph in PHIS[::2]])
def legs(ctx, case):
    """Every leg of a lattice under every wind, in every wind format."""
    k, s, m, phi = case
    start, end = (s[0], s[1]), (s[0] + m[0], s[1] + m[1])
    pd, pts = rich(k), None
    ws = 10.0
    pts = recorded(pd, ws)
    u, v = -ws * math.sin(math.radians(phi)), -ws * math.cos(math.radians(phi))
    hdt, twa = (phi + 77.0) % 360, 77.0
    outs = []
    for wind, fmt in (((ws, phi), None), ((ws, phi), "ws_wan"), ((ws, phi - 360), "ws_wan"), ((ws, twa, hdt), "ws_wa_hdt"), ((u, v), "uv_grd")):
        if fmt == "uv_grd" and k == "cloud":  # the speed may be off the recorded one by rounding
            continue
        kw = {} if fmt is None else {"wind_fmt": fmt}
        res = cruise(pd, start, end, wind, **kw)
        outs.append(judge(pd, pts, start, end, phi, res))
        ctx.step()
    for o in outs[1:]:
        check(len(o[0]) == len(outs[0][0]) and all(abs((a - b + 180) % 360 - 180) < 1e-4 for a, b in zip(o[0], outs[0][0])) and abs(o[1] - outs[0][1]) < 1e-6 * (1 + o[1]),
              "the same wind in another format gives %s instead of %s", o, outs[0])
    return outs[0][0]


@R.scenario(lambda t: [[k, list(m), ph, f] for k in ("table", "cloud", "curve", "sails") for m in MOVES[:6] for ph in (0.0, 130.0) for f in (0.5, 2.0, 3.0)])
def scaling(ctx, case):
    """Faster boats take the same headings and proportionally less time."""
    k, m, phi, f = case
    s = (10.0, 54.0)
    e = (s[0] + m[0], s[1] + m[1])
    a, b = cruise(rich(k), s, e, (10.0, phi)), cruise(rich(k, f), s, e, (10.0, phi))
    check(len(a) == len(b), "%s / %s", a, b)
    for (x, t), (y, u) in zip(a, b):
        check(abs((x - y + 180) % 360 - 180) < 1e-6 and abs(t - f * u) < 1e-9 * (1 + t), "%s, %s times faster %s", a, f, b)
    ctx.step(2)


class Gain(InfluenceModel):
    def remove_influence(self, data):
        return data

    def add_influence(self, pd, data, **kw):
        return [pd(s, a) * (1 + h * math.sin(math.radians(a / 2)))
                for s, a, h in zip(data["TWS"], data["TWA"], data["WVHGT"])]


@R.scenario(lambda t: [[k, list(m), ph, h] for k in ("table", "cloud", "curve") for m in MOVES[::2] for ph in (20.0, 200.0) for h in (0.0, 0.5, 2.0)])
def influenced(ctx, case):
    """Influences change speeds, hence headings and durations, and the data stays as given."""
    k, m, phi, h = case
    s = (10.0, 54.0)
    e = (s[0] + m[0], s[1] + m[1])
    pd = rich(k)
    pts = [(a, v) for a, v in ((float(a), float(pd(w, a)) * (1 + h * math.sin(math.radians(a / 2))))
                               for w, a, _ in np.asarray(pd.get_slices(10.0)[1][0]).T)]
    data = {"WVHGT": h}
    for _ in range(2):
        judge(pd, pts, s, e, phi, cruise(pd, s, e, (10.0, phi), im=Gain(), influence_data=data))
        check(data == {"WVHGT": h}, "the influence data was changed: %s", data)
        ctx.step()


class Sheltered(InfluenceModel):
    """An influence of the wind alone."""

    def remove_influence(self, data):
        return data

    def add_influence(self, pd, data, **kw):
        return [pd(s, a) * (0.5 if 100 < a < 300 else 1 + s / 100) for s, a in zip(data["TWS"], data["TWA"])]


@R.scenario(lambda t: [[k, list(m), ph, d] for k in ("table", "cloud", "curve") for m in MOVES[::2] for ph in (20.0, 200.0) for d in ("nothing", "None", "empty", "other")])
def influenced_by_the_wind(ctx, case):
    """Influences apply even if there is no further data for them."""
    k, m, phi, d = case
    s = (10.0, 54.0)
    e = (s[0] + m[0], s[1] + m[1])
    pd = rich(k)
    pts = [(float(a), float(pd(w, a)) * (0.5 if 100 < a < 300 else 1 + w / 100)) for w, a, _ in np.asarray(pd.get_slices(10.0)[1][0]).T]
    kw = {"nothing": {}, "None": {"influence_data": None}, "empty": {"influence_data": {}}, "other": {"influence_data": {"HEEL": 0}}}[d]
    judge(pd, pts, s, e, phi, cruise(pd, s, e, (10.0, phi), im=Sheltered(), **kw))
    ctx.step()


@R.scenario(lambda t: [[k, d, b, s] for k in ("table", "sails") for d in (1e-5, 1e-4, 1e-3, 3e-3, 1e-2, 0.1) for b in range(0, 360, 15 if t == "quick" else 5) for s in range(len(STARTS))])
def short_legs(ctx, case):
    """Legs of one meter to some miles in every direction, with the flattening of the earth."""
    k, d, b, s = case
    start = STARTS[s]
    end = (start[0] + d * math.sin(math.radians(b)), start[1] + d * math.cos(math.radians(b)))
    pd = rich(k)
    judge(pd, recorded(pd, 10.0), start, end, 75.0, cruise(pd, start, end, (10.0, 75.0)))
    ctx.step()


SCALES = [1e-3, 0.014, 0.5, 3.14159265, 6.0, 6.004, 7.123456789, 9.9951, 10.0]


@R.scenario(lambda t: [[k, w, list(m), f] for k in ("curve", "table", "proportional") for w in SCALES for m in MOVES[:3] for f in (1e-4, 0.01, 1.0, 1e3)])
def winds_and_speeds_of_all_magnitudes(ctx, case):
    """Wind speeds with many digits, very slow and very fast boats."""
    k, w, m, f = case
    if k == "proportional":
        pd = PolarDiagramCurve(lambda ws, wa, p: p * np.asarray(ws) * (1.2 - np.cos(np.deg2rad(wa))), f)
    else:
        pd = rich(k, f)
    start = (10.0, 54.0)
    end = (start[0] + m[0], start[1] + m[1])
    crs, dist = course_dist(start, end)[0], geodesic(start, end)
    for phi in (12.3456789, 200.0):
        if k == "table":  # its slice at the wind speed is given by its evaluation
            pts = [(a, float(pd(w, a))) for a in WA]
        else:
            pts = [(float(a), float(pd(w, a))) for a in np.linspace(0, 360, 100)]
        u, v = -w * math.sin(math.radians(phi)), -w * math.cos(math.radians(phi))
        for wind, fmt in (((w, phi), "ws_wan"), ((w, 20.0, phi + 20.0), "ws_wa_hdt"), ((u, v), "uv_grd")):
            if k == "table" and fmt == "uv_grd":  # the default interpolation jumps at recorded wind speeds
                continue
            res = cruise(pd, start, end, wind, wind_fmt=fmt)
            ctx.step()
            total, top = sum(t for _, t in res), best([(a, b / f) for a, b in pts], crs - phi) * f
            check(abs(total * top - dist) <= 3e-4 * dist, "wind %s, speeds times %s: %s -> %s takes %s h, possible are %s h", w, f, start, end, total, dist / top)


@R.scenario([[0]])
def refused(ctx, case):
    pd = rich("table")
    raises(AttributeError, lambda: cruise(pd, (0, 0), (1, 1), (10.0, 0.0), wind_fmt="nope"), "unknown wind format")
    one = PolarDiagramTable([10.0], [30.0, 60.0, 90.0, 120.0], [[5.0], [6.0], [6.5], [6.0]])
    raises(ValueError, lambda: cruise(one, (0, 0), (0, 1), (10.0, 0.0)), "course outside the diagram")
    ctx.step(2)
