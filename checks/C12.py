"""C12: convex direction yields the fastest way to make good a course."""
import itertools
import math

import numpy as np

from hrosailing.cruising import convex_direction
from hrosailing.models import InfluenceModel
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, fail, raises

ID = "C12"
ASSUMPTIONS = ["at least three recorded headings not on one line with each other",
               "between two neighbouring recorded headings of one sail the diagram is taken as the straight edge (documented)"]
R = Registry()


def unit(a):
    return math.cos(math.radians(a)), math.sin(math.radians(a))


def best(points, course):
    """Greatest speed along the course over all pairs of recorded (angle, speed)."""
    c = unit(course)
    top = None
    vec = [(s * unit(a)[0], s * unit(a)[1]) for a, s in points]
    for (x, y) in vec:
        along, across = x * c[0] + y * c[1], y * c[0] - x * c[1]
        if abs(across) < 1e-9 and along > 1e-9:
            top = max(top or 0, along)
    # rotate: p = (along, across); mixing p (across>0) with q (across<0)
    rot = [(x * c[0] + y * c[1], y * c[0] - x * c[1]) for x, y in vec]
    up = [p for p in rot if p[1] > 1e-9]
    down = [p for p in rot if p[1] < -1e-9]
    for p in up:
        for q in down:
            lam = -q[1] / (p[1] - q[1])
            v = lam * p[0] + (1 - lam) * q[0]
            if v > 1e-9:
                top = max(top or 0, v)
    return top


def chord(points, course):
    """Speed of the straight line between the neighbouring recorded headings."""
    course %= 360
    left = [p for p in points if p[0] <= course]
    right = [p for p in points if p[0] >= course]
    lo = [p for p in points if p[0] == max(q[0] for q in left)] if left else []
    hi = [p for p in points if p[0] == min(q[0] for q in right)] if right else []
    return best(lo + hi, course)


def judge(ctx, points, course, call, sails=None):
    """points: (angle, speed) recorded; call() -> directions"""
    top = best(points, course)
    if top is None:
        raises(ValueError, call, f"course {course} cannot be made good")
        return "none"
    if top < 1e-3:
        return "marginal"
    res = call()
    ctx.step()
    check(isinstance(res, (list, tuple)) and len(res) in (1, 2), "%s directions for course %s", len(res), course)
    props = [float(d.proportion) for d in res]
    check(all(-1e-9 <= p <= 1 + 1e-9 for p in props) and abs(sum(props) - 1) < 1e-9, "course %s: proportions %s", course, props)
    c = unit(course)
    if len(res) == 1:
        a = float(res[0].angle)
        check(abs((a - course + 180) % 360 - 180) < 1e-6, "course %s: told to sail %s all the time", course, a)
        pool = sails[res[0].sail] if sails else points
        here = [s for b, s in pool if abs((a - b + 180) % 360 - 180) < 1e-9]
        v = max(here) if here else None
        if v is None or v < top - 1e-7:
            v = chord(pool, course)
        check(v is not None and v > top - 1e-6, "course %s: sailing it directly makes %s, possible are %s", course, v, top)
        return "one"
    x = y = 0.0
    for d in res:
        a = float(d.angle)
        pool = sails[d.sail] if sails else points
        here = [s for b, s in pool if abs((a - b + 180) % 360 - 180) < 1e-9]
        check(here, "course %s: heading %s with sail %s is not recorded", course, a, d.sail)
        ux, uy = unit(a)
        x += d.proportion * max(here) * ux
        y += d.proportion * max(here) * uy
    along, across = x * c[0] + y * c[1], y * c[0] - x * c[1]
    check(abs(across) < 1e-6, "course %s: %s lead %s off course", course, [(d.angle, d.proportion) for d in res], across)
    check(abs(along - top) < 1e-6, "course %s: %s make good %s, possible are %s", course, [(d.angle, d.proportion, d.sail) for d in res], along, top)
    return "two"


ANGLES = {
    "round": [20.0, 90.0, 160.0, 235.0, 310.0],
    "port": [30.0, 60.0, 100.0, 140.0, 180.0],
    "zero": [0.0, 45.0, 180.0, 190.0, 300.0],
    "star": [180.0, 220.0, 270.0, 300.0, 355.0],
}
FINE = [0, 7, 15, 20, 33, 45, 60, 75, 90, 101, 125, 140, 160, 179, 180, 181, 190, 205, 220, 235, 251, 270, 285, 300, 310, 330, 345, 355, 359.5]


def patterns(t):
    alpha = [1.0, 2.0, 5.0] if t == "quick" else [0.5, 1.0, 2.0, 5.0]
    for k in ANGLES:
        for sp in itertools.product(alpha, repeat=5):
            yield [k, list(sp)]


@R.scenario(patterns)
def tables(ctx, case):
    """Every speed pattern of a small table, every course."""
    k, sp = case
    pts = list(zip(ANGLES[k], sp))
    order = pts if sp[0] < 3 else pts[::-1]
    pd = PolarDiagramTable([8.0], [a for a, _ in order], [[s] for _, s in order])
    kinds = [judge(ctx, pts, c, lambda: convex_direction(pd, 8.0, c)) for c in FINE]
    check(np.array_equal(pd.wind_angles, ANGLES[k]), "the diagram was changed")
    return kinds


@R.scenario(lambda t: [[list(z), n] for n in (4, 6) for z in itertools.product([0, 1], repeat=n) if sum(z) >= 2])
def becalmed(ctx, case):
    """Headings without any speed."""
    z, n = case
    pts = [(360.0 * i / n + 10, (2.0 + 0.5 * i) * v) for i, v in enumerate(z)]
    nz = [p for p in pts if p[1]]
    if len(nz) == 2 and abs(nz[0][0] - nz[1][0]) == 180:
        return "flat"
    pd = PolarDiagramTable([8.0], [a for a, _ in pts], [[s] for _, s in pts])
    return [judge(ctx, pts, c, lambda: convex_direction(pd, 8.0, c)) for c in FINE if min(abs(c - a) for a, _ in pts) > 1 or True]


def speed(ws, a):
    a = math.radians(a)
    return 0.3 * ws * (1.2 - math.cos(a)) * (1 + 0.4 * math.sin(1.5 * a)) + 0.2


def rich(k):
    if k == "table":
        wa = [0, 30, 52, 60, 75, 90, 110, 120, 135, 150, 180, 210, 240, 250, 285, 300, 308, 330]
        return PolarDiagramTable([6.0, 8.0, 12.0], wa, [[speed(w, a) for w in (6.0, 8.0, 12.0)] for a in wa])
    if k == "cloud":
        return PolarDiagramPointcloud([[w, a, speed(w, a)] for a in (200.0, 31.0, 160.0, 90.0, 45.0, 305.0, 250.0, 12.0, 180.0) for w in (8.0, 6.0, 7.5)])
    if k == "curve":
        return PolarDiagramCurve(lambda ws, wa, p: p * 0.3 * np.asarray(ws) * (1.2 - np.cos(np.deg2rad(wa))) + 0.2, 1.0)
    if k == "radians":
        return PolarDiagramCurve(lambda ws, wa, p: p * 0.3 * np.asarray(ws) * (1.2 - np.cos(wa)) + 0.2, 1.0, radians=True)
    t1 = PolarDiagramTable([6.0, 8.0], [0, 40, 80, 180, 280, 320], [[1, 1.5], [4, 5], [5, 6], [3, 3.5], [5, 6], [4, 5]])
    t2 = PolarDiagramTable([6.0, 8.0], [20, 80, 130, 180, 230, 280], [[1, 1], [3, 4], [7, 8], [6, 7], [7, 8], [3, 4]])
    if k == "sails":
        return PolarDiagramMultiSails([t1, t2], ["jib", "spi"])
    return PolarDiagramMultiSails([t2, rich("cloud"), t1], ["spi", "cloud", "jib"])


def recorded(pd, ws):
    _, sl, info = pd.get_slices(ws, full_info=True)
    _, wa, bsp = np.asarray(sl[0], dtype=float)
    pts = [(float(a), float(b)) for a, b in zip(wa, bsp)]
    sails = None
    if info:
        sails = {}
        for n, p in zip(info[0], pts):
            sails.setdefault(n, []).append(p)
    return pts, sails


@R.scenario(lambda t: [[k, ws] for k in ("table", "cloud", "curve", "radians", "sails", "more") for ws in (6.0, 8, 7.25)])
def kinds(ctx, case):
    """Larger diagrams of every kind, courses all around."""
    k, ws = case
    pd = rich(k)
    pts, sails = recorded(pd, ws)
    out = []
    for c in list(range(0, 360, 5)) + [a for a, _ in pts[::5]] + [0.5, 359.9]:
        out.append(judge(ctx, pts, c % 360, lambda: convex_direction(pd, ws, c % 360), sails))
    for c in (-30, 400, 360, 725):
        judge(ctx, pts, c % 360, lambda: convex_direction(pd, ws, c), sails)
    if k in ("table", "cloud"):  # speed made good is never below the one on the course
        for a, s in pts:
            check(best(pts, a) >= s - 1e-9, "reference")
    return out


SAILS = {
    "alternating": ([0.0, 90.0, 180.0, 270.0], [45.0, 135.0, 225.0, 315.0]),
    "common": ([20.0, 110.0, 200.0, 290.0], [20.0, 110.0, 240.0, 290.0]),
    "sectors": ([300.0, 0.0, 40.0, 80.0], [80.0, 140.0, 200.0, 260.0]),
}


@R.scenario(lambda t: [[k, list(sp)] for k in SAILS for sp in itertools.product([1.0, 3.0] if t == "quick" else [1.0, 2.0, 5.0], repeat=8)])
def sails(ctx, case):
    """Every speed pattern of two sails: the sail recommended is the one that makes the speed."""
    k, sp = case
    parts = [sorted(zip(a, s)) for a, s in zip(SAILS[k], (sp[:4], sp[4:]))]
    pd = PolarDiagramMultiSails([PolarDiagramTable([8.0], [a for a, _ in p], [[s] for _, s in p]) for p in parts], ["jib", "spi"])
    pts, named = parts[0] + parts[1], dict(zip(("jib", "spi"), parts))
    return [judge(ctx, pts, c, lambda: convex_direction(pd, 8.0, c), named) for c in (FINE if len(set(sp)) > 1 else FINE[::4])]


class Scale(InfluenceModel):
    """Speeds depend on the heading and a constant of the influence data."""

    def remove_influence(self, data):
        return data

    def add_influence(self, pd, data, **kw):
        return [pd(s, a) * (1 + h * math.cos(math.radians(a - 60)) / 4)
                for s, a, h in zip(data["TWS"], data["TWA"], data["WVHGT"])]


@R.scenario(lambda t: [[k, h] for k in ("table", "cloud", "curve") for h in (0.0, 1.0, 3.5)])
def influenced(ctx, case):
    """The influence model changes the speeds the directions are chosen from."""
    k, h = case
    pd = rich(k)
    pts, _ = recorded(pd, 8.0)
    _, sl = pd.get_slices(8.0)
    pts = [(float(a), float(pd(s, a)) * (1 + h * math.cos(math.radians(a - 60)) / 4)) for s, a, _ in np.asarray(sl[0]).T]
    data = {"WVHGT": h}
    for c in range(0, 360, 15):
        judge(ctx, pts, c, lambda: convex_direction(pd, 8.0, c, im=Scale(), influence_data=data))
    check(data == {"WVHGT": h}, "the influence data was changed: %s", data)
    full = {"TWS": [8.0] * len(pts), "TWA": [a for a, _ in pts], "WVHGT": [h] * len(pts)}
    if k != "cloud":
        judge(ctx, pts, 20, lambda: convex_direction(pd, 8.0, 20, im=Scale(), influence_data=full))


class Sheltered(InfluenceModel):
    """An influence of the wind alone."""

    def remove_influence(self, data):
        return data

    def add_influence(self, pd, data, **kw):
        return [pd(s, a) * (0.5 if 100 < a < 300 else 1 + s / 100) for s, a in zip(data["TWS"], data["TWA"])]


@R.scenario([[k, w, d] for k in ("table", "cloud", "curve") for w in (4.0, 8.0) for d in ("nothing", "None", "empty", "other")])
def influenced_by_the_wind(ctx, case):
    """Influences apply even if there is no further data for them."""
    k, w, d = case
    pd = rich(k)
    pts = [(float(a), float(pd(s, a)) * (0.5 if 100 < a < 300 else 1 + s / 100)) for s, a, _ in np.asarray(pd.get_slices(w)[1][0]).T]
    kw = {"nothing": {}, "None": {"influence_data": None}, "empty": {"influence_data": {}}, "other": {"influence_data": {"HEEL": 0}}}[d]
    for c in range(0, 360, 15):
        judge(ctx, pts, c, lambda: convex_direction(pd, w, c, im=Sheltered(), **kw))


@R.scenario(lambda t: [[k, w, f] for k in ("curve", "proportional", "sails") for w in (1e-3, 0.014, 0.5, 3.14159265, 6.004, 7.123456789, 9.9951, 31.4159) for f in (1e-3, 1.0, 1e3)])
def winds_of_all_magnitudes(ctx, case):
    """Wind speeds with many digits; slow and fast boats."""
    k, w, f = case

    def one(g):
        return PolarDiagramCurve(lambda ws, wa, p: p * np.asarray(ws) * (1.2 - np.cos(np.deg2rad(wa))) * (g + np.sin(np.deg2rad(wa) / 2)), f)

    if k == "curve":
        pd = PolarDiagramCurve(lambda ws, wa, p: p * (0.3 * np.asarray(ws) * (1.2 - np.cos(np.deg2rad(wa))) + 0.2), f)
    else:
        pd = one(0.5) if k == "proportional" else PolarDiagramMultiSails([one(0.5), one(0.8)], ["a", "b"])
    head = np.linspace(0, 360, 100)
    parts = {n: [(float(a), float(d(w, a))) for a in head] for n, d in zip(("a", "b"), pd.diagrams)} if k == "sails" else {None: [(float(a), float(pd(w, a))) for a in head]}
    top_speed = max(b for v in parts.values() for _, b in v)
    pts = [(a, b / top_speed) for v in parts.values() for a, b in v]
    for c in (0.0, 12.3456789, 45.0, 100.0, 179.9, 251.4, 340.0):
        top = best(pts, c)
        res = convex_direction(pd, w, c)
        ctx.step()
        x = y = 0.0
        for d in res:
            pool = parts[d.sail if k == "sails" else None]
            here = [b / top_speed for a, b in pool if abs((a - d.angle + 180) % 360 - 180) < 1e-9]
            v = max(here) if here else chord([(a, b / top_speed) for a, b in pool], c)
            x += d.proportion * v * unit(d.angle)[0]
            y += d.proportion * v * unit(d.angle)[1]
        along, across = x * unit(c)[0] + y * unit(c)[1], y * unit(c)[0] - x * unit(c)[1]
        check(abs(across) < 1e-6 and abs(along - top) < 1e-6, "wind %s, course %s: %s make good %s of the top speed, possible are %s", w, c, [(d.angle, d.proportion, d.sail) for d in res], along, top)


@R.scenario(lambda t: [[n, e, s] for n in (12, 60, 120, 150, 256, 257, 361) for e in (0.3, 1e-3, 1e-5, 1e-7) for s in (0, 1)]
            + [[n, e, s] for n in (513, 720, 1025) for e in (0.3, 1e-3) for s in (0, 1)])
def bumps(ctx, case):
    """Many recorded headings, one of them faster by a little: the directions make use of it."""
    n, e, s = case
    for hot in (0, 1, n // 3, n - 1):
        pts = [((360.0 * i) / n, 5.0) for i in range(n)]
        pts[hot] = (pts[hot][0], 5.0 * (1 + e))
        pd = PolarDiagramTable([8.0], [a for a, _ in pts], [[b] for _, b in pts]) if s else PolarDiagramPointcloud([[8.0, a, b] for a, b in pts[::-1]])
        for c in (pts[hot][0], (pts[hot][0] + 90.0 / n) % 360, (pts[hot][0] + 200.0) % 360):
            res = convex_direction(pd, 8.0, c)
            ctx.step()
            x = y = 0.0
            by = dict(pts)
            for d in res:
                v = by[d.angle] if d.angle in by else chord(pts, c)
                x += d.proportion * v * unit(d.angle)[0]
                y += d.proportion * v * unit(d.angle)[1]
            along, across = x * unit(c)[0] + y * unit(c)[1], y * unit(c)[0] - x * unit(c)[1]
            top = best(pts, c)
            check(abs(across) < 1e-9 and abs(along - top) < 1e-9, "%s headings, bump of %s at %s, course %s: %s make good %s, possible are %s", n, e, pts[hot][0], c, [(d.angle, d.proportion) for d in res], along, top)
