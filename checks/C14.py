"""C14: isochrones and route costs are consistent with the boat's speed."""
import itertools
import math
from datetime import datetime, timedelta

import numpy as np

from hrosailing.cruising import cost_cruise, isochrone
from hrosailing.models import InfluenceModel, WeatherModel
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramTable,
)
from vf.core import Registry, check, fail, raises

ID = "C14"
ASSUMPTIONS = [
    "positions are latitude, longitude in degrees on a sphere of 60 NM per degree; courses are rhumb lines; 0.6 % tolerance for short legs (the library measures on the map)",
    "TWA = heading - direction the wind comes from; UGRID/VGRID point where the wind blows to",
    "total times are positive and boats keep moving",
]
R = Registry()

T0 = datetime(2022, 3, 14, 15, 9, 26)


def rhumb(a, b):
    """Rhumb line course and distance on the sphere."""
    la1, lo1, la2, lo2 = map(math.radians, (*a, *b))
    dpsi = math.asinh(math.tan(la2)) - math.asinh(math.tan(la1))
    dlat, dlon = la2 - la1, lo2 - lo1
    q = dlat / dpsi if abs(dpsi) > 1e-12 else math.cos(la1)
    return math.degrees(math.atan2(dlon, dpsi)) % 360, math.degrees(math.hypot(dlat, q * dlon)) * 60


def polar(ws, wa):
    r = math.radians(wa)
    return 0.35 * ws * (1.4 - math.cos(r)) * (1 + 0.3 * math.sin(r)) + 0.5


def curve(factor=1.0):
    def f(ws, wa, k):
        r = np.deg2rad(np.asarray(wa, dtype=float))
        return k * (0.35 * np.asarray(ws) * (1.4 - np.cos(r)) * (1 + 0.3 * np.sin(r)) + 0.5)
    return PolarDiagramCurve(f, factor)


def table(factor=1.0):
    wss, was = [5.0, 10.0, 20.0], list(np.arange(0.0, 360.0, 5.0))
    return PolarDiagramTable(wss, was, [[factor * polar(w, a) for w in wss] for a in was])


DIAGRAMS = {"curve": curve, "table": table, "sails": lambda k=1.0: PolarDiagramMultiSails([table(0.4 * k), table(k)], ["Jib", "Spi"])}


class Wind(WeatherModel):
    """Wind speed and direction as functions of hours since T0, latitude and longitude."""

    def __init__(self, ws, wdir, grib, course=None):
        self.ws, self.wdir, self.grib, self.course = ws, wdir, grib, course
        self.asked = []
        self.given = []

    def get_weather(self, point):
        time, lat, long = point
        h = (time - T0).total_seconds() / 3600
        self.asked.append((h, float(lat), float(long)))
        ws, wdir = self.ws(h, lat, long), self.wdir(h, lat, long)
        if self.grib:
            w = {"UGRID": -ws * math.sin(math.radians(wdir)), "VGRID": -ws * math.cos(math.radians(wdir))}
        else:
            w = {"TWS": ws, "TWA": (self.course - wdir) % 360}
        self.given.append((w, dict(w)))
        return w

    def timeline(self, start, end):
        """Hours and parts of the way at which the weather was asked for."""
        dy, dx = end[0] - start[0], end[1] - start[1]
        return [(h, (la - start[0]) / dy if abs(dy) > abs(dx) else (lo - start[1]) / dx) for h, la, lo in self.asked]

    def untouched(self):
        for w, copy in self.given:
            check(w == copy, "weather handed out by the model was changed from %s to %s", copy, w)


def uniform(ws, wdir, grib, course=None):
    return Wind(lambda h, la, lo: ws, lambda h, la, lo: wdir, grib, course)


def near(got, want, tol, msg, *args):
    check(abs(got - want) <= tol * abs(want) + 1e-9, msg + ": %s instead of %s", *args, got, want)


STARTS = [(0.5, 0.5), (54.0, 10.2), (-33.4, 151.0), (41.2, -70.3)]
MOVES = [(dy, dx) for dy in (-0.3, 0.0, 0.3) for dx in (-0.4, 0.0, 0.4) if dy or dx] + [(0.02, 0.01), (-0.01, 0.2)]


@R.scenario(lambda tier: [
    (k, s, m, ws, wd, grib)
    for k in DIAGRAMS for s in (STARTS if tier == "thorough" else STARTS[1:3]) for m in MOVES
    for ws in ((6.5, 12.5) if tier == "thorough" else (12.5,))
    for wd in ((0.0, 35.0, 110.0, 200.0, 290.0) if tier == "thorough" else (35.0, 200.0)) for grib in (True, False)])
def legs(ctx, case):
    """Travel time over single and consecutive legs in uniform weather."""
    kind, start, (dy, dx), ws, wd, grib = case
    start = tuple(start)
    end = (start[0] + dy, start[1] + dx)
    pd = DIAGRAMS[kind](1.0)
    course, dist = rhumb(start, end)
    wm = uniform(ws, wd, grib, course)
    speed = float(pd(ws, (course - wd) % 360))
    want = dist / speed
    got = float(cost_cruise(pd, start, end, T0, wm))
    ctx.step()
    near(got, want, 0.006, "%s -> %s with %s knots from %s takes the wrong time", start, end, ws, wd)
    wm.untouched()
    for h, la, lo in wm.asked:
        lam = (la - start[0]) / dy if dy else (lo - start[1]) / dx
        check(-1e-6 <= lam <= 1 + 1e-6 and abs(start[0] + lam * dy - la) < 2e-3 and abs(start[1] + lam * dx - lo) < 2e-3, "weather asked at %s off the way %s -> %s", (la, lo), start, end)
        check(-1e-9 <= h <= got * 1.2 + 1e-9, "weather asked at %s h of %s h", h, got)
    mid = ((start[0] + end[0]) / 2, (start[1] + end[1]) / 2)
    two = float(cost_cruise(pd, start, mid, T0, wm)) + float(cost_cruise(pd, mid, end, T0 + timedelta(hours=want / 2), wm))
    near(two, got, 0.006, "time over two legs %s -> %s -> %s", start, mid, end)
    double = float(cost_cruise(DIAGRAMS[kind](2.0), start, end, T0, wm))
    near(double, got / 2, 1e-6, "doubling the boat speeds")
    return round(course)


@R.scenario(lambda tier: [(s, m, wd, n) for s in STARTS[1:3] for m in MOVES for wd in (35.0, 200.0) for n in (None, 50)])
def densities(ctx, case):
    """Costs along the way and absolute costs."""
    start, (dy, dx), wd, n = case
    start = tuple(start)
    end = (start[0] + dy, start[1] + dx)
    pd = curve()
    course, dist = rhumb(start, end)
    wm = uniform(10.0, wd, True)
    want = dist / polar(10.0, (course - wd) % 360)
    kw = {} if n is None else {"max_step": dist / n}
    calls = []

    def dens(t, lat, long, model):
        check(model is wm, "another weather model was passed to the cost density")
        calls.append(((t - T0).total_seconds() / 3600, float(lat), float(long)))
        return 1.0

    absargs = []

    def absolute(t, s):
        absargs.append((float(t), float(s)))
        return 7.0

    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=dens, cost_fun_abs=absolute, **kw))
    ctx.step()
    near(got, 7.0 + dist, 0.006, "unit cost along %s -> %s", start, end)
    check(len(absargs) == 1, "absolute cost computed %s times", len(absargs))
    near(absargs[0][0], want, 0.006, "time for the absolute cost")
    near(absargs[0][1], dist, 0.006, "distance for the absolute cost")
    check(len(calls) >= 2 if n is None else len(calls) >= n, "cost computed at %s places only", len(calls))
    for h, la, lo in calls:
        lam = h / want
        check(abs(start[0] + lam * dy - la) <= 0.006 * abs(dy) + 2e-3 and abs(start[1] + lam * dx - lo) <= 0.006 * abs(dx) + 2e-3,
              "after %s of %s h the boat is at %s on its way from %s to %s", h, want, (la, lo), start, end)
    hs = [c[0] for c in calls]
    check(hs == sorted(hs) and abs(hs[0]) < 1e-6, "costs computed at times %s", hs)
    near(hs[-1], want, 0.006, "last cost time")
    # costs depending on time and position
    zero = lambda t, s: 0.0
    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=lambda t, la, lo, m: (t - T0).total_seconds() / 3600, cost_fun_abs=zero, **kw))
    near(got, dist * want / 2, 0.013, "hours as cost along %s -> %s", start, end)
    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=lambda t, la, lo, m: la - start[0] + 1, cost_fun_abs=zero, **kw))
    near(got, dist * (1 + dy / 2), 0.01, "latitude as cost along %s -> %s", start, end)
    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=lambda t, la, lo, m: lo - start[1] + 1, cost_fun_abs=zero, **kw))
    near(got, dist * (1 + dx / 2), 0.01, "longitude as cost along %s -> %s", start, end)
    # default absolute cost: the total time
    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=lambda *a: 1.0, **kw))
    near(got, dist + want, 0.006, "unit cost with default absolute cost")
    seen = []

    def integrate(y, x):
        seen.append((np.asarray(y, dtype=float), np.asarray(x, dtype=float)))
        return 3.0

    got = float(cost_cruise(pd, start, end, T0, wm, cost_fun_dens=lambda *a: 2.0, cost_fun_abs=absolute, integration_method=integrate, **kw))
    check(abs(got - 10.0) < 1e-9, "integration method's result 3 and absolute cost 7 give %s", got)
    y, x = seen[0]
    check(y.shape == x.shape and (y == 2.0).all() and (np.diff(x) > 0).all() and abs(x[0]) < 1e-9, "integration method received %s over %s", y, x)
    near(float(x[-1]), dist, 0.006, "end of the integration")


def follow(start, course, speed_at, end_dist=None, end_time=None, n=4000):
    """Reference integration along a rhumb line (midpoint rule)."""
    la, lo, h, s = start[0], start[1], 0.0, 0.0
    c = math.radians(course)

    def place(s_):
        la_ = start[0] + s_ / 60 * math.cos(c)
        mid = math.radians((la_ + start[0]) / 2)
        return la_, start[1] + s_ / 60 * math.sin(c) / math.cos(mid)

    if end_dist is not None:
        ds = end_dist / n
        for i in range(n):
            v = speed_at(h, *place(s))
            v = speed_at(h + ds / v / 2, *place(s + ds / 2))
            h, s = h + ds / v, s + ds
        return h, s
    dt = end_time / n
    for i in range(n):
        v = speed_at(h, *place(s))
        v = speed_at(h + dt / 2, *place(s + v * dt / 2))
        h, s = h + dt, s + v * dt
    return h, s


FIELDS = {
    "building": (lambda h, la, lo: 8 + 1.5 * h, lambda h, la, lo: 40.0),
    "veering": (lambda h, la, lo: 10.0, lambda h, la, lo: (20 + 12 * h) % 360),
    "north": (lambda h, la, lo: 10 + 6 * math.sin(la * 3), lambda h, la, lo: 60.0),
    "east": (lambda h, la, lo: 10 + 6 * math.sin(lo * 3), lambda h, la, lo: 60.0),
    "mixed": (lambda h, la, lo: 10 + 2 * math.sin(la * 3 + h), lambda h, la, lo: (150 + 30 * math.sin(lo * 4 - h)) % 360),
}


@R.scenario(lambda tier: [(f, s, m, grib) for f in FIELDS for s in STARTS[1:3] for m in (MOVES if tier == "thorough" else MOVES[::2] + MOVES[1:2]) for grib in (True, False)])
def varying(ctx, case):
    """Travel times and isochrones in weather depending on time and place."""
    field, start, (dy, dx), grib = case
    start = tuple(start)
    ws, wd = FIELDS[field]
    end = (start[0] + dy, start[1] + dx)
    course, dist = rhumb(start, end)

    def speed_at(h, la, lo):
        return polar(ws(h, la, lo), (course - wd(h, la, lo)) % 360)

    want, _ = follow(start, course, speed_at, end_dist=dist)
    got = float(cost_cruise(curve(), start, end, T0, Wind(ws, wd, grib, course), rtol=1e-6, max_step=dist / 20))
    ctx.step()
    near(got, want, 0.01, "%s -> %s in %s weather takes the wrong time", start, end, field)
    visits = []

    def dens(t, lat, long, wm):
        visits.append(((t - T0).total_seconds() / 3600, float(lat), float(long)))
        return 1.0

    cost_cruise(curve(), start, end, T0, Wind(ws, wd, grib, course), cost_fun_dens=dens, rtol=1e-6, max_step=dist / 20)
    ctx.step()
    check(len(visits) >= 20, "cost computed at %s places only", len(visits))
    for h, la, lo in visits[:: max(1, len(visits) // 5)] + visits[-1:]:
        done = rhumb(start, (la, lo))[1] if (la, lo) != start else 0.0
        exp = follow(start, course, speed_at, end_dist=done, n=1000)[0] if done > 1e-6 else 0.0
        check(abs(h - exp) <= 0.01 * want, "%s weather: after %s NM of %s -> %s the cost density is asked for the time %s h, the boat is there after %s h", field, done, start, end, h, exp)
    reached, s = isochrone(curve(), start, T0, course, Wind(ws, wd, grib, course), total_time=want, min_nodes=200)
    ctx.step()
    near(float(s), dist, 0.015, "distance sailed in %s h from %s in %s weather", want, start, field)
    off = rhumb(end, reached)[1]
    check(off <= 0.015 * dist + 0.01, "isochrone from %s towards %s ends at %s in %s weather", start, end, reached, field)


@R.scenario(lambda tier: [
    (k, s, d, wd, t, n)
    for k in DIAGRAMS for s in (STARTS if tier == "thorough" else STARTS[1:2]) for d in (0.0, 45.0, 90.0, 133.0, 180.0, 225.0, 270.0, 301.5)
    for wd in (35.0, 200.0) for t in (0.25, 1, 3.5) for n in ((1, 10, 100) if tier == "thorough" else (7, 60))])
def reach(ctx, case):
    """Isochrones in uniform weather: distance, end point and time back."""
    kind, start, d, wd, total, n = case
    start = tuple(start)
    pd = DIAGRAMS[kind](1.0)
    speed = float(pd(11.0, (d - wd) % 360))
    for grib in (True, False):
        wm = uniform(11.0, wd, grib, d)
        end, s = isochrone(pd, start, T0, d, wm, total_time=total, min_nodes=n)
        ctx.step()
        near(float(s), speed * total, 1e-6, "way sailed in %s h at %s knots", total, speed)
        course, dist = rhumb(start, end)
        near(dist, float(s), 0.012, "the end point %s is not as far away from %s as the way sailed", end, start)
        off = abs((course - d + 180) % 360 - 180)
        check(off < 0.5, "end point %s lies towards %s of %s instead of %s", end, course, start, d)
        wm.untouched()
        places = {(round(a[1], 12), round(a[2], 12)) for a in wm.asked}
        check(len(places) >= n, "position space sampled at %s places instead of at least %s", len(places), n)
    back = float(cost_cruise(pd, start, end, T0, uniform(11.0, wd, True)))
    near(back, total, 0.012, "time to the end of the isochrone of %s h", total)
    end2, s2 = isochrone(DIAGRAMS[kind](2.0), start, T0, d, uniform(11.0, wd, True), total_time=total, min_nodes=n)
    near(float(s2), 2 * float(s), 1e-6, "doubling the boat speeds")
    if total == 1:
        _, s3 = isochrone(pd, start, T0, d, uniform(11.0, wd, True))
        near(float(s3), float(s), 1e-6, "default total time of one hour")


class Slow(InfluenceModel):
    """Boat speed as given by the diagram times a factor from the data."""

    def __init__(self):
        self.asked = []

    def remove_influence(self, data):
        raise AssertionError

    def add_influence(self, pd, influence_data):
        ws = np.asarray(influence_data["TWS"], dtype=float).reshape(-1)
        wa = np.asarray(influence_data["TWA"], dtype=float).reshape(-1)
        hdt = np.asarray(influence_data["HDT"], dtype=float).reshape(-1)
        self.asked.append(float(hdt[0]))
        waves = np.asarray(influence_data["WAVES"], dtype=float).reshape(-1)
        return [float(pd(a, b)) * float(w) for a, b, w in zip(ws, wa, waves)]


class Waves(Wind):
    def get_weather(self, point):
        return {**super().get_weather(point), "WAVES": 0.4}


@R.scenario([(s, m, grib) for s in STARTS[1:3] for m in MOVES for grib in (True, False)])
def influenced(ctx, case):
    """Influence models receive the wind, the course and the further weather."""
    start, (dy, dx), grib = case
    start = tuple(start)
    end = (start[0] + dy, start[1] + dx)
    course, dist = rhumb(start, end)
    wm = Waves(lambda *a: 10.0, lambda *a: 75.0, grib, course)
    im = Slow()
    plain = float(cost_cruise(curve(), start, end, T0, wm))
    slow = float(cost_cruise(curve(), start, end, T0, wm, im=im))
    ctx.step()
    near(slow, plain / 0.4, 1e-3, "time with the influence of waves")
    check(im.asked and all(abs((h - course + 180) % 360 - 180) < 0.5 for h in im.asked), "influence computed for headings %s on course %s", sorted(set(im.asked)), course)
    _, s = isochrone(curve(), start, T0, course, wm, min_nodes=20)
    _, s2 = isochrone(curve(), start, T0, course, wm, min_nodes=20, im=Slow())
    near(float(s2), float(s) * 0.4, 1e-3, "distance with the influence of waves")


class Bounded(Wind):
    def get_weather(self, point):
        if not 53.9 <= point[1] <= 54.1:
            raise ValueError("outside")
        return super().get_weather(point)


@R.scenario([0])
def unknown_weather(ctx, case):
    """Where no weather is known the boat is not assumed to sail at speed."""
    wm = Bounded(lambda *a: 10.0, lambda *a: 80.0, True)
    inside = float(cost_cruise(curve(), (54.0, 10.0), (54.08, 10.0), T0, wm))
    near(inside, 4.8 / polar(10.0, 280.0), 0.006, "leg inside the known weather")
    across = float(cost_cruise(curve(), (54.0, 10.0), (54.2, 10.0), T0, wm))
    check(math.isfinite(across) and across > 10 * inside, "leg leaving the known weather takes %s h", across)
    end, s = isochrone(curve(), (54.0, 10.0), T0, 0.0, wm, total_time=10)
    check(abs(end[0] - 54.1) < 0.01 and 5.5 < s < 6.5, "isochrone out of the known weather ends at %s after %s NM", end, s)


@R.scenario(lambda tier: [(k, f, m, grib) for k in DIAGRAMS for f in ((1e-4, 1e-3, 0.01, 0.1, 10.0, 200.0) if k == "curve" else (1e-3, 10.0)) for m in MOVES[:2] for grib in (True, False)])
def speeds_of_all_magnitudes(ctx, case):
    """Very slow and very fast boats: times are inversely proportional to the boat speed."""
    kind, f, (dy, dx), grib = case
    start = STARTS[1]
    end = (start[0] + dy, start[1] + dx)
    course, dist = rhumb(start, end)
    pd = DIAGRAMS[kind](f)
    wm = uniform(9.87654321, 35.0, grib, course)
    v = float(pd(9.87654321, (course - 35.0) % 360))
    want = dist / v
    near(float(cost_cruise(pd, start, end, T0, wm)), want, 0.006, "speeds times %s: time %s -> %s", f, start, end)
    ctx.step()
    end, s = isochrone(pd, start, T0, course, wm, total_time=want, min_nodes=5)
    ctx.step()
    near(float(s), dist, 1e-6 * max(1, dist), "speeds times %s: way sailed in %s h", f, want)


@R.scenario(lambda tier: [(s, b, d, p) for s in STARTS[1:3] for b in (0, 50, 90, 170, 251, 300) for d in (2e-5, 5e-4, 0.01) for p in (0.25, 7.0, 60.0)])
def fast_changes(ctx, case):
    """Wind changing within seconds, on legs of a few meters to half a mile: the boat meets the weather of the very moment."""
    start, b, d, period = case
    start = tuple(start)
    end = (start[0] + d * math.cos(math.radians(b)), start[1] + d * math.sin(math.radians(b)))
    course, dist = rhumb(start, end)

    def ws(h, la, lo):
        return 10.0 + 4.0 * math.sin(2 * math.pi * h * 3600 / period_s + 1.0)

    pd = curve()
    mean = dist / polar(10.0, (course - 35.0) % 360)
    period_s = mean * 3600 / (60.0 / period) if period > 1 else mean * 3600 * 10
    want, _ = follow(start, course, lambda h, la, lo: polar(ws(h, la, lo), (course - 35.0) % 360), end_dist=dist, n=2000)
    for grib in (True, False):
        wm = Wind(ws, lambda *a: 35.0, grib, course)
        got = float(cost_cruise(pd, start, end, T0, wm, rtol=1e-6, atol=1e-9, max_step=dist / 50))
        ctx.step()
        near(got, want, 0.007, "leg of %s NM takes the wrong time", dist)
        late = [(h, s) for h, s in wm.timeline(start, end)]
        for h, s in late:
            check(h <= 1.5 * want + 1e-6, "weather asked %s h after the start of a leg of %s h", h, want)
        hours = sorted({h for h, _ in late})
        check(len(hours) > 20, "the weather is asked for only %s different times", len(hours))
        end2, s = isochrone(pd, start, T0, course, Wind(ws, lambda *a: 35.0, grib, course), total_time=want, min_nodes=400)
        ctx.step()
        check(abs(float(s) - dist) <= 0.02 * dist, "the way sailed in %s h is %s instead of %s", want, s, dist)


class Patchy(Wind):
    """No weather between two latitudes."""

    def __init__(self, lo, hi, *args):
        super().__init__(*args)
        self.lo, self.hi = lo, hi

    def get_weather(self, point):
        if self.lo < point[1] < self.hi:
            raise ValueError("unknown")
        return super().get_weather(point)


@R.scenario(lambda tier: [(lat, a, w, grib, kind) for lat in (0.0, 54.0, -33.0) for a in (0.0005, 0.001, 0.004, 0.0101, 0.0263, 0.05) for w in (0.002, 0.004, 0.0089, 0.02) for grib in (True, False) for kind in ("curve", "table")])
def patches_without_weather(ctx, case):
    """A leg through a patch without known weather is not sailed at speed there."""
    lat, a, w, grib, kind = case
    wm = Patchy(lat + a, lat + a + w, lambda *x: 10.0, lambda *x: 80.0, grib, 0.0)
    pd = DIAGRAMS[kind](1.0)
    v = float(pd(10.0, 280.0))
    end = lat + a + 2 * w
    dist, gap = rhumb((lat, 10.0), (end, 10.0))[1], rhumb((lat, 10.0), (lat + w, 10.0))[1]
    took = float(cost_cruise(pd, (lat, 10.0), (end, 10.0), T0, wm, max_step=gap / 8))
    ctx.step()
    check(math.isfinite(took) and took > 10 * dist / v, "leg of %s NM with %s NM without weather takes %s h", dist, gap, took)
    short = lat + 0.875 * a  # rounding must not touch the patch
    before = float(cost_cruise(pd, (lat, 10.0), (short, 10.0), T0, wm))
    near(before, rhumb((lat, 10.0), (short, 10.0))[1] / v, 0.006, "leg up to the patch without weather")
    reached, s = isochrone(pd, (lat, 10.0), T0, 0.0, wm, total_time=dist / v, min_nodes=400)
    ctx.step()
    check(lat + a - 1e-4 <= reached[0] <= lat + a + w + 1e-4, "isochrone into the patch from %s to %s ends at %s", lat + a, lat + a + w, reached)
