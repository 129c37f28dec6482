"""C17: globe models are consistent metrics with matching paths."""
import itertools
import math

import numpy as np

from hrosailing.models import FlatMercatorProjection, SphericalGlobe
from vf.core import Registry, check, fail, raises

ID = "C17"
ASSUMPTIONS = [
    "points are latitude, longitude in degrees; equality of positions is modulo 360 degrees of longitude and up to longitude at the poles",
    "mercator maps are not asked for their poles or for the border meridian of the map; the virtual zero is perpendicular to the virtual north pole",
    "equal within 1e-7 relative",
]
R = Registry()


def unit(p):
    la, lo = map(math.radians, p)
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def arc(p, q):
    a, b = unit(p), unit(q)
    return math.atan2(float(np.linalg.norm(np.cross(a, b))), float(a @ b))


def near(got, want, msg, *args, tol=1e-7, scale=1.0):
    check(math.isfinite(got) and abs(got - want) <= tol * max(abs(want), scale), msg + ": %s instead of %s", *args, got, want)


def same_place(p, q, msg, *args, tol=1e-6):
    check(np.isfinite(np.asarray(p, dtype=float)).all() and math.degrees(arc(p, q)) <= tol and abs(p[0] - q[0]) <= tol, msg + ": %s instead of %s", *args, tuple(p), tuple(q))


RADII = {"default": None, "unit": 1.0, "int": 6371}


class Sphere:
    def __init__(self, radius):
        self.r = 21600 / 2 / math.pi if radius is None else radius
        self.model = SphericalGlobe() if radius is None else SphericalGlobe(earth_radius=radius)

    def project(self, p):
        return self.r * unit(p)

    def distance(self, p, q):
        return self.r * arc(p, q)


class Mercator:
    def __init__(self, radius, pole=(90, 0), zero=(0, 0)):
        self.r = 3440 if radius is None else radius
        kw = {} if radius is None else {"earth_radius": radius}
        if (pole, zero) != ((90, 0), (0, 0)):
            kw.update(virt_northpole=pole, virt_zero=zero)
        self.model = FlatMercatorProjection(**kw)
        self.pole, self.zero = unit(pole), unit(zero)
        self.east = np.cross(self.pole, self.zero)

    def project(self, p):
        u = unit(p)
        a, b, c = float(u @ self.zero), float(u @ self.east), float(u @ self.pole)
        return self.r * np.array([math.atan2(b, a), math.atanh(c)])

    def distance(self, p, q):
        return float(np.linalg.norm(self.project(p) - self.project(q)))

    def inside(self, p):
        u = unit(p)
        return abs(float(u @ self.pole)) < 0.9999 and not (abs(float(u @ self.east)) < 1e-6 and float(u @ self.zero) < 0)


POLES = {"north": ((90, 0), (0, 0)), "greenwich": ((90, 0), (0, -75)), "equator": ((0, 90), (90, 0)), "south": ((-90, 0), (0, 10)), "tilted": ((30, 20), (-60, 20)), "side": ((0, 10), (0, 100))}


def make(name):
    kind, radius, pole = name
    return Sphere(RADII[radius]) if kind == "sphere" else Mercator(RADII[radius], *POLES[pole])


MODELS = [("sphere", r, "north") for r in RADII] + [("mercator", r, "north") for r in RADII] + [("mercator", "default", p) for p in POLES if p != "north"]
LATS = [-90, -89.9, -60, -0.5, 0, 1e-7, 30, 54.3, 89, 90]
LONS = [-180, -179.9, -90, -10.5, 0, 1e-7, 45, 135, 179.5, 180, 200]


def points(tier, ref, small=False):
    lats, lons = (LATS, LONS) if not small else (LATS[2::2] + [-90], LONS[1::2])
    if small and tier != "thorough":
        lats, lons = lats[:5], lons[:4] + [180]
    pts = [(float(a), float(b)) for a in lats for b in lons]
    if isinstance(ref, Mercator):
        pts = [p for p in pts if ref.inside(p)]
    return pts


@R.scenario([list(m) for m in MODELS])
def coordinates(ctx, case):
    """Projection and its inverse, for single points and stacks in any order."""
    ref = make(case)
    pts = points("thorough", ref)
    arr = np.array(pts)
    keep = arr.copy()
    proj = np.asarray(ref.model.project(arr))
    check(np.array_equal(arr, keep), "given points were changed to %s", arr)
    check(proj.shape[0] == len(pts), "%s points are projected to %s", len(pts), proj.shape)
    pk = proj.copy()
    back = np.asarray(ref.model.lat_lon(proj))
    check(np.array_equal(proj, pk), "given projected points were changed")
    check(back.shape == (len(pts), 2), "shape of the restored coordinates is %s", back.shape)
    for p, x, b in zip(pts, proj, back):
        want = ref.project(p)
        check(np.allclose(x, want, rtol=1e-7, atol=1e-7 * ref.r), "%s: %s is projected to %s instead of %s", case, p, x, want)
        same_place(b, p, "%s: coordinates of the projection of %s", case, p)
        check(-90 <= b[0] <= 90 and -360 <= b[1] <= 360, "coordinates %s", b)
        ctx.step(2)
    for n, p in enumerate(pts):
        one = np.asarray(ref.model.project(np.array([p])))
        check(one.shape == (1, proj.shape[1]) and np.allclose(one[0], proj[n], rtol=1e-12, atol=1e-12 * ref.r), "%s alone is projected to %s", p, one)
        same_place(np.asarray(ref.model.lat_lon(proj[n:n + 1]))[0], back[n], "%s alone", p, tol=1e-9)
        ctx.step(2)
    rev = np.asarray(ref.model.project(arr[::-1].copy()))
    check(np.allclose(rev[::-1], proj, rtol=1e-12, atol=1e-12 * ref.r), "projection depends on the order of points")
    lists = np.asarray(ref.model.project([list(p) for p in pts[:5]]))
    check(np.allclose(lists, proj[:5], rtol=1e-12, atol=1e-12 * ref.r), "projection of lists")
    ints = [p for p in pts if p[0] == int(p[0]) and p[1] == int(p[1])]
    got = np.asarray(ref.model.project(np.array(ints, dtype=int)))
    check(np.allclose(got, [ref.project(p) for p in ints], rtol=1e-7, atol=1e-7 * ref.r), "projection of integer coordinates")
    return case


FORMS = [tuple, list, np.array]


@R.scenario(lambda tier: [[list(m), i] for m in MODELS for i in range(len(points("thorough", make(m))))])
def pairs(ctx, case):
    """Distances of all pairs of points."""
    ref = make(case[0])
    pts = points("thorough", ref)
    p = pts[case[1]]
    for n, q in enumerate(pts):
        form = FORMS[n % 3]
        d = ref.model.distance(form(p), form(q))
        check(np.ndim(d) == 0, "distance is %s", d)
        want = ref.distance(p, q)
        near(float(d), want, "%s: distance of %s and %s", case[0], p, q, scale=ref.r * 1e-1)
        near(float(ref.model.distance(form(q), form(p))), float(d), "distance in the other direction", scale=ref.r * 1e-3)
        check(d >= 0, "distance %s", d)
        ctx.step(2)
    near(float(ref.model.distance(p, p)), 0.0, "distance of %s to itself", p, scale=ref.r * 1e-2)
    close_by = (p[0] - 1e-4 if p[0] > 0 else p[0] + 1e-4, p[1])
    near(float(ref.model.distance(p, close_by)), ref.distance(p, close_by), "distance of close points", tol=1e-4, scale=ref.r * 1e-9)


@R.scenario(lambda tier: [[list(m), i] for m in MODELS for i in range(len(points("thorough", make(m), True)))])
def triangles(ctx, case):
    """Triangle inequality for all triples of points."""
    ref = make(case[0])
    pts = points("quick", ref, True)
    if case[1] >= len(pts):
        return
    p = pts[case[1]]
    dist = {(a, b): float(ref.model.distance(a, b)) for a in pts for b in pts}
    for q in pts:
        for r in pts:
            check(dist[p, r] <= dist[p, q] + dist[q, r] + 1e-7 * ref.r, "%s -> %s is longer than the way over %s", p, r, q)
            ctx.step()


@R.scenario(lambda tier: [[list(m), i] for m in MODELS for i in range(len(points("thorough", make(m), True)))])
def paths(ctx, case):
    """Shortest paths between all pairs of points."""
    ref = make(case[0])
    pts = points("thorough", ref, True)
    if case[1] >= len(pts):
        return
    p = pts[case[1]]
    for n, q in enumerate(pts):
        dist = ref.distance(p, q)
        for res in (2, 3, 8):
            form = FORMS[(n + res) % 3]
            s, e = form(p), form(q)
            path = np.asarray(ref.model.shortest_path(s, e, res))
            ctx.step()
            check(tuple(s) == p and tuple(e) == q, "start or end was changed")
            check(path.shape == (res, 2), "path of %s points has shape %s", res, path.shape)
            same_place(path[0], p, "%s: path from %s to %s starts at", case[0], p, q, tol=1e-5)
            same_place(path[-1], q, "%s: path from %s to %s ends at", case[0], p, q, tol=1e-5)
            if isinstance(ref, Mercator):
                if not all(ref.inside(x) for x in path):
                    continue
            parts = [ref.distance(a, b) for a, b in zip(path, path[1:])]
            for part in parts:
                near(part, dist / (res - 1), "%s: part of the path %s from %s to %s", case[0], path.tolist(), p, q, tol=1e-5, scale=ref.r * 1e-2)
    proj = np.asarray(ref.model.project(np.array([p, pts[0]])))
    path = np.asarray(ref.model.shortest_projected_path(proj[0], proj[1], 5))
    check(path.shape == (5, proj.shape[1]), "projected path has shape %s", path.shape)
    check(np.allclose(path[[0, -1]], proj, rtol=1e-6, atol=1e-6 * ref.r), "projected path from %s to %s runs from %s to %s", *proj, path[0], path[-1])
    if isinstance(ref, Sphere):
        check(np.allclose(np.linalg.norm(path, axis=1), ref.r, rtol=1e-7), "projected path leaves the globe: %s", path)
    check(len(ref.model.shortest_path(p, pts[0])) == 1000, "default number of points on a path")


@R.scenario(lambda tier: [[list(m), e] for m in MODELS for e in (-2, -3, -4, -5, -6, -7)])
def points_close_together(ctx, case):
    """Points from a mile to a centimeter apart: distances, paths and coordinates keep their digits."""
    ref = make(case[0])
    d = 10.0 ** case[1]
    bases = [(0.123456789, 0.3), (54.3219876, 10.1234567), (-35.5, -70.25), (12.0, 179.99999999), (60.5, -180.0), (-75.0, 135.0)]
    for p in bases:
        for b in range(0, 360, 30):
            q = (p[0] + d * math.cos(math.radians(b)), p[1] + d * math.sin(math.radians(b)))
            if isinstance(ref, Mercator) and not (ref.inside(p) and ref.inside(q) and np.linalg.norm(ref.project(p) - ref.project(q)) < ref.r):
                continue
            want = ref.distance(p, q)
            got = float(ref.model.distance(p, q))
            ctx.step()
            tol = 1e-13 * 180 / math.pi / d * (100 if isinstance(ref, Mercator) else 10) + 1e-9
            check(abs(got - want) <= tol * want, "%s: %s and %s are %s apart instead of %s", case[0], p, q, got, want)
            both = np.asarray(ref.model.lat_lon(ref.model.project(np.array([p, q]))))
            ctx.step(2)
            for x, y in zip(both, (p, q)):
                check(math.degrees(arc(x, y)) < 1e-10, "%s: coordinates %s of the projection of %s", case[0], x.tolist(), y)
            proj = np.asarray(ref.model.project(np.array([p, q])))
            size = float(np.linalg.norm(proj[0] - proj[1]))
            check(abs(size - want) <= (tol + 1e-8) * want, "%s: the projections of %s and %s are %s apart instead of %s", case[0], p, q, size, want)
            if d >= 1e-5:
                path = np.asarray(ref.model.shortest_path(p, q, 5))
                ctx.step()
                check(path.shape == (5, 2), "shape %s", path.shape)
                for x, y in zip(path, path[1:]):
                    part = ref.distance(tuple(x), tuple(y))
                    check(abs(part - want / 4) <= 1e-3 * want, "%s: a quarter of the path from %s to %s is %s of %s long", case[0], p, q, part, want)


@R.scenario(lambda tier: [[list(m), n] for m in MODELS[:1] + MODELS[3:5] for n in (100, 101, 256, 257, 1000, 1025, 5000)])
def many_points(ctx, case):
    """Large stacks of points and paths of many points."""
    ref = make(case[0])
    n = case[1]
    pts = [(140.0 * ((i * 37) % n) / n - 70.0, 350.0 * ((i * 11) % n) / n - 174.0) for i in range(n)]
    if isinstance(ref, Mercator):
        pts = [p for p in pts if ref.inside(p)]
    proj = np.asarray(ref.model.project(np.array(pts)))
    check(len(proj) == len(pts), "%s points projected to %s", len(pts), len(proj))
    back = np.asarray(ref.model.lat_lon(proj))
    ctx.step(2)
    for p, x, b in zip(pts, proj, back):
        check(np.allclose(x, ref.project(p), rtol=1e-9, atol=1e-9 * ref.r), "%s of %s points is projected to %s", p, n, x)
        check(math.degrees(arc(p, b)) < 1e-9, "%s restored as %s", p, b)
    p, q = pts[0], (pts[0][0] + 20.0, pts[0][1] + 30.0)
    path = np.asarray(ref.model.shortest_path(p, q, n))
    ctx.step()
    check(path.shape == (n, 2), "path of %s points has shape %s", n, path.shape)
    parts = [ref.distance(tuple(a), tuple(b)) for a, b in zip(path, path[1:])]
    want = ref.distance(p, q)
    check(max(abs(x * (n - 1) - want) for x in parts) <= 1e-5 * want, "parts of a path of %s points measure %s to %s instead of %s", n, min(parts), max(parts), want / (n - 1))
