"""C24: samplers return the requested number of points in the data's hull."""
import itertools
import math
from unittest import mock

import numpy as np

from hrosailing.processing import ArchimedeanSampler, FibonacciSampler, UniformRandomSampler
from vf.core import Registry, check, fail, raises

ID = "C24"
ASSUMPTIONS = [
    "the points span a triangle at least (no sample region otherwise)",
    "the shuffle of the enclosing-circle search is controlled by handing the points over in every order",
    "uniform sampling is compared with the area proportions of the hull within 10 % for one controlled random stream",
]
R = Registry()
SAMPLERS = {"uniform": UniformRandomSampler, "fibonacci": FibonacciSampler, "archimedean": ArchimedeanSampler}
SCALES = {"wind": ([4.0, 8.0, 14.0], [20.0, 75.0, 150.0]), "square": ([-1.0, 0.0, 1.0], [-1.0, 0.0, 1.0]), "flat": ([10.0, 10.5, 11.0], [0.0, 170.0, 350.0])}


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(pts):
    """Convex hull, counter-clockwise (monotone chain)."""
    pts = sorted(set(map(tuple, pts)))

    def half(ps):
        out = []
        for p in ps:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    return half(pts) + half(pts[::-1])


def inside(h, p, tol):
    return all(
        cross(a, b, p) >= -tol * math.dist(a, b) for a, b in zip(h, h[1:] + h[:1])
    )


def area(h):
    return 0.5 * sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1]))


def circle(pts):
    """Smallest enclosing circle by brute force."""
    pts = sorted(set(map(tuple, pts)))
    best = None
    for k in (2, 3):
        for c in itertools.combinations(pts, k):
            if k == 2:
                m = ((c[0][0] + c[1][0]) / 2, (c[0][1] + c[1][1]) / 2)
            else:
                (ax, ay), (bx, by), (cx, cy) = c
                d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
                if abs(d) < 1e-9:
                    continue
                m = (
                    ((ax**2 + ay**2) * (by - cy) + (bx**2 + by**2) * (cy - ay) + (cx**2 + cy**2) * (ay - by)) / d,
                    ((ax**2 + ay**2) * (cx - bx) + (bx**2 + by**2) * (ax - cx) + (cx**2 + cy**2) * (bx - ax)) / d,
                )
            r = max(math.dist(m, p) for p in pts)
            if best is None or r < best[1] - 1e-12:
                best = (m, r)
    return best


PHI = (1 + math.sqrt(5)) / 2


def angle_gap(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def is_fibonacci(s, m, h, tol):
    """Samples are consecutive in-hull points of one scaled golden spiral."""
    d = s - np.array(m)
    rho, theta = np.hypot(d[:, 0], d[:, 1]), np.arctan2(d[:, 1], d[:, 0])
    first = int(np.argmin(rho))
    if rho[first] < 1e-9:
        return False
    slack = 0.02 + 2 * tol / rho[first]
    for i0 in range(1, 4000):
        if angle_gap(2 * math.pi * i0 / PHI, theta[first]) > slack:
            continue
        c = rho[first] / math.sqrt(i0)
        idx = np.rint((rho / c) ** 2).astype(int)
        want = np.column_stack([np.sqrt(idx) * np.cos(2 * np.pi * idx / PHI), np.sqrt(idx) * np.sin(2 * np.pi * idx / PHI)]) * c + np.array(m)
        if np.abs(want - s).max() > tol or len(set(idx)) != len(idx):
            continue
        allowed = set(idx.tolist())
        missing = 0
        for i in range(1, int(idx.max())):
            if i not in allowed:
                a = 2 * math.pi * i / PHI
                p = (m[0] + c * math.sqrt(i) * math.cos(a), m[1] + c * math.sqrt(i) * math.sin(a))
                missing += inside(h, p, -tol)
        if missing == 0:
            return True
    return False


BETAS = [0.0]
while len(BETAS) < 130000:
    BETAS.append(BETAS[-1] + 8 / (BETAS[-1] + 2))
BETAS = np.array(BETAS)
UNIT = np.column_stack([BETAS * np.cos(BETAS), BETAS * np.sin(BETAS)])


def is_archimedean(s, m, h, tol):
    """Samples are all the in-hull points of one scaled, equidistantly filled spiral about m."""
    m = np.array(m)
    d = s - m
    rho, theta = np.hypot(d[:, 0], d[:, 1]), np.arctan2(d[:, 1], d[:, 0])
    ref = int(np.argmax(rho))
    if rho[ref] < tol:
        return len(s) == 1
    gap = np.abs((BETAS - theta[ref] + np.pi) % (2 * np.pi) - np.pi)
    for i in np.flatnonzero(gap * rho[ref] <= 2 * tol):
        if i == 0:
            continue
        t = rho[ref] / BETAS[i]
        idx = np.clip(np.searchsorted(BETAS, rho / t), 1, i)
        idx -= rho / t - BETAS[idx - 1] < BETAS[idx] - rho / t
        if len(set(idx.tolist())) != len(idx) or np.abs(t * UNIT[idx] + m - s).max() > tol:
            continue
        rest = np.delete(t * UNIT[:i] + m, idx[idx < i], axis=0)
        within = np.ones(len(rest), dtype=bool)
        for a, b in zip(h, h[1:] + h[:1]):
            within &= (b[0] - a[0]) * (rest[:, 1] - a[1]) - (b[1] - a[1]) * (rest[:, 0] - a[0]) >= tol * math.dist(a, b)
        if not within.any():
            return True
    return False


def points(scale, cells):
    xs, ys = SCALES[scale]
    return np.array([[xs[c % 3], ys[c // 3]] for c in cells])


def observe(ctx, which, n, pts, extra=True):
    before = pts.copy()
    with mock.patch("numpy.random.shuffle", lambda x: None):
        sampler = SAMPLERS[which](n)
        s = sampler.sample(pts)
    what = f"{which} sample of {n} for {pts.tolist()}"
    check(np.array_equal(before, pts), f"{what} changed the points")
    check(isinstance(s, np.ndarray) and s.shape == (n, 2), f"{what} has shape {np.shape(s)}")
    h = hull(pts)
    size = max(np.ptp(pts[:, 0]), np.ptp(pts[:, 1]))
    for p in s:
        check(inside(h, p, 1e-6 * size), f"{what}: {p} outside the hull {h}")
    check(len({tuple(np.round((p - s[0]) / size, 9)) for p in s}) == n, f"{what} has duplicates")
    if extra and which != "uniform" and n > 1:
        m, r = circle(pts)
        if which == "archimedean" and math.pi * r**2 * n > 0.9 * len(BETAS) * area(h):
            return s  # longer than the reference spiral
        tol = 5e-4 * max(1.0, size / 100)
        ok = is_fibonacci(s, m, h, tol) if which == "fibonacci" else is_archimedean(s, m, h, tol * 4)
        check(ok, f"{what} is not on a {which} spiral about {m}: {s.tolist()}")
    ctx.step()
    return s


def lattice_sets(sizes):
    for k in sizes:
        for cells in itertools.combinations(range(9), k):
            if len(hull([(c % 3, c // 3) for c in cells])) >= 3:
                yield list(cells)


@R.scenario(lambda t: [[w, sc, cells, n] for w in SAMPLERS for sc in SCALES for cells in lattice_sets((3, 4, 5, 6, 9) if t == "thorough" else (3, 4, 9)) for n in ([1, 2, 3, 5, 10, 40, 100] if t == "thorough" else [1, 3, 20])])
def counts_and_hull(ctx, case):
    """Requested number, in the hull, without duplicates, on the spiral."""
    which, sc, cells, n = case
    s = observe(ctx, which, n, points(sc, cells))
    return [round(float(s[0][0]), 3), round(float(s[-1][1]), 3)] if which != "uniform" else n


@R.scenario(lambda t: [[w, cells, n] for w in ("fibonacci", "archimedean") for cells in lattice_sets((3, 4, 5) if t == "thorough" else (3, 4)) for n in (4, 11)])
def orders(ctx, case):
    """Every order in which the points may be visited gives such a sample."""
    which, cells, n = case
    pts = points("wind", cells)
    first = None
    h, m = hull(pts), circle(pts)[0]
    # a centre on the border of the hull is in or out by rounding only
    border = inside(h, m, 1e-3) and not inside(h, m, -1e-3)
    for perm in itertools.permutations(range(len(cells))):
        s = observe(ctx, which, n, pts[list(perm)], extra=border)
        if first is None:
            first = s
        elif not border and np.abs(s - first).max() > 1e-3:
            fail(f"{which} sample of {n} for {pts.tolist()} in order {perm}: {s.tolist()}, first {first.tolist()}")
    return np.round(first[0], 3)


CLOUDS = {
    "grid": [[a, b] for a in (4, 6, 8, 10, 12, 14, 16) for b in range(0, 360, 30)],
    "duplicates": [[4, 30], [4, 30], [10, 90], [10, 90], [4, 90], [6, 60]],
    "sliver": [[10.0, 0.0], [10.05, 180.0], [10.0, 359.0]],
    "circle": [[10 + 5 * math.cos(k), 100 + 5 * math.sin(k)] for k in range(20)],
    "obtuse": [[0.0, 0.0], [10.0, 1.0], [20.0, 0.0]],
    "inner": [[0.0, 0.0], [20.0, 0.0], [0.0, 300.0], [20.0, 300.0], [10.0, 150.0], [9.0, 151.0]],
    "shifted": [[1000 + x, -2000 + y] for x, y in ((0, 0), (7, 3), (2, 9), (5, 5))],
    "ints": [[1, 1], [-1, 1], [-1, -1], [1, -1], [0, 0]],
}


@R.scenario(lambda t: [[w, c, n] for w in SAMPLERS for c in CLOUDS for n in ([1, 2, 3, 4, 5, 8, 20, 64, 150, 500] + ([1000, 2000] if t == "thorough" else []))]
            + [[w, c, n] for w in SAMPLERS for c in ("obtuse", "inner", "shifted") for n in ((4999, 9000) if w == "uniform" else (1500,))])
def clouds(ctx, case):
    """Larger and degenerate clouds, larger samples."""
    which, c, n = case
    pts = np.array(CLOUDS[c])
    observe(ctx, which, n, pts, extra=c not in ("sliver", "obtuse"))
    return n


@R.scenario([[w, c] for w in SAMPLERS for c in ("grid", "obtuse", "inner", "shifted", "circle")])
def even_spread(ctx, case):
    """Parts of the hull get their share of a large sample."""
    which, c = case
    pts = np.array(CLOUDS[c], dtype=float)
    n = 3000
    rng = np.random.default_rng(7)
    with mock.patch("numpy.random.default_rng", lambda *a: rng):
        s = observe(ctx, which, n, pts, extra=False)
    h = hull(pts)
    # fan of triangles about an interior point: a partition of the hull
    mid = tuple(np.mean(h, axis=0))
    for a, b in zip(h, h[1:] + h[:1]):
        tri = [mid, a, b]
        share = area(tri) / area(h)
        got = sum(inside(tri, p, 0) for p in s) / n
        if abs(got - share) > 0.03 + 0.1 * share:
            fail(f"{which} sample of {c}: {got:.3f} of the sample in a triangle with {share:.3f} of the area")
    return [round(float(np.mean(s[:, 0])), 2)] if which != "uniform" else which


@R.scenario([[w, n] for w in SAMPLERS for n in (0, -1, -10)])
def refused(ctx, case):
    raises(ValueError, lambda: SAMPLERS[case[0]](case[1]), f"{case[1]} samples")
    return case


@R.scenario([[w, n, list(o)] for w in SAMPLERS for n in (3, 12) for o in itertools.permutations(range(3))])
def reuse(ctx, case):
    """One sampler used for several data sets."""
    which, n, order = case
    sets = [points("wind", (0, 2, 7)), points("square", (0, 2, 6, 8)), np.array(CLOUDS["shifted"], dtype=float)]
    sampler = SAMPLERS[which](n)
    with mock.patch("numpy.random.shuffle", lambda x: None):
        for i in order:
            s = sampler.sample(sets[i])
            check(s.shape == (n, 2), f"shape {s.shape}")
            h = hull(sets[i])
            check(all(inside(h, p, 1e-4) for p in s), f"{which}: sample leaves the hull after other data")
            if which != "uniform":
                fresh = SAMPLERS[which](n).sample(sets[i])
                check(np.abs(s - fresh).max() < 1e-9, f"{which}: sample depends on earlier data")
            ctx.step()
    return case


SHAPES = {
    "triangle": [[0, 0], [1, 0], [0.5, 0.8]],
    "right": [[0, 0], [1, 0], [0, 1]],
    "obtuse": [[0, 0], [1, 0], [0.45, 0.2]],
    "square": [[0, 0], [1, 0], [1, 1], [0, 1]],
    "inner": [[0, 0], [1, 0], [0.5, 0.8], [0.5, 0.3], [0.5, 0.31]],
    "pairs": [[0, 0], [0, 1e-3], [1, 0], [1, 1e-3], [0.5, 0.7]],
}
PLACES = {"origin": (0.0, 0.0), "wind": (10.0, 90.0), "corner": (-0.5, -0.4), "far": (-300.0, 720.0)}


@R.scenario(lambda t: [[w, s, p, e, n] for w in SAMPLERS for s in SHAPES for p in PLACES for e in (-6, -4, -3, -2, -1, 0, 1, 2, 3)
                       for n in ((1, 7, 30) if t == "thorough" else (7,))])
def every_scale(ctx, case):
    """Data of any extent anywhere, met in every order."""
    which, shape, place, exp, n = case
    pts = np.array(SHAPES[shape]) * 10.0**exp + np.array(PLACES[place])
    perms = list(itertools.permutations(range(len(pts)))) if which != "uniform" else [range(len(pts))]
    # the enclosing circle is found up to 1e-4 only
    exact = exp >= 1 and shape in ("triangle", "right", "square")
    for perm in perms if len(perms) <= 24 else perms[::7]:
        observe(ctx, which, n, pts[list(perm)], extra=exact and n > 1 and place != "far")


@R.scenario([[w, k, n] for w in SAMPLERS for k in ("same", "line", "slanted", "two", "none", "one") for n in (1, 9, 10, 40)])
def nothing_to_fill(ctx, case):
    """Points that span no area are refused and not searched forever."""
    which, kind, n = case
    pts = {"same": [[8.0, 90.0]] * 4, "line": [[8.0, float(a)] for a in range(0, 100, 10)], "slanted": [[i / 10, 0.3 * i] for i in range(7)],
           "two": [[8.0, 90.0], [9.0, 91.0]], "none": np.empty((0, 2)), "one": [[8.0, 90.0]]}[kind]
    raises(Exception, lambda: SAMPLERS[which](n).sample(np.array(pts)), f"{which} sampling of {kind}")
    ctx.step()
