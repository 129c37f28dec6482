"""C04: interpolators honour data points, bounds and their formulas."""
import itertools
import math

import numpy as np

from hrosailing.core.computing import scaled_euclidean_norm
from hrosailing.core.data import WeightedPoints
from hrosailing.core.exceptions import (
    BilinearInterpolatorNoGridException,
    BilinearInterpolatorOutsideGridException,
)
from hrosailing.processing import (
    ArithmeticMeanInterpolator,
    Ball,
    Cuboid,
    IDWInterpolator,
    ImprovedIDWInterpolator,
)
from hrosailing.processing.interpolator import BilinearGridInterpolator, ShepardInterpolator
from vf.core import Registry, check, fail, raises

ID = "C04"
ASSUMPTIONS = ["Shepard's formula: D. Shepard, A two-dimensional interpolation function (1968)"]
R = Registry()

POOL = [
    [10.0, 45.0, 5.0], [12.0, 45.0, 6.5], [10.0, 90.0, 7.25], [14.0, 120.0, 0.0],
    [6.0, 200.0, 3.0], [8.0, 359.0, -1.0], [10.5, 50.0, 5.0], [20.0, 0.0, 12.0],
]
QUERIES = [[10.0, 45.0], [12.0, 45.0], [11.0, 45.0], [10.0, 60.0], [0.0, 0.0], [25.0, 300.0],
           [10.001, 45.001], [9.0, 180.0], [14.0, 120.0]]


def euclid(v):
    return np.linalg.norm(v, axis=1)


def manhattan(v):
    return np.sum(np.abs(v), axis=1)


NORMS = {
    "default": (None, lambda a, b: math.hypot((a[0] - b[0]) / 40, (a[1] - b[1]) / 360)),
    "euclid": (euclid, lambda a, b: math.hypot(a[0] - b[0], a[1] - b[1])),
    "manhattan": (manhattan, lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])),
}


def kw(norm):
    return {} if NORMS[norm][0] is None else {"norm": NORMS[norm][0]}


def potential(dist, wts, a, b):
    return wts * (a - b * dist / 1000)


SPECS = (
    [["idw", p, n] for p in (None, 0, 1, 2, 3, 17, 150) for n in NORMS]
    + [["mean", s, par, "default"] for s in (None, 1, 2.5) for par in (None, [1], [50], [100], [3000])]
    + [["mean", 1, [0.5], "manhattan"], ["mean", 2, [0.01], "euclid"], ["custom", 3, [2.0, 0.5], "default"]]
    + [["improved", n] for n in NORMS]
    + [["shepard", nb, n, slope] for nb in ("ball", "small", "cuboid")
       for n in ("default", "euclid") for slope in (None, 0.5)]
)


def build(spec):
    kind = spec[0]
    if kind == "idw":
        return IDWInterpolator(**({} if spec[1] is None else {"p": spec[1]}), **kw(spec[2]))
    if kind == "mean":
        k = kw(spec[3])
        if spec[1] is not None:
            k["s"] = spec[1]
        if spec[2] is not None:
            k["params"] = tuple(spec[2])
        return ArithmeticMeanInterpolator(**k)
    if kind == "custom":
        return ArithmeticMeanInterpolator(s=spec[1], distribution=potential,
                                          params=tuple(spec[2]), **kw(spec[3]))
    if kind == "improved":
        return ImprovedIDWInterpolator(**kw(spec[1]))
    nb = {"ball": Ball(radius=1e6), "small": Ball(radius=0.14),
          "cuboid": Cuboid(dimensions=(5, 60))}[spec[1]]
    return ShepardInterpolator(nb, **({} if spec[3] is None else {"slope": spec[3]}), **kw(spec[2]))


def shepard_weights(d):
    r = max(d)
    w = [1 / x if x <= r / 3 else 27 / (4 * r) * (x / r - 1) ** 2 for x in d]
    return w if any(x > 0 for x in w) else [1.0] * len(w)


def reference(spec, pts, w, q):
    kind = spec[0]
    norm = NORMS[spec[{"idw": 2, "mean": 3, "custom": 3, "improved": 1, "shepard": 2}[kind]]][1]
    d = [norm(p, q) for p in pts]
    for p, x in zip(pts, d):
        if x == 0:
            return p[2]
    z = [p[2] for p in pts]
    if kind == "idw":
        p = 2 if spec[1] is None else spec[1]
        ws = [(min(d) / x) ** p for x in d]
        return sum(a * b for a, b in zip(ws, z)) / sum(ws)
    if kind in ("mean", "custom"):
        s = 1 if spec[1] is None else spec[1]
        if kind == "mean":
            alpha = (spec[2] or [100])[0]
            ex = [alpha * a * x for a, x in zip(w, d)]
            ws = [math.exp(min(ex) - e) for e in ex]
        else:
            ws = [a * (spec[2][0] - spec[2][1] * x / 1000) for a, x in zip(w, d)]
        return s * sum(a * b for a, b in zip(ws, z)) / sum(ws)
    s = shepard_weights(d)
    if kind == "improved":
        ws = [a * a for a in s]
        return sum(a * b for a, b in zip(ws, z)) / sum(ws)
    n = len(pts)
    t = []
    for i in range(n):
        acc = 0.0
        for j in range(n):
            if j != i:
                cos = ((q[0] - pts[i][0]) * (q[0] - pts[j][0])
                       + (q[1] - pts[i][1]) * (q[1] - pts[j][1])) / (d[i] * d[j])
                acc += s[j] * (1 - cos)
        t.append(acc / sum(s))
    ws = [a * a * (1 + b) for a, b in zip(s, t)]
    if min(d) < np.finfo(float).eps:
        near = [zz for zz, x in zip(z, d) if x < np.finfo(float).eps]
        return sum(near) / len(near)

    def inside(a, b):
        if spec[1] == "ball":
            return True
        if spec[1] == "small":
            return NORMS["default"][1](a, b) <= 0.14
        return abs(a[0] - b[0]) <= 5 and abs(a[1] - b[1]) <= 60

    grad = []
    for i in range(n):
        nb = [j for j in range(n) if j != i and inside(pts[j], pts[i]) and norm(pts[j], pts[i]) > 0]
        tot = sum(ws[j] for j in nb)
        if tot == 0:
            grad.append((0.0, 0.0))
            continue
        a = sum(ws[j] * (z[j] - z[i]) * (pts[j][0] - pts[i][0]) / norm(pts[j], pts[i]) ** 2 for j in nb)
        b = sum(ws[j] * (z[j] - z[i]) * (pts[j][1] - pts[i][1]) / norm(pts[j], pts[i]) ** 2 for j in nb)
        grad.append((a / tot, b / tot))
    steep = max(math.hypot(*g) for g in grad)
    slope = 0.1 if spec[3] is None else spec[3]
    out = 0.0
    for i in range(n):
        dz = 0.0
        if steep > 0:
            v = slope * (max(z) - min(z)) / steep
            dz = (grad[i][0] * (q[0] - pts[i][0]) + grad[i][1] * (q[1] - pts[i][1])) * v / (v + d[i])
        out += ws[i] * (z[i] + dz)
    return out / sum(ws)


def one(ctx, interp, spec, pts, w, q, what):
    arr = np.array(pts, dtype=float)
    wts = np.array(w, dtype=float)
    got = interp.interpolate(WeightedPoints(arr, wts), np.array(q, dtype=float))
    ctx.step()
    check(arr.tolist() == [list(map(float, p)) for p in pts] and wts.tolist() == list(map(float, w)),
          "%s modified its points or weights", what)
    want = reference(spec, pts, w, q)
    check(np.ndim(got) == 0 and abs(float(got) - want) <= 1e-7 * (1 + abs(want)),
          "%s at %s of %s (weights %s): %s, expected %s", what, q, pts, w, got, want)
    s = spec[1] if spec[0] in ("mean", "custom") else None
    if spec[0] != "shepard" and s in (None, 1):
        z = [p[2] for p in pts]
        check(min(z) - 1e-9 <= float(got) <= max(z) + 1e-9,
              "%s at %s: %s outside the range of %s", what, q, got, z)
    return float(got)


def subset_cases(tier):
    top = 5 if tier == "thorough" else 4
    for si in range(len(SPECS)):
        for k in range(1, top + 1):
            for sub in itertools.combinations(range(len(POOL)), k):
                yield [si, list(sub)]
        yield [si, list(range(len(POOL)))]


@R.scenario(subset_cases)
def every_point_set_against_the_formula(ctx, case):
    """Every subset of the pool x query, fresh and reused object, two weightings."""
    spec = SPECS[case[0]]
    pts = [POOL[i] for i in case[1]]
    interp = build(spec)
    vals = []
    for q in QUERIES:
        for w in ([1.0] * len(pts), [0.25 + 0.5 * i for i in range(len(pts))]):
            vals.append(one(ctx, interp, spec, pts, w, q, repr(spec)))
    return vals[:6]


@R.scenario(lambda tier: (
    [si, list(p)] for si in range(len(SPECS))
    for p in itertools.permutations(range(6 if tier == "thorough" else 5))))
def every_order_of_the_points(ctx, case):
    """The order of the points is irrelevant."""
    spec = SPECS[case[0]]
    order = [0, 2, 3, 4, 6, 5]
    pts = [POOL[order[i]] for i in case[1]]
    w = [0.5 + 0.5 * i for i in case[1]]
    for q in QUERIES:
        one(ctx, build(spec), spec, pts, w, q, repr(spec))


@R.scenario(lambda tier: (
    [si, a, b] for si in range(len(SPECS)) for a in range(6) for b in range(6)))
def every_pair_of_queries_on_one_object(ctx, case):
    """A second query is answered as if it were the first."""
    sets = [([0, 1, 2], 2), ([0, 1, 2], 3), ([3], 0), ([4, 5, 6, 7], 7), ([0, 2, 3, 4, 5], 0), ([7, 6, 1], 4)]
    spec = SPECS[case[0]]
    interp = build(spec)
    for k in case[1:]:
        sub, qi = sets[k]
        pts = [POOL[i] for i in sub]
        w = [1.0 + 0.25 * i for i in range(len(pts))]
        one(ctx, interp, spec, pts, w, QUERIES[qi], repr(spec))
        # an unrelated object must not share anything
        build(SPECS[(case[0] + 1) % len(SPECS)])


@R.scenario(lambda tier: ([si, v] for si in range(len(SPECS)) for v in (0.0, 3.5, -2.0)))
def constant_data_is_reproduced(ctx, case):
    spec, v = SPECS[case[0]], case[1]
    for k in (1, 2, 3, 5):
        pts = [p[:2] + [v] for p in POOL[:k]]
        for q in QUERIES:
            w = [1.0] * k
            got = one(ctx, build(spec), spec, pts, w, q, repr(spec))
            s = spec[1] if spec[0] in ("mean", "custom") and spec[1] else 1
            if q not in [p[:2] for p in pts]:
                check(abs(got - s * v) < 1e-7 * (1 + abs(s * v)), "%s: constant %s became %s", spec, v, got)


# ------------------------------------------------------------- ring of points
@R.scenario(lambda tier: ([si, n] for si in range(len(SPECS)) for n in (1, 2)))
def equidistant_points(ctx, case):
    """All points at the same distance from the query."""
    spec = SPECS[case[0]]
    ring = [[11.0, 90.0, 4.0], [9.0, 90.0, 8.0]]
    pts = ring[:case[1]]
    one(ctx, build(spec), spec, pts, [1.0] * len(pts), [10.0, 90.0], repr(spec))


@R.scenario(lambda tier: ([si, n] for si in range(len(SPECS)) for n in (12, 60, 300)))
def large_point_sets(ctx, case):
    """Lattices far larger than the combinatorial part."""
    spec, n = SPECS[case[0]], case[1]
    if spec[0] == "shepard":
        n = n // 10 + 4
    pts = [[2.0 + 2 * (i % 20), 7.0 * (i // 20) + 3 * (i % 20), float((i * 37) % 101) / 8] for i in range(n)]
    w = [0.2 + (i % 5) / 5 for i in range(n)]
    for q in ([10.0, 45.0], [2.0, 0.0], [9.0, 20.5], [33.0, 300.0], [12.0, 15.0]):
        one(ctx, build(spec), spec, pts, w, q, repr(spec))


@R.scenario([[k] for k in range(5)])
def invalid_parameters_are_refused(ctx, case):
    ctx.step()
    f = [lambda: IDWInterpolator(p=-1), lambda: IDWInterpolator(p=1.5),
         lambda: ArithmeticMeanInterpolator(s=0), lambda: ShepardInterpolator(Ball(), tol=0),
         lambda: ShepardInterpolator(Ball(), slope=-1)][case[0]]
    raises((ValueError, TypeError), f, "invalid parameter")


# ------------------------------------------------------------------- bilinear
def grid_cases(tier):
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (3, 3)]
    if tier == "thorough":
        shapes += [(4, 4), (5, 3)]
    for m, n in shapes:
        for pattern in range(4):
            for order in range(3):
                yield [m, n, pattern, order]
                if pattern % 2:
                    yield [m, n, pattern, order, 14]
                    yield [m, n, pattern, order, 20]


def zval(pattern, i, j):
    return [float(3 * i + 7 * j), float((i * 5 + j * 3) % 7), float(i * j) - 2.5,
            float((-1) ** (i + j)) * (1 + i)][pattern]


@R.scenario(grid_cases)
def bilinear_everywhere_on_small_grids(ctx, case):
    """Nodes, edges, cells and outside points of every small grid."""
    m, n, pattern, order, *tight = case
    xs = [2.0, 4.5, 10.0, 11.0, 30.0][:m]
    ys = [0.0, 30.0, 45.0, 180.0, 350.0][:n]
    for bits in tight:  # nodes close to one another
        xs = [8 + x * 2.0 ** -bits for x in xs]
        ys = [100 + y * 2.0 ** -bits for y in ys]
    pts = [[x, y, zval(pattern, i, j)] for i, x in enumerate(xs) for j, y in enumerate(ys)]
    if order == 1:
        pts = pts[::-1]
    elif order == 2:
        pts = sorted(pts, key=lambda p: (p[1] * 7919 % 13, p[0] * 31 % 7))
    arr = np.array(pts)
    interp = BilinearGridInterpolator()
    z = {(i, j): zval(pattern, i, j) for i in range(m) for j in range(n)}

    def query(x, y):
        ctx.step()
        wp = WeightedPoints(arr, np.ones(len(arr)))
        return interp.interpolate(wp, np.array([x, y]))

    fr = [0.0, 0.25, 0.5, 0.9]
    for i in range(m):
        for j in range(n):
            for a in fr if i + 1 < m else [0.0]:
                for b in fr if j + 1 < n else [0.0]:
                    i2, j2 = min(i + 1, m - 1), min(j + 1, n - 1)
                    x = xs[i] + a * (xs[i2] - xs[i])
                    y = ys[j] + b * (ys[j2] - ys[j])
                    want = ((1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[i2, j]
                            + (1 - a) * b * z[i, j2] + a * b * z[i2, j2])
                    got = query(x, y)
                    check(abs(got - want) < (1e-6 if tight else 1e-8) * (1 + abs(want)), "bilinear at (%s, %s) of %s: %s, expected %s",
                          x, y, pts, got, want)
    mid = (xs[0] + xs[-1]) / 2, (ys[0] + ys[-1]) / 2
    for x, y in [(xs[0] - 0.5, mid[1]), (xs[-1] + 0.5, mid[1]), (mid[0], ys[0] - 1), (mid[0], ys[-1] + 1),
                 (xs[0] - 1, ys[0] - 1), (xs[-1] + 9, ys[-1] + 9)]:
        raises(BilinearInterpolatorOutsideGridException, lambda: query(x, y), f"query ({x}, {y}) outside the grid")
    check(arr.tolist() == pts, "the grid was modified")


@R.scenario([[i] for i in range(9)])
def bilinear_refuses_incomplete_grids(ctx, case):
    """Every single missing node of a 3x3 grid spoils exactly its cells."""
    xs, ys = [1.0, 2.0, 4.0], [0.0, 90.0, 180.0]
    full = [[x, y, x + y] for x in xs for y in ys]
    gone = full[case[0]]
    arr = np.array([p for p in full if p is not gone])
    interp = BilinearGridInterpolator()
    for cx, (x0, x1) in enumerate(zip(xs, xs[1:])):
        for cy, (y0, y1) in enumerate(zip(ys, ys[1:])):
            q = np.array([(x0 + x1) / 2, (y0 + y1) / 2])
            wp = WeightedPoints(arr, np.ones(len(arr)))
            ctx.step()
            if gone[0] in (x0, x1) and gone[1] in (y0, y1):
                raises(BilinearInterpolatorNoGridException, lambda: interp.interpolate(wp, q),
                       f"cell with missing node {gone}")
            else:
                check(abs(interp.interpolate(wp, q) - sum(q)) < 1e-9, "bilinear of a linear function")
    bad = WeightedPoints(np.ones((4, 4)), np.ones(4))
    raises(BilinearInterpolatorNoGridException, lambda: interp.interpolate(bad, np.array([1.0, 1.0])), "4 columns")


# ------------------------------------------------- points next to the query
OFFSETS = [[0.0, 0.0], [2.0 ** -10, 0.0], [0.0, 2.0 ** -10], [-2.0 ** -17, 2.0 ** -16], [2.0 ** -24, 0.0],
           [0.0, -2.0 ** -22], [2.0 ** -33, 2.0 ** -33]]


@R.scenario(lambda tier: (
    [si, list(sub)] for si in range(len(SPECS)) for k in (1, 2)
    for sub in itertools.permutations(range(len(OFFSETS)), k)))
def points_next_to_the_query(ctx, case):
    """Only a point with exactly the wind asked for decides alone, however near others are."""
    spec = SPECS[case[0]]
    for q in ([10.0, 45.0], [0.0, 0.0], [16.0, 256.0]):
        pts = [[q[0] + OFFSETS[i][0], q[1] + OFFSETS[i][1], 3.0 + 4.0 * (n % 2) + i] for n, i in enumerate(case[1])]
        for more in ([], [[q[0] + 1.5, q[1] + 20.0, 1.0]]):
            all_pts = pts + more
            w = [1.0] * len(all_pts)
            one(ctx, build(spec), spec, all_pts, w, q, repr(spec))


# ------------------------------------------------- several points of one wind
@R.scenario(lambda tier: (
    [si, list(sub), at, n] for si in range(len(SPECS)) for k in (1, 2, 3)
    for sub in itertools.combinations(range(len(POOL) if tier == "thorough" else 6), k)
    for at in range(k) for n in (1, 2)))
def several_points_of_one_wind(ctx, case):
    """Repeated measurements of one wind count as points of their own."""
    si, sub, at, n = case
    spec = SPECS[si]
    pts = [POOL[i] for i in sub]
    again = [pts[at][:2] + [pts[at][2] + 1.5 * (i + 1)] for i in range(n)]
    for all_pts in (pts + again, again + pts):
        w = [0.25 + 0.5 * i for i in range(len(all_pts))]
        for q in QUERIES:
            if q == pts[at][:2]:
                got = build(spec).interpolate(WeightedPoints(np.array(all_pts), np.array(w)), np.array(q))
                check(float(got) in [p[2] for p in all_pts if p[:2] == q], "%s at %s of %s: %s", spec, q, all_pts, got)
            else:
                one(ctx, build(spec), spec, all_pts, w, q, repr(spec))
