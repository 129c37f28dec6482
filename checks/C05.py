"""C05: neighbourhoods select exactly the points their definition names."""
import itertools
import math

import numpy as np

from hrosailing.core.computing import euclidean_norm, scaled_euclidean_norm, scaled_norm
from hrosailing.processing import Ball, Cuboid, Ellipsoid, Polytope, ScalingBall
from vf.core import Registry, check, raises

ID = "C05"
ASSUMPTIONS = ["points closer than 1e-9 to a boundary are not judged unless the comparison is exact"]
R = Registry()


def euclid(v):
    return np.linalg.norm(v, axis=1)


def maxnorm(v):
    return np.max(np.abs(v), axis=1)


def halfabs(v):
    return np.abs(v) / 2


NORM = {
    "default": (None, lambda p: math.hypot(p[0] / 40, p[1] / 360)),
    "euclid": (euclid, lambda p: math.hypot(*p)),
    "max": (maxnorm, lambda p: max(abs(p[0]), abs(p[1]))),
}

LATTICE = [[float(x), float(y)] for x in (-3, -1, 0, 1, 3) for y in (-40, -2, 0, 2, 40)]
LATTICE += [[0.5, 0.25], [-0.5, 17.5], [2.0, -18.0], [0.03, 0.04], [-0.05, 0.05], [0.049, -0.051], [4.0, 3.0],
            [0.051, 0.01], [-0.01, 0.051], [0.0505, -0.0495], [0.0495, 0.0505], [0.0, 0.05], [-0.05, 0.0], [6.0, 0.0], [2.0, 0.5], [8.0, -1.5], [-8.0, 0.5], [7.0, 3.5], [1.0, 1.0], [2.0, 1.0]]

# name, constructor, signed distance to the boundary (<= 0 inside)
T1 = [[2.0, 0.0], [0.0, 0.5]]
T2 = [[1.0, 1.0], [0.0, 1.0]]
T3 = [[0.0, 10.0], [1.0, 3.0]]
INV = {"T1": [[0.5, 0.0], [0.0, 2.0]], "T2": [[1.0, -1.0], [0.0, 1.0]],
       "T3": [[-0.3, 1.0], [0.1, 0.0]]}
TRI = ([[1.0, 0.0], [-1.0, 1.0], [-1.0, -1.0]], [2.0, 3.0, 1.5])


def apply_inv(name, p):
    m = INV[name]
    return [m[0][0] * p[0] + m[0][1] * p[1], m[1][0] * p[0] + m[1][1] * p[1]]


def shapes():
    for n, (f, g) in NORM.items():
        kw = {} if f is None else {"norm": f}
        for r in (0.05, 0.12, 1, 3.5, 40):
            yield f"Ball({r},{n})", (lambda r=r, kw=kw: Ball(radius=r, **kw)), \
                (lambda p, r=r, g=g: g(p) - r)
            for tn, t in (("T1", T1), ("T2", T2), ("T3", T3)):
                yield f"Ellipsoid({tn},{r},{n})", \
                    (lambda r=r, kw=kw, t=t: Ellipsoid(lin_trans=t, radius=r, **kw)), \
                    (lambda p, r=r, g=g, tn=tn: g(apply_inv(tn, p)) - r)
    yield "Ball()", Ball, lambda p: NORM["default"][1](p) - 0.05
    yield "Ellipsoid()", Ellipsoid, lambda p: NORM["default"][1](p) - 0.05
    yield "Cuboid()", Cuboid, lambda p: max(abs(p[0]) - 0.05, abs(p[1]) - 0.05)
    for d in ((1, 2), (3, 0.5), (0.25, 40), (2.5, 17.5)):
        yield f"Cuboid{d}", (lambda d=d: Cuboid(dimensions=d)), \
            (lambda p, d=d: max(abs(p[0]) - d[0], abs(p[1]) - d[1]))
        yield f"Cuboid{d}half", (lambda d=d: Cuboid(norm=halfabs, dimensions=d)), \
            (lambda p, d=d: max(abs(p[0]) / 2 - d[0], abs(p[1]) / 2 - d[1]))
    yield "Polytope()", Polytope, lambda p: max(abs(p[0]) - 0.05, abs(p[1]) - 0.05)
    yield "Polytope(tri)", lambda: Polytope(np.array(TRI[0]), np.array(TRI[1])), \
        lambda p: max(a[0] * p[0] + a[1] * p[1] - b for a, b in zip(*TRI))
    yield "Polytope(strip)", lambda: Polytope(np.array([[0.0, 1.0], [0.0, -1.0]]), np.array([2.0, 40.0])), \
        lambda p: max(p[1] - 2, -p[1] - 40)
    yield "Polytope(shifted)", lambda: Polytope([[1, 0], [-1, 0], [0, 1], [0, -1]], [3, 0, 40, -2]), \
        lambda p: max(p[0] - 3, -p[0], p[1] - 40, -p[1] + 2)


SHAPES = list(shapes())
NAMES = [s[0] for s in SHAPES]


def exact(what, p):
    """Boundary cases whose arithmetic has no rounding: small binary fractions and no root or division."""
    if "default" in what or "()" in what and not what.startswith(("Cuboid", "Polytope")) or "T3" in what:
        return False
    return "Cuboid" in what or "max" in what and "T" not in what or all((4 * c).is_integer() for c in p)


def judge(ctx, nb, signed, pts, what, conv=np.array):
    arr = conv(pts)
    before = [list(map(float, p)) for p in pts]
    mask = nb.is_contained_in(arr)
    ctx.step()
    check([list(map(float, p)) for p in arr] == before, "%s modified the points", what)
    mask = np.asarray(mask)
    check(mask.shape == (len(pts),), "%s: mask has shape %s for %s points", what, mask.shape, len(pts))
    check(mask.dtype == bool, "%s: mask is not boolean", what)
    for p, m in zip(pts, mask):
        s = signed(p)
        if abs(s) < 1e-9 and not (s == 0 and exact(what, p)):
            continue
        check(bool(m) == (s <= 0), "%s: point %s reported as %s, definition says %s", what, p, bool(m), s <= 0)
    return [bool(m) for m in mask]


@R.scenario([[i] for i in range(len(SHAPES))])
def every_lattice_point_alone_and_together(ctx, case):
    name, make, signed = SHAPES[case[0]]
    nb = make()
    together = judge(ctx, nb, signed, LATTICE, name)
    back = judge(ctx, make(), signed, LATTICE[::-1], name)
    check(back == together[::-1], "%s: order of the points matters", name)
    for i, p in enumerate(LATTICE):
        alone = judge(ctx, nb, signed, [p], name)
        check(alone == [together[i]], "%s: %s alone and together differ", name, p)
    for conv in (lambda p: [list(q) for q in p], lambda p: tuple(map(tuple, p)),
                 lambda p: np.asfortranarray(np.array(p)), lambda p: np.array(p)[:, ::-1].copy()[:, ::-1]):
        check(judge(ctx, nb, signed, LATTICE, name, conv) == together, "%s: container matters", name)
    big = (LATTICE * 12)
    check(judge(ctx, nb, signed, big, name) == together * 12, "%s: number of points matters", name)
    return together


@R.scenario(lambda tier: (
    [i, list(p)] for i in range(len(SHAPES))
    for k in (1, 2, 3) for p in itertools.permutations([0, 3, 7, 12, 18, 21, 25, 31] if tier == "thorough" else [0, 7, 12, 18, 25, 31], k)))
def every_small_ordered_point_set(ctx, case):
    name, make, signed = SHAPES[case[0]]
    nb = make()
    pts = [LATTICE[i] for i in case[1]]
    judge(ctx, nb, signed, pts, name)
    judge(ctx, nb, signed, pts, name)


# ------------------------------------------------------------- scaling ball
SP = [[1.0, 0.0], [-1.0, 0.0], [0.0, 3.0], [2.0, 2.0], [0.0, 0.0], [-4.0, 1.0], [5.0, -5.0]]


@R.scenario(lambda tier: (
    [n, k, list(p)] for n in NORM for k in (1, 2, 3, 5, 9)
    for size in range(1, 6 if tier == "thorough" else 5) for p in itertools.permutations(range(len(SP)), size)))
def scaling_ball_holds_the_nearest_points(ctx, case):
    """At least min_pts (or all) points, every member at most as far as any non-member."""
    norm, k, order = case
    f, g = NORM[norm]
    nb = ScalingBall(k, **({} if f is None else {"norm": f}))
    for pts in ([SP[i] for i in order], [SP[i] for i in reversed(order)] + [[0.5, 0.5]], [SP[i] for i in order]):
        arr = np.array(pts)
        mask = np.asarray(nb.is_contained_in(arr))
        ctx.step()
        check(arr.tolist() == pts, "points were modified")
        check(mask.shape == (len(pts),), "mask shape %s", mask.shape)
        d = sorted(g(p) for p in pts)
        r = d[min(k, len(d)) - 1]
        for p, m in zip(pts, mask):
            s = g(p) - r
            if abs(s) > 1e-9 or norm == "max":
                check(bool(m) == (s <= 0), "ScalingBall(%s) of %s: %s is %s", k, pts, p, bool(m))
        check(mask.sum() >= min(k, len(pts)), "ScalingBall(%s) of %s holds only %s points", k, pts, mask.sum())


@R.scenario([[a, b] for a in range(5) for b in range(5)])
def scaling_ball_pairs_of_queries(ctx, case):
    sets = [SP, SP[:2], [[100.0, 100.0], [200.0, 100.0], [300.0, 0.0]], [[0.01, 0.02]] * 3, SP[::-1]]
    for k in (1, 2, 4):
        used = ScalingBall(k, norm=maxnorm)
        used.is_contained_in(np.array(sets[case[0]]))
        other = ScalingBall(k + 3)
        other.is_contained_in(np.array(SP))
        got = used.is_contained_in(np.array(sets[case[1]]))
        want = ScalingBall(k, norm=maxnorm).is_contained_in(np.array(sets[case[1]]))
        ctx.step(2)
        check(np.array_equal(got, want), "used and fresh ScalingBall(%s) differ: %s / %s", k, got, want)


V2 = [[x, y] for x in (0.0, 1.0, -3.0, 20.0) for y in (0.0, 90.0, -180.0, 7.5)]


@R.scenario([[f, list(p)] for f in ("default 2", "default 3", "scaled", "weighted max", "euclid") for p in itertools.permutations(range(4), 2)])
def norms(ctx, case):
    """The norms behind the neighbourhoods and interpolators."""
    name, order = case
    vec = [V2[4 * i + j] + [z] for i in order for j in order for z in (0.0, -2.0, 12.5)]
    if name != "default 3":
        vec = [v[:2] for v in vec]
    scale = {"default 2": (1 / 40, 1 / 360), "default 3": (1 / 40, 1 / 360, 1 / 20), "euclid": (1.0, 1.0)}.get(name, (0.5, 0.25))
    f = {"default 2": scaled_euclidean_norm, "default 3": scaled_euclidean_norm, "euclid": euclidean_norm, "scaled": scaled_norm(euclidean_norm, [0.5, 0.25]), "weighted max": scaled_norm(maxnorm, (0.5, 0.25))}[name]
    arr = np.array(vec)
    got = f(arr)
    check(np.array_equal(arr, vec), "%s: vectors changed", case)
    check(np.shape(got) == (len(vec),), "%s: shape %s", case, np.shape(got))
    for v, g in zip(vec, got):
        parts = [a * b for a, b in zip(v, scale)]
        want = max(map(abs, parts)) if "max" in name else math.hypot(*parts)
        check(abs(g - want) < 1e-12 * (1 + want), "%s: norm of %s is %s instead of %s", case, v, g, want)
        ctx.step()
    if "default" in name:
        raises(NotImplementedError, lambda: f(np.ones((2, 4))), "default norm of four dimensions")
        raises(NotImplementedError, lambda: f(np.ones((2, 1))), "default norm of one dimension")


@R.scenario([[i] for i in range(10)])
def invalid_shapes_are_refused(ctx, case):
    f = [lambda: Ball(radius=0), lambda: Ball(radius=-1), lambda: ScalingBall(0), lambda: ScalingBall(-2),
         lambda: Ellipsoid(radius=0), lambda: Ellipsoid(lin_trans=[[1, 2], [2, 4]]),
         lambda: Ellipsoid(lin_trans=np.eye(3)), lambda: Polytope(np.eye(3), np.ones(3)),
         lambda: Polytope(np.eye(2), np.ones(3)), lambda: Polytope(np.eye(2), [np.nan, 1])][case[0]]
    ctx.step()
    raises(ValueError, f, "invalid neighbourhood")


# --------------------------------------------------------- sharp boundaries
STEPS = [s * 10.0 ** -e for e in (3, 5, 7, 8, 9, 10, 11, 12) for s in (-1, 1)]


def ngon(n, r):
    a = [2 * math.pi * (i + 0.25) / n for i in range(n)]
    m = [[math.cos(x), math.sin(x)] for x in a]
    return np.array(m), np.full(n, float(r)), a


SHARP = {
    "Ball": lambda r: (Ball(radius=r, norm=euclid), lambda x: (x, 0.0)),
    "Ball up": lambda r: (Ball(radius=r, norm=euclid), lambda x: (0.0, -x)),
    "Ball default": lambda r: (Ball(radius=r), lambda x: (40.0 * x, 0.0)),
    "Ball max": lambda r: (Ball(radius=r, norm=maxnorm), lambda x: (x, -x)),
    "Ellipsoid": lambda r: (Ellipsoid(lin_trans=[[2.0, 0.0], [0.0, 0.5]], radius=r, norm=euclid), lambda x: (2.0 * x, 0.0)),
    "Ellipsoid up": lambda r: (Ellipsoid(lin_trans=[[2.0, 0.0], [0.0, 0.5]], radius=r, norm=euclid), lambda x: (0.0, 0.5 * x)),
    "Ellipsoid default": lambda r: (Ellipsoid(radius=r), lambda x: (0.0, 360.0 * x)),
    "Cuboid": lambda r: (Cuboid(dimensions=(r, 5 * r)), lambda x: (x, 3 * r)),
    "Cuboid left": lambda r: (Cuboid(dimensions=(r, 5 * r)), lambda x: (-x, -3 * r)),
    "Cuboid up": lambda r: (Cuboid(dimensions=(4 * r, r)), lambda x: (3 * r, x)),
    "Polytope": lambda r: (Polytope(np.array([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]]), r * np.ones(4)), lambda x: (x, 0.5 * r)),
    "Polytope down": lambda r: (Polytope(np.array([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]]), r * np.ones(4)), lambda x: (0.5 * r, -x)),
}


@R.scenario([[k, r] for k in SHARP for r in (1e-9, 1e-6, 1e-3, 0.05, 1.0, 7.0, 360.0, 1e6)])
def boundaries_are_sharp(ctx, case):
    """Points from one thousandth to 1e-12 relative inside and outside of the border, for tiny and large neighbourhoods."""
    kind, r = case
    nb, at = SHARP[kind](r)
    pts = [at(r * (1 + s)) for s in STEPS]
    for arr in (np.array(pts), np.array(pts[::-1])):
        got = np.asarray(nb.is_contained_in(arr)).tolist()
        ctx.step()
        want = [s < 0 for s in (STEPS if arr[0].tolist() == list(pts[0]) else STEPS[::-1])]
        check(got == want, "%s of size %s: points at %s times the size are reported as %s", kind, r, [1 + s for s in STEPS], got)


@R.scenario([[n, m] for n in (3, 4, 5, 7, 8, 9, 10, 16, 17, 33, 64, 100, 257) for m in (1, 40, 256, 1000, 2500)])
def polytopes_of_many_sides(ctx, case):
    """Every single half plane counts, whatever their number and that of the points."""
    n, m = case
    mat, b, ang = ngon(n, 2.0)
    nb = Polytope(mat, b)
    pts = []
    for i in range(n):
        for f in (0.5, 0.999, 1.001):
            pts.append((2 * f * math.cos(ang[i]), 2 * f * math.sin(ang[i])))
    pts = (pts * (m // len(pts) + 1))[:m] if m > 1 else pts[-1:]
    got = np.asarray(nb.is_contained_in(np.array(pts)))
    ctx.step()
    for i, (p, g) in enumerate(zip(pts, got)):
        s = max(a[0] * p[0] + a[1] * p[1] - 2.0 for a in mat.tolist())
        check(bool(g) == (s <= 0), "polygon of %s sides, %s points: %s reported as %s", n, m, p, bool(g))
    # only one of the half planes is violated
    for i in range(n):
        nb2 = Polytope(mat, np.where(np.arange(n) == i, 1.0, 50.0))
        p = (1.5 * math.cos(ang[i]), 1.5 * math.sin(ang[i]))
        got = np.asarray(nb2.is_contained_in(np.array([p, (0.0, 0.0)]))).tolist()
        check(got == [False, True], "inequality %s of %s is not applied: %s", i, n, got)


@R.scenario([[i, n] for i in range(len(SHAPES)) for n in (100, 101, 256, 257, 1000, 1001, 3000)])
def many_points(ctx, case):
    """Every point of a long list is judged on its own."""
    name, make, signed = SHAPES[case[0]]
    n = case[1]
    pts = [[6.0 * ((i * 29) % n) / n - 3.0, 90.0 * ((i * 13) % n) / n - 45.0] for i in range(n - 40)]
    pts += [[0.1 * ((i * 7) % 40) / 40 - 0.05, 0.16 * i / 40 - 0.08] for i in range(40)]
    judge(ctx, make(), signed, pts, name)


@R.scenario([[k, n, e] for k in (1, 2, 3, 10, 99, 100, 101, 500) for n in (5, 100, 600, 2000) for e in (1.0, 1e-3, 1e-6, 1e-9)])
def scaling_ball_of_many_points(ctx, case):
    """Distances differing by a tiny amount are still told apart."""
    k, n, e = case
    order = [(i * 7919 + 3) % n for i in range(n)] if math.gcd(7919, n) == 1 else list(range(n))[::-1]
    pts = np.array([[(1 + e * j / n) * (1 if j % 2 else -1), 0.0] for j in order])
    mask = np.asarray(ScalingBall(k, norm=maxnorm).is_contained_in(pts))
    ctx.step()
    want = [j < min(k, n) for j in order]
    check(mask.tolist() == want, "ScalingBall(%s) of %s points with distances in steps of %s holds %s of them", k, n, e / n, int(mask.sum()))


# ----------------------------------------------------- systems of inequalities
SIDES = [([1.0, 0.0], 1.0), ([1.0, 0.0], 5.0), ([1.0, 0.0], -1.0), ([-1.0, 0.0], 3.0), ([2.0, 0.0], 3.0),
         ([0.0, 1.0], 2.0), ([0.0, 1.0], 40.0), ([1.0, 1.0], 1.0), ([-1.0, -1.0], -1.0), ([0.0, 0.0], 0.0),
         ([0.0, 0.0], -1.0)]


@R.scenario(lambda tier: (
    [list(p)] for k in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)) for p in itertools.product(range(len(SIDES)), repeat=k)))
def every_system_of_inequalities(ctx, case):
    """A polytope's points satisfy all of its inequalities, parallel or repeated ones included."""
    sides = [SIDES[i] for i in case[0]]
    nb = Polytope(np.array([n for n, _ in sides]), np.array([b for _, b in sides]))
    pts = [[x, y] for x in (-4.0, -3.0, -1.0, 0.0, 1.0, 1.5, 2.0, 6.0) for y in (-1.0, 0.0, 2.0, 3.0, 40.0, 41.0)]
    mask = np.asarray(nb.is_contained_in(np.array(pts)))
    ctx.step()
    for p, m in zip(pts, mask):
        want = all(n[0] * p[0] + n[1] * p[1] <= b for n, b in sides)
        check(bool(m) == want, "%s: point %s reported as %s", sides, p, bool(m))


@R.scenario([[t, e, r] for t in ("T1", "T2", "T3") for e in (-60, -40, -24, -14, -4, 4, 14, 24, 40) for r in (0.5, 3.0)])
def ellipsoids_of_any_size(ctx, case):
    """Scaling the transformation by a power of two scales the ellipsoid."""
    t, e, r = case
    f = 2.0 ** e
    nb = Ellipsoid(lin_trans=f * np.array({"T1": T1, "T2": T2, "T3": T3}[t]), radius=r, norm=euclid)
    pts = [[f * p[0], f * p[1]] for p in LATTICE]
    judge_scaled = np.asarray(nb.is_contained_in(np.array(pts)))
    ctx.step()
    for p, m in zip(LATTICE, judge_scaled):
        s = math.hypot(*apply_inv(t, p)) - r
        if abs(s) > 1e-9:
            check(bool(m) == (s < 0), "%s: point %s reported as %s", case, p, bool(m))
