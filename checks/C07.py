"""C07: a point cloud diagram keeps exactly the points it was given."""
import itertools
import math

import numpy as np

from hrosailing.polardiagram import PolarDiagramPointcloud
from hrosailing.processing import ArithmeticMeanInterpolator, Ball, IDWInterpolator
from vf.core import Registry, angle_close, check, close, fail, raises, same

ID = "C07"
ASSUMPTIONS = ["nonempty clouds", "wind speed exactly 0 only at construction"]
R = Registry()


def true_wind(p):
    """Wind triangle: apparent wind minus the head wind of the boat."""
    ws, wa, b = p
    x = ws * math.cos(math.radians(wa)) - b
    y = ws * math.sin(math.radians(wa))
    return [math.hypot(x, y), math.degrees(math.atan2(y, x)) % 360, b]


def key(p):
    return (round(p[0], 6), round(p[1], 5) % 360, round(p[2], 6))


def same_points(got, exp, what):
    got = np.asarray(got, dtype=float).reshape(-1, 3).tolist()
    got, exp = sorted(got, key=key), sorted(exp, key=key)
    check(len(got) == len(exp), "%s: %s points, expected %s", what, len(got), len(exp))
    for g, e in zip(got, exp):
        check(abs(g[0] - e[0]) < 1e-9 and abs(g[2] - e[2]) < 1e-12
              and angle_close(g[1], e[1], 1e-9) and 0 <= g[1] < 360,
              "%s: point %s, expected %s", what, g, e)


def compare(pd, m):
    same_points(pd.points, m, "points")
    same_points(pd.default_points, m, "default points")
    same_points(pd.get_points(), m, "get_points()")
    for name, i in (("wind_speeds", 0), ("wind_angles", 1)):
        got = list(map(float, getattr(pd, name)))
        exp = sorted({p[i] for p in m})
        check(len(got) == len(set(got)) and got == sorted(got), "%s not unique and sorted: %s", name, got)
        check(all(min(abs(g - e) for e in exp) < 1e-9 for g in got)
              and all(min(abs(g - e) for g in got) < 1e-9 for e in exp), "%s: %s, expected %s", name, got, exp)
    check(close(sorted(map(float, pd.boat_speeds)), sorted(p[2] for p in m)), "boat speeds")
    for p in m[:3] + m[-3:]:
        if p[0] <= 0:
            continue
        here = {q[2] for q in m if q[:2] == p[:2]}
        raw = next(tuple(map(float, q)) for q in pd.points
                   if abs(q[0] - p[0]) < 1e-9 and angle_close(q[1], p[1], 1e-9))
        got = pd(raw[0], raw[1])
        check(any(abs(got - b) < 1e-9 for b in here), "speed at recorded point %s: %s, recorded %s", p, got, here)
    # values handed out before are not live views
    for a in (pd.points, pd.default_points, pd.boat_speeds, pd.wind_speeds, pd.wind_angles):
        a[...] = -7.0


INITS = {
    "one": [[6.0, 45.0, 4.0]],
    "three": [[6.0, 45.0, 4.0], [8.0, 90.0, 5.0], [6.0, 180.0, 3.5]],
    "wrapped": [[10.0, -30.0, 6.25], [4.0, 390.0, 3.0], [4.5, 719.5, 2.0], [4.0, 360.0, 1.0]],
    "dropped": [[-2.0, 50.0, 1.0], [5.0, 50.0, 2.0], [-0.5, 30.0, 1.0], [7.0, 310.0, 2.5]],
    "calm": [[0.0, 90.0, 0.0], [3.0, 90.0, 2.0]],
    "ints": [[6, 400, 4], [12, 10, 7]],
}


def model_points(pts):
    return [[float(p[0]), float(p[1]) % 360, float(p[2])] for p in pts]


def make(name):
    pts = INITS[name]
    arr = np.array(pts)
    keep = arr.copy()
    pd = PolarDiagramPointcloud(arr)
    check(np.array_equal(arr, keep), "points passed to the cloud were modified")
    arr[...] = 1
    return pd, [p for p in model_points(pts) if p[0] >= 0]


BATCHES = [
    [[7.0, 60.0, 4.75]],
    [[6.0, 45.0, 4.0]],
    [[6.0, 45.0, 9.0]],
    [[12.0, 300.0, 8.0], [2.5, -10.0, 1.5], [12.0, 300.5, 8.125]],
    [[9, 725, 5], [9, 0, 3]],
    [[0.25, 359.75, 0.125], [30.0, 180.0, 14.0]],
]
OPS = [["add", i, c] for i in range(len(BATCHES)) for c in ("array", "list")]
OPS += [["add", 3, "tuple"], ["add", 0, "fortran"], ["app", 0, "list"], ["app", 3, "array"], ["app", 4, "array"]]
OPS += [["bad", k] for k in range(6)]


def wrap(pts, c):
    if c == "array":
        return np.array(pts)
    if c == "fortran":
        return np.asfortranarray(np.array(pts))
    if c == "tuple":
        return tuple(tuple(p) for p in pts)
    return [list(p) for p in pts]


def apply(pd, m, op):
    if op[0] == "bad":
        bad = [
            [[-1.0, 40.0, 3.0]],
            [[5.0, 40.0, 3.0], [-1.0, 40.0, 3.0]],
            [[5.0, math.nan, 3.0]],
            [[5.0, 40.0, 3.0], [5.0, 40.0, math.inf]],
            [[math.nan, 40.0, 3.0]],
            [[5.0, 40.0], [6.0, 50.0]],
        ][op[1]]
        raises((ValueError, TypeError), lambda: pd.add_points(np.array(bad)), f"adding {bad}")
        raises((ValueError, TypeError), lambda: pd.add_points(np.array(bad), apparent_wind=True), f"adding {bad}")
        return pd, m
    pts = BATCHES[op[1]]
    given = wrap(pts, op[2])
    keep = np.array(given, dtype=float)
    if op[0] == "app":
        pd.add_points(given, apparent_wind=True)
        new = [true_wind(p) for p in pts]
    else:
        pd.add_points(given)
        new = model_points(pts)
    check(np.array_equal(np.array(given, dtype=float), keep), "points passed to add_points were modified")
    if isinstance(given, np.ndarray):
        given[...] = 1
    return pd, m + new


R.history("add_histories", lambda t: list(INITS), lambda t: OPS, lambda t: 4 if t == "thorough" else 3,
          make, apply, compare, canon=lambda m: [m])


@R.scenario(lambda t: [[c, a, list(o)] for c in ("array", "list", "tuple", "fortran") for a in (False, True)
                       for o in itertools.permutations(range(4))])
def construction(ctx, case):
    """Every order and container of the points, true or apparent."""
    c, apparent, order = case
    pts = [[8.0, 400.0, 5.0], [8.0, 200.0, 4.0], [12.5, -45.0, 6.5], [3.25, 181.0, 1.0]]
    given = wrap([pts[i] for i in order], c)
    keep = np.array(given)
    pd = PolarDiagramPointcloud(given, apparent_wind=apparent)
    check(np.array_equal(np.array(given), keep), "points passed to the cloud were modified")
    exp = [true_wind(p) for p in pts] if apparent else model_points(pts)
    compare(pd, exp)
    ctx.step()
    for bad in (math.nan, math.inf):
        raises(ValueError, lambda: PolarDiagramPointcloud(wrap(pts + [[5.0, bad, 1.0]], c), apparent_wind=apparent), "non-finite points")


CLOUD = [[4.0, 30.0, 2.0], [4.0, 90.0, 3.0], [4.5, 330.0, 2.25], [5.0, 30.0, 2.5], [6.0, 150.0, 4.0],
         [6.5, 0.0, 1.0], [8.0, 90.0, 6.0], [8.0, 270.0, 5.5], [12.0, 180.0, 7.0], [5.0, 359.0, 1.5]]


@R.scenario(lambda t: [[w, r] for w in ([4.0], [5, 8], [8.0, 4.0, 6.25], "default", "scalar", [20.0], "steps")
                       for r in (None, 0, 0.5, 1, 2.0, 100)])
def slices(ctx, case):
    """A slice holds exactly the points within the range of its wind speed."""
    w, r = case
    pd = PolarDiagramPointcloud(CLOUD[::-1])
    args = dict(ws=w)
    labels = w
    if w == "default":
        args, labels = {}, list(np.linspace(4.0, 12.0, 20))
    elif w == "scalar":
        args, labels = dict(ws=6), [6]
    elif w == "steps":
        args, labels = dict(ws=[4, 8], n_steps=3), [4, 5, 6, 7, 8]
    if r is not None:
        args["range_"] = r
    got_l, got = pd.get_slices(**args)
    same(got_l, labels, "labels")
    check(len(got) == len(labels), "number of slices")
    rr = 1 if r is None else r
    for l, s in zip(labels, got):
        s = np.asarray(s)
        check(s.shape[0] == 3, "slice has shape %s", s.shape)
        same_points(s.T, [p for p in CLOUD if abs(p[0] - l) <= rr], f"slice at {l} with range {rr}")
        if s.size:
            s[...] = -3
    same_points(pd.points, CLOUD, "points after slicing")
    ctx.step(len(labels))
    return [len(np.asarray(s).T) for s in got]


def dist(p, q):
    return math.hypot((p[0] - q[0]) / 40, (p[1] - q[1]) / 360)


def reference(pts, q, kind, radius):
    q = (q[0], q[1] % 360)
    for p in pts:
        if tuple(p[:2]) == q:
            return p[2]
    near = [p for p in pts if dist(p, q) <= radius]
    if not near:
        return None
    if kind == "idw":
        w = [dist(p, q) ** -2 for p in near]
    else:
        w = [math.exp(-(50 if kind == "default" else 10) * dist(p, q)) for p in near]
    return sum(a * p[2] for a, p in zip(w, near)) / sum(w)


CUTS = ["all", "half", "one"]


@R.scenario(lambda t: [[k, r, c] for k in ("default", "idw", "mean") for r in (None, 1.0, 0.25, 0.1, 0.011) for c in CUTS])
def evaluation(ctx, case):
    """Evaluation is the interpolation of the neighbourhood."""
    kind, radius, cut = case
    pts = {"all": CLOUD, "half": CLOUD[1:6], "one": CLOUD[6:7]}[cut]
    pd = PolarDiagramPointcloud(pts)
    kw = {}
    if kind == "idw":
        kw["interpolator"] = IDWInterpolator(p=2)
    elif kind == "mean":
        kw["interpolator"] = ArithmeticMeanInterpolator(params=(10,))
    if radius is not None:
        kw["neighbourhood"] = Ball(radius=radius)
    n = 0
    winds = [(ws, wa) for ws in (0.5, 4.0, 4.25, 5, 6.5, 8.0, 11.0, 25.0)
             for wa in (-30.0, 0, 15.0, 30.0, 90, 179.5, 270.0, 330.0, 359.75, 360.0, 450.0)]
    for q in winds:
        exp = reference(pts, q, kind, 1.0 if radius is None else radius)
        if exp is None:
            raises((ValueError, ZeroDivisionError), lambda: pd(*q, **kw), f"evaluation at {q} without any point nearby")
            continue
        near = min(abs(dist(p, (q[0], q[1] % 360)) - (radius or 1)) for p in pts)
        if near < 1e-9:
            continue
        got = pd(*q, **kw)
        check(abs(got - exp) < 1e-9, "speed at %s: %s, expected %s", q, got, exp)
        check(min(p[2] for p in pts) - 1e-9 <= got <= max(p[2] for p in pts) + 1e-9, "speed at %s: %s leaves the recorded range", q, got)
        n += 1
    ok = [q for q in winds if reference(pts, q, kind, 1.0) is not None]
    if not kw:
        rows = np.array(ok, dtype=float)
        keep = rows.copy()
        exp = [list(q) + [reference(pts, q, kind, 1.0)] for q in ok]
        for arg, what in ((rows, "(n, 2)"), (rows.T, "(2, n)")):
            res = np.asarray(pd.get_points(arg))
            same(res, exp, f"get_points of a {what} array")
            check(np.array_equal(rows, keep), "winds passed in were modified")
        res = np.asarray(pd.get_points(([4.0, 8], [30, 275.0, 360])))
        exp = sorted([s, a, reference(pts, (s, a), kind, 1.0)] for s in (4.0, 8.0) for a in (30.0, 275.0, 360.0))
        same(sorted(res.tolist()), exp, "get_points of resolutions")
    for ws in (-1.0, -0.001):
        raises(ValueError, lambda: pd(ws, 40.0, **kw), "negative wind speed")
    ctx.step(n)
    return n


@R.scenario(lambda t: [[k, n] for k in ("idw", "mean") for n in (2, 5, 37, None)])
def interpolated_slices(ctx, case):
    """With an interpolator slices sample the evaluation over the circle."""
    kind, n = case
    interp = IDWInterpolator(p=2) if kind == "idw" else ArithmeticMeanInterpolator(params=(10,))
    pd = PolarDiagramPointcloud(CLOUD)
    kw = {} if n is None else {"wa_resolution": n}
    labels, sl = pd.get_slices([4.0, 7.0], interpolator=interp, **kw)
    for l, s in zip(labels, sl):
        s = np.asarray(s, dtype=float)
        check(s.shape == (3, n or 100), "slice has shape %s", s.shape)
        same(s[0], np.full(n or 100, l), "wind speeds")
        same(s[1], np.linspace(0, 360, n or 100), "wind angles")
        same(s[2], [reference(CLOUD, (l, a), kind, 1.0) for a in np.linspace(0, 360, n or 100)], "boat speeds")
        ctx.step()


@R.scenario(lambda t: [[n] for n in ((60, 400, 3000) if t == "quick" else (60, 400, 3000, 20000))])
def larger_clouds(ctx, case):
    """Many points at many and few wind speeds."""
    n, = case
    pts = [[1.0 + (i * 7 % 23) * 0.5, (i * 37.5) % 360, 1 + (i * 13 % 31) / 8] for i in range(n)]
    pd = PolarDiagramPointcloud(pts[: n // 2])
    pd.add_points(pts[n // 2:])
    compare(pd, pts)
    for w in (1.0, 5.25, 12.0):
        for r in (0.5, 2):
            same_points(pd.get_slices(w, range_=r)[1][0].T, [p for p in pts if abs(p[0] - w) <= r], f"slice {w}")
    q = (5.25, 101.0)
    same(pd(*q), reference(pts, q, "default", 1.0), "evaluation")
    ctx.step(8)


@R.scenario(lambda t: [[n, w] for n in (100, 1500, 5000) + ((10000,) if t == "thorough" else ()) for w in (1, 2, 7)])
def many_points_of_one_wind(ctx, case):
    """However many points a wind speed has, its slice and its evaluation know all of them."""
    n, k = case
    pts = [[6.0 + 3 * (i % k), (i * 360.0) / n, 1 + (i * 13 % 31) / 8] for i in range(n)]
    pd = PolarDiagramPointcloud(np.array(pts))
    for w in {p[0] for p in pts}:
        here = [p for p in pts if p[0] == w]
        same_points(pd.get_slices(w)[1][0].T, here, f"slice {w}")
        for p in (here[0], here[len(here) // 2], here[-1]):
            check(pd(p[0], p[1]) == p[2], "speed at recorded wind %s is %s", p, pd(p[0], p[1]))
    same_points(pd.get_slices(7.5, range_=2)[1][0].T, [p for p in pts if abs(p[0] - 7.5) <= 2], "slice 7.5")
    ctx.step(k)


NEAR = [[10.0, 300.0, 4.0], [10.0, 300.0 + 2.0 ** -20, 6.0], [10.0 + 2.0 ** -30, 300.0, 8.0], [10.0 - 2.0 ** -40, 300.0 - 2.0 ** -40, 1.0],
        [2.0 ** -30, 2.0 ** -30, 2.0], [2.0 ** -31, 2.0 ** -30, 3.0]]


@R.scenario(lambda t: [list(o) for k in (2, 3, 6) for o in itertools.permutations(range(6), k)])
def neighbouring_winds(ctx, case):
    """Winds next to each other are different winds."""
    pts = [NEAR[i] for i in case]
    pd = PolarDiagramPointcloud(np.array(pts[:2]))
    if pts[2:]:
        pd.add_points(np.array(pts[2:]))
    check(np.asarray(pd.points).tolist() == pts, "points %s instead of %s", pd.points, pts)
    check(list(pd.wind_speeds) == sorted({p[0] for p in pts}) and list(pd.wind_angles) == sorted({p[1] for p in pts}), "winds %s, %s of %s", pd.wind_speeds, pd.wind_angles, pts)
    for p in pts:
        got = pd(p[0], p[1])
        check(got == p[2], "speed at recorded wind %s is %s", p, got)
        for r in (0, 2.0 ** -35, 2.0 ** -20):
            want = [q for q in pts if abs(q[0] - p[0]) <= r]
            check(sorted(pd.get_slices(p[0], range_=r)[1][0].T.tolist()) == sorted(want), "slice at %s with range %s", p[0], r)
    ctx.step(len(pts))
