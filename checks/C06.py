"""C06: a polar diagram table returns and changes exactly the addressed cells."""
import itertools
import math

import numpy as np

from hrosailing.core.data import WeightedPoints
from hrosailing.polardiagram import PolarDiagramTable
from hrosailing.processing import Ball, Cuboid, IDWInterpolator, ScalingBall
from hrosailing.processing import BilinearGridInterpolator
from vf.core import Registry, check, fail, raises

ID = "C06"
ASSUMPTIONS = ["resolutions without repeated entries (the library warns about repeats)"]
R = Registry()


class M:
    """Reference: a dict of cells."""

    def __init__(self, ws, wa, cells):
        self.ws, self.wa, self.cells = sorted(ws), sorted(wa), dict(cells)

    def copy(self):
        return M(self.ws, self.wa, self.cells)

    def grid(self):
        return [[self.cells[s, a] for s in self.ws] for a in self.wa]


def compare(pd, m):
    check(list(map(float, pd.wind_speeds)) == m.ws, "wind speeds %s, expected %s", pd.wind_speeds, m.ws)
    check(list(map(float, pd.wind_angles)) == m.wa, "wind angles %s, expected %s", pd.wind_angles, m.wa)
    got = np.asarray(pd.boat_speeds)
    check(got.tolist() == m.grid(), "boat speeds %s, expected %s", got.tolist(), m.grid())
    few = [(s, a) for s in (m.ws if len(m.ws) < 6 else m.ws[:1] + m.ws[-1:])
           for a in (m.wa if len(m.wa) < 6 else m.wa[:2] + m.wa[-1:])]
    for s, a in few:
        check(pd[s, a] == m.cells[s, a] and pd(s, a) == m.cells[s, a],
              "entry at (%s, %s) is %s / %s, expected %s", s, a, pd[s, a], pd(s, a), m.cells[s, a])
    pts = np.asarray(pd.default_points)
    check(pts.shape == (len(m.ws) * len(m.wa), 3), "default points have shape %s", pts.shape)
    check(sorted(map(tuple, pts.tolist())) == sorted((s, a, v) for (s, a), v in m.cells.items()),
          "default points differ from the table")


INITS = {
    "small": ([6.0, 8.0, 10.0], [45.0, 90.0, 270.0]),
    "unsorted": ([10.0, 6.0, 8.0], [270.0, 45.0, 180.0, 0.0]),
    "wrapped": ([4.0, 2.0], [-45.0, 405.0, 540.0]),
    "row": ([2.0, 4.0, 7.5], [30.0]),
    "column": ([5.0], [0.0, 120.0, 355.0]),
    "zero": ([6.0, 8.0], [52.0, 60.0]),
    "close": ([6.0, 6.0 + 2.0 ** -40, 6.0 + 2.0 ** -24, 8.0], [0.0, 2.0 ** -20, 45.0, 45.0 + 2.0 ** -38]),
}


def value(i, j):
    return round(1 + 1.25 * i + 0.5 * j + 0.1 * i * j, 6)


def build(name):
    ws, wa = INITS[name]
    if name == "zero":
        pd = PolarDiagramTable(ws_resolution=list(ws), wa_resolution=list(wa))
        return pd, M(ws, wa, {(s, a): 0.0 for s in ws for a in wa})
    bsps = [[value(i, j) for j in range(len(ws))] for i in range(len(wa))]
    pd = PolarDiagramTable(ws_resolution=list(ws), wa_resolution=list(wa), bsps=[list(r) for r in bsps])
    return pd, M(ws, [a % 360 for a in wa],
                 {(s, a % 360): bsps[i][j] for i, a in enumerate(wa) for j, s in enumerate(ws)})


# a selection is None (all) or a list of positions, resolved against the table
SEL = [None, [0], [-1], [0, 1], [1, 0], [-1, 0], "reverse"]
OPS = [["set", s, a, shift, base] for s in SEL for a in SEL
       for shift, base in ((0, 10.0), (360, 20.0))
       if not (shift and a is None)]
BAD = [["bad", k] for k in range(15)]


def pick(sel, res):
    if sel is None:
        return None
    if sel == "reverse":
        return list(reversed(res))
    idx = list(dict.fromkeys(i % len(res) for i in sel if i < len(res)))
    return [res[i] for i in idx]


def apply(pd, m, op):
    if op[0] == "bad":
        s, a = m.ws[0], m.wa[0]
        n_s, n_a = len(m.ws), len(m.wa)
        calls = [
            lambda: pd.change_entries(np.ones((n_a + 1, n_s))),
            lambda: pd.change_entries([1.0] * (n_s + 1), wa=a),
            lambda: pd.change_entries([1.0] * (n_a + 1), ws=s),
            lambda: pd.change_entries([1.0] * n_a, ws=999.0),
            lambda: pd.change_entries([1.0] * n_s, wa=123.456),
            lambda: pd.change_entries(1.0, ws=-s, wa=a),
            lambda: pd.change_entries(np.nan, ws=s, wa=a),
            lambda: pd.change_entries([1.0, 2.0], ws=s, wa=a),
            lambda: pd.change_entries(1.0, ws=[], wa=a),
            lambda: pd.change_entries("x", ws=s, wa=a),
            lambda: pd[s + 0.123, a],
            lambda: pd.change_entries(np.inf, ws=s, wa=a),
            lambda: pd.change_entries([None], ws=s, wa=a),
            lambda: pd.change_entries(np.ones((1, 1, 1)), ws=s, wa=a),
            lambda: pd.change_entries(np.full((n_a, n_s), -np.inf)),
        ]
        # a table with one row or column accepts flat entries for all of them
        raises((ValueError, TypeError), calls[op[1]], f"{op}")
        return pd, m
    _, s_sel, a_sel, shift, base = op
    ss, aa = pick(s_sel, m.ws), pick(a_sel, m.wa)
    n_s, n_a = len(ss or m.ws), len(aa or m.wa)
    vals = [[base + 3 * i + 0.5 * j for j in range(n_s)] for i in range(n_a)]
    if n_s == 1 and n_a == 1:
        new = vals[0][0]
    elif n_a == 1:
        new = vals[0]
    elif n_s == 1:
        new = [r[0] for r in vals]
    else:
        new = vals
    arr = np.array(new, dtype=float)
    given_a = None if aa is None else np.array([a + (shift if i % 2 == 0 else -shift) for i, a in enumerate(aa)])
    given_s = None if ss is None else np.array(ss)
    keep = [None if x is None else x.copy() for x in (given_s, given_a)]
    if base == 20.0:  # plain containers
        arg_s = None if ss is None else (ss[0] if n_s == 1 else list(ss))
        arg_a = None if aa is None else (float(given_a[0]) if n_a == 1 else tuple(given_a))
        pd.change_entries(new, ws=arg_s, wa=arg_a)
    else:
        pd.change_entries(arr, ws=given_s, wa=given_a)
        for x, k in zip((given_s, given_a), keep):
            check(x is None or np.array_equal(x, k), "addresses passed in were modified: %s -> %s", k, x)
        check(np.array_equal(arr, np.array(new, dtype=float)), "boat speeds passed in were modified")
        arr[...] = -5.0  # the caller keeps using its array
    m = m.copy()
    for i, a in enumerate(aa or m.wa):
        for j, s in enumerate(ss or m.ws):
            m.cells[s, a] = vals[i][j]
    # values handed out before must not be live views
    out = pd.boat_speeds
    out[...] = -1.0
    pd.wind_speeds[...] = -1.0
    pd.wind_angles[...] = -1.0
    pd.default_points[...] = -1.0
    return pd, m


R.history("change_histories", lambda t: list(INITS),
          lambda t: OPS + BAD, lambda t: 2,
          build, apply, compare, canon=lambda m: [m.grid()])

R.history("change_triples", lambda t: ["small", "unsorted", "close"] if t == "thorough" else ["small"],
          lambda t: OPS[::3] + BAD[:2], lambda t: 3 if t == "thorough" else 1,
          build, apply, compare, canon=lambda m: [m.grid()])

FEW = [op for op in OPS if op[1:4] in (
    [None, None, 0], ["reverse", [1, 0], 360], [[1, 0], None, 0], [[-1], [0], 0],
    [[0], "reverse", 0], [None, [-1], 360], [[0, 1], [1, 0], 0])]
R.history("change_chains", lambda t: ["small", "zero", "wrapped", "close"],
          lambda t: FEW + [BAD[0], BAD[4]], lambda t: 5 if t == "thorough" else 4,
          build, apply, compare, canon=lambda m: [m.grid()])


# ----------------------------------------------------------------- construction
def ctor_cases(tier):
    ws, wa = [2.0, 5.0, 9.5], [0.0, 30.0, 200.0]
    for ps in itertools.permutations(range(3)):
        for pa in itertools.permutations(range(3)):
            for shift in (0, 1, -1):
                yield [list(ps), list(pa), shift]


@R.scenario(ctor_cases)
def every_construction_order(ctx, case):
    """Boat speeds stay with the wind they were given for, in any order."""
    ps, pa, shift = case
    ws = [[2.0, 5.0, 9.5][i] for i in ps]
    wa = [[0.0, 30.0, 200.0][i] + 360 * shift * (k % 2) for k, i in enumerate(pa)]
    bsps = [[value(i, j) for j in ps] for i in pa]
    for conv in (lambda x: x, np.array, tuple, lambda x: np.array(x).astype(np.float32)):
        a, b, c = conv(ws), conv(wa), conv(bsps)
        keep = [np.array(x, copy=True) for x in (a, b, c)]
        pd = PolarDiagramTable(a, b, c)
        ctx.step()
        for x, k in zip((a, b, c), keep):
            check(np.array_equal(np.array(x), k), "constructor modified its input %s -> %s", k, x)
        if isinstance(a, np.ndarray):
            a[...], b[...], c[...] = 0, 0, 0
        want = M([2.0, 5.0, 9.5], [0.0, 30.0, 200.0],
                 {(s, t): value(i, j) for i, t in enumerate([0.0, 30.0, 200.0])
                  for j, s in enumerate([2.0, 5.0, 9.5])})
        if conv(ws) is not ws and getattr(c, "dtype", None) == np.float32:
            got = np.asarray(pd.boat_speeds)
            check(np.allclose(got, want.grid(), atol=1e-5), "float32 table %s", got)
        else:
            compare(pd, want)


@R.scenario([[a, b] for a in (None, 1, 2.5, 7, 13, 20, 39, 40) for b in (None, 1.5, 5, 45, 90, 100, 359, 360)])
def scalar_resolutions(ctx, case):
    """A scalar resolution means equal steps up to (not including) the maximum."""
    a, b = case
    ws = list(range(2, 42, 2)) if a is None else [a * k for k in range(1, 200) if a * k < 40 - 1e-12]
    wa = list(range(0, 360, 5)) if b is None else [b * k for k in range(1, 400) if b * k < 360 - 1e-12]
    ctx.step()
    if not ws or not wa:
        return
    kw = {}
    if a is not None:
        kw["ws_resolution"] = a
    if b is not None:
        kw["wa_resolution"] = b
    pd = PolarDiagramTable(**kw)
    check(np.allclose(pd.wind_speeds, ws) and len(pd.wind_speeds) == len(ws), "ws resolution %s", pd.wind_speeds)
    check(np.allclose(pd.wind_angles, wa) and len(pd.wind_angles) == len(wa), "wa resolution %s", pd.wind_angles)
    check(np.asarray(pd.boat_speeds).shape == (len(wa), len(ws)) and not np.any(pd.boat_speeds), "not a zero table")
    other = PolarDiagramTable(**kw)
    pd.change_entries(3.5, ws=float(pd.wind_speeds[-1]), wa=float(pd.wind_angles[0])) \
        if pd.boat_speeds.size > 1 or True else None
    check(pd[float(pd.wind_speeds[-1]), float(pd.wind_angles[0])] == 3.5, "entry not changed")
    check(np.sum(pd.boat_speeds) == 3.5, "other entries changed")
    check(not np.any(other.boat_speeds) and not np.any(PolarDiagramTable(**kw).boat_speeds),
          "tables share their entries")


@R.scenario([[i] for i in range(14)])
def invalid_tables_are_refused(ctx, case):
    f = [
        lambda: PolarDiagramTable(ws_resolution=[-1, 2]),
        lambda: PolarDiagramTable(ws_resolution=[]),
        lambda: PolarDiagramTable(wa_resolution=[]),
        lambda: PolarDiagramTable(ws_resolution=0),
        lambda: PolarDiagramTable(wa_resolution=-5),
        lambda: PolarDiagramTable(ws_resolution=41),
        lambda: PolarDiagramTable(wa_resolution=361),
        lambda: PolarDiagramTable(ws_resolution=[1, np.nan]),
        lambda: PolarDiagramTable(wa_resolution=[[1, 2], [3, 4]]),
        lambda: PolarDiagramTable([1, 2], [3, 4], [[1, 2, 3], [4, 5, 6]]),
        lambda: PolarDiagramTable([1, 2], [3, 4], [[1, 2]]),
        lambda: PolarDiagramTable([1, 2], [3, 4], [[1, np.inf], [2, 3]]),
        lambda: PolarDiagramTable([1, 2, 3], [3, 4], [[1, 2], [3, 4], [5, 6]]),
        lambda: PolarDiagramTable([1, 2], [3, 4], [1, 2]),
    ][case[0]]
    ctx.step()
    raises((ValueError, TypeError), f, "invalid table")


# ------------------------------------------------------------------- evaluation
def reference_call(m, s, a, alpha=50.0):
    a = a % 360
    pts = [(math.hypot((x - s) / 40, (y - a) / 360), v) for (x, y), v in m.cells.items()]
    near = [(d, v) for d, v in pts if d <= 1]
    ws = [math.exp(-alpha * d) for d, _ in near]
    return sum(w * v for w, (_, v) in zip(ws, near)) / sum(ws), [v for _, v in near]


@R.scenario(lambda tier: [[n, s, a] for n in ("small", "unsorted", "wrapped", "row", "column", "default")
                          for s in (0, 1, 2, 3.5, 6, 7, 8.25, 10, 12) for a in
                          (0, 10, 45, 67.5, 90, 200, 270, 300, 359)])
def evaluation_everywhere(ctx, case):
    """Stored value on the grid, bounded and periodic everywhere, order-free."""
    name, s, a = case
    if name == "default":
        ws, wa = list(range(2, 42, 2)), list(range(0, 360, 5))
        if s not in (0, 7, 8.25) or a not in (0, 67.5, 200, 359):
            return
        bs = [[(3 * i + 7 * j) % 11 + 0.5 for j in range(20)] for i in range(72)]
        pd = PolarDiagramTable(bsps=bs)
        m = M(list(map(float, ws)), list(map(float, wa)),
              {(float(x), float(y)): bs[i][j] for i, y in enumerate(wa) for j, x in enumerate(ws)})
    else:
        pd, m = build(name)
    want = m.cells.get((float(s), float(a)))
    lo_hi = list(m.cells.values())
    ref, _ = reference_call(m, s, a)
    for k in (0, 1, -1, 2):
        for conv in (float, lambda v: np.float64(v), lambda v: v):
            got = pd(conv(s), conv(a + 360 * k))
            ctx.step()
            if want is not None:
                check(got == want, "%s(%s, %s): %s, stored %s", name, s, a + 360 * k, got, want)
                check(pd[s, a + 360 * k] == want, "%s[%s, %s] differs", name, s, a + 360 * k)
            else:
                check(min(lo_hi) - 1e-9 <= got <= max(lo_hi) + 1e-9, "%s(%s, %s) = %s out of range",
                      name, s, a, got)
                check(abs(got - ref) < 1e-7 * (1 + abs(ref)), "%s(%s, %s) = %s, expected %s",
                      name, s, a + 360 * k, got, ref)
                raises((ValueError, TypeError), lambda: pd[s, a + 360 * k], "lookup off the grid")
    compare(pd, m)


@R.scenario([[s, a] for s in (6.0, 7.0, 9.9, 10.0) for a in (45.0, 60.0, 90.0, 180.0, 269.0)])
def evaluation_with_custom_components(ctx, case):
    """Interpolator and neighbourhood arguments are honoured."""
    s, a = case
    pd, m = build("small")
    got = pd(s, a, interpolator=BilinearGridInterpolator())
    ctx.step()
    i = max(k for k in range(2) if m.ws[k] <= s)
    j = max(k for k in range(2) if m.wa[k] <= a)
    x = (s - m.ws[i]) / (m.ws[i + 1] - m.ws[i])
    y = (a - m.wa[j]) / (m.wa[j + 1] - m.wa[j])
    c = lambda p, q: m.cells[m.ws[i + p], m.wa[j + q]]
    want = (1 - x) * (1 - y) * c(0, 0) + x * (1 - y) * c(1, 0) + (1 - x) * y * c(0, 1) + x * y * c(1, 1)
    check(abs(got - want) < 1e-9, "bilinear evaluation at (%s, %s): %s, expected %s", s, a, got, want)
    if (s, a) not in m.cells:
        d = sorted((math.hypot((p - s) / 40, (q - a) / 360), v) for (p, q), v in m.cells.items())
        if d[1][0] - d[0][0] > 1e-9:
            got = pd(s, a, IDWInterpolator(), ScalingBall(1))
            check(abs(got - d[0][1]) < 1e-9, "nearest neighbour evaluation at (%s, %s): %s, expected %s", s, a, got, d[0][1])


# ------------------------------------------------------------ winds close by
@R.scenario([[i, j, ds, da] for i in (0, 1, 2) for j in (0, 1, 2)
             for ds in (0.0, 2.0 ** -12, 2.0 ** -20, 2.0 ** -30, 2.0 ** -40)
             for da in (0.0, 2.0 ** -12, 2.0 ** -20, 2.0 ** -30, 2.0 ** -38)])
def lookup_next_to_the_grid(ctx, case):
    """A wind next to a node is not the node: no lookup, no change, an interpolated value."""
    i, j, ds, da = case
    pd, m = build("small")
    s, a = m.ws[i] + ds, m.wa[j] + da
    ctx.step()
    if not ds and not da:
        check(pd[s, a] == pd(s, a) == m.cells[s, a], "entry at (%s, %s)", s, a)
        return
    raises((ValueError, TypeError), lambda: pd[s, a], f"lookup at ({s}, {a})")
    raises((ValueError, TypeError), lambda: pd.change_entries(9.0, ws=s, wa=a), f"change at ({s}, {a})")
    want = reference_call(m, s, a)[0]
    got = pd(s, a)
    check(abs(got - want) < 1e-9 * (1 + abs(want)), "value at (%r, %r): %s, expected %s", s, a, got, want)
    compare(pd, m)


# ---------------------------------------------------------------- big tables
def big(n_ws, n_wa):
    ws = [0.5 * (k + 1) for k in range(n_ws)]
    wa = [360.0 * k / n_wa for k in range(n_wa)]
    bs = [[float((31 * i + 17 * j) % 1009) / 7 * 10.0 ** (-12 if (i + j) % 5 == 0 else 0) for j in range(n_ws)] for i in range(n_wa)]
    return ws, wa, bs


@R.scenario([[n, k, part] for n in ((70, 40), (12, 300), (300, 8)) for k in range(4) for part in range(3)])
def big_tables(ctx, case):
    """Changes of large selections in any order hit exactly the addressed cells."""
    (n_ws, n_wa), k, part = case
    ws, wa, bs = big(n_ws, n_wa)
    # handed over in some order
    os_ = [list(range(n_ws)), list(range(n_ws))[::-1], sorted(range(n_ws), key=lambda x: x * 37 % n_ws), list(range(n_ws - 1, -1, -1))][k]
    oa = [list(range(n_wa)), list(range(n_wa))[::-1], sorted(range(n_wa), key=lambda x: x * 7 % 11)][part]
    pd = PolarDiagramTable([ws[j] for j in os_], [wa[i] for i in oa], [[bs[i][j] for j in os_] for i in oa])
    check(np.asarray(pd.boat_speeds).tolist() == bs and list(map(float, pd.wind_speeds)) == ws and list(map(float, pd.wind_angles)) == wa,
          "%s: the table differs from its entries", case)
    sel_s = [ws, ws[::-1][: n_ws // 2], [w for i, w in enumerate(ws) if (i * 7) % 5 != k], [ws[-1 - k]]][k]
    sel_a = [wa[1:], wa[::-1], wa[k::3]][part]
    new = [[1000.0 + i + j / 512 for j in range(len(sel_s))] for i in range(len(sel_a))]
    pd.change_entries(new if len(sel_s) > 1 else [r[0] for r in new], ws=list(sel_s), wa=list(sel_a))
    ctx.step()
    pos_s, pos_a = {w: i for i, w in enumerate(ws)}, {a: i for i, a in enumerate(wa)}
    want = [list(r) for r in bs]
    for i, a in enumerate(sel_a):
        for j, w in enumerate(sel_s):
            want[pos_a[a]][pos_s[w]] = new[i][j]
    check(np.asarray(pd.boat_speeds).tolist() == want, "%s: wrong cells changed", case)
    for i in range(0, n_wa, 7):
        for j in range(0, n_ws, 5):
            check(pd[ws[j], wa[i]] == want[i][j], "%s: entry at (%s, %s)", case, ws[j], wa[i])
    pts = np.asarray(pd.default_points)
    check(sorted(map(tuple, pts.tolist())) == sorted(
        (w, a, want[i][j]) for i, a in enumerate(wa) for j, w in enumerate(ws)), "default points differ")


@R.scenario([[n, ax, k] for n in ((1, 1), (1, 73), (1, 300), (41, 1), (300, 1), (70, 40), (12, 300), (300, 8)) for ax in ("angles", "speeds", "both") for k in range(5)])
def whole_axes(ctx, case):
    """Without angles (or speeds) given, a change takes in all of them."""
    (n_ws, n_wa), ax, k = case
    ws, wa, bs = big(n_ws, n_wa)
    pd = PolarDiagramTable(ws, wa, bs)
    want = [list(r) for r in bs]
    sel_s = ws if ax != "angles" else [[ws[0]], [ws[-1]], ws[::-1], ws[: n_ws // 2 + 1], [ws[n_ws // 2]]][k]
    sel_a = wa if ax != "speeds" else [[wa[0]], [wa[-1]], wa[::-1], wa[: n_wa // 2 + 1], [wa[n_wa // 2]]][k]
    new = [[1000.0 + i + j / 512 for j in range(len(sel_s))] for i in range(len(sel_a))]
    given = new if len(sel_s) > 1 and len(sel_a) > 1 else [x for r in new for x in r]
    kw = {}
    if ax != "both":
        sel, key = (sel_s, "ws") if ax == "angles" else (sel_a, "wa")
        kw[key] = list(sel) if len(sel) > 1 else sel[0]
    pd.change_entries(given if len(given) > 1 else given[0], **kw)
    ctx.step()
    for i, a in enumerate(sel_a):
        for j, w in enumerate(sel_s):
            want[wa.index(a)][ws.index(w)] = new[i][j]
    check(np.asarray(pd.boat_speeds).tolist() == want, "%s: wrong cells changed", case)
    return n_ws * n_wa
