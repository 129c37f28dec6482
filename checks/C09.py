"""C09: symmetrizing mirrors a diagram without changing its data."""
import itertools
import math

import numpy as np

from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, same

ID = "C09"
ASSUMPTIONS = ["tables and clouds with angles on one side of the 0 - 180 axis (documented precondition)"]
R = Registry()

PORT = [0.0, 20.0, 90.0, 137.5, 180.0]
STAR = [0.0, 180.0, 200.5, 270.0, 355.0]
WSS = [[6.0], [4.0, 9.5], [12.0, 3.0, 7.0]]


def subsets(t):
    for side in (PORT, STAR):
        for r in range(1, len(side) + 1):
            for s in itertools.combinations(side, r):
                yield list(s)


def speed(s, a):
    return round(1 + s / 8 + math.sin(math.radians(a / 2)) * 3 + (0.75 if 100 < a < 150 else 0), 4)


def mirror(cells):
    out = dict(cells)
    for (s, a), v in cells.items():
        out.setdefault((s, (360 - a) % 360), v)
    return out


@R.scenario(lambda t: [[w, a, o] for w in WSS for a in subsets(t) for o in ("sorted", "reversed", "shifted")])
def tables(ctx, case):
    """The mirrored table has exactly the original rows and their mirror images."""
    ws, wa, order = case
    given = list(reversed(wa)) if order == "reversed" else [a - 360 for a in wa] if order == "shifted" else wa
    bsps = [[speed(s, a % 360) for s in ws] for a in given]
    pd = PolarDiagramTable(ws, given, bsps)
    cells = {(s, a): speed(s, a) for s in ws for a in wa}
    before = [np.array(x) for x in (pd.wind_speeds, pd.wind_angles, pd.boat_speeds)]
    sym = pd.symmetrize()
    check(type(sym) is PolarDiagramTable, "kind %s", type(sym))
    exp = mirror(cells)
    check(list(map(float, sym.wind_speeds)) == sorted(ws), "wind speeds %s", sym.wind_speeds)
    check(list(map(float, sym.wind_angles)) == sorted({a for _, a in exp}), "wind angles %s, expected %s", sym.wind_angles, sorted({a for _, a in exp}))
    for (s, a), v in exp.items():
        check(sym[s, a] == v and sym(s, a) == v and sym(s, a + 360) == v, "entry at %s is %s, expected %s", (s, a), sym[s, a], v)
        check(sym[s, 360 - a] == v, "entry at %s is not symmetric", (s, a))
        ctx.step()
    if 0.0 not in wa:
        for s in (2.0, 5.0, 12.5):
            for a in (10.0, 45.0, 100.0, 179.0):
                same(float(sym(s, a)), float(sym(s, 360 - a)), f"evaluation at {s, a} and its mirror image")
    for x, y in zip(before, (pd.wind_speeds, pd.wind_angles, pd.boat_speeds)):
        check(np.array_equal(x, y), "the original table was changed: %s -> %s", x, y)
    # later changes of one do not reach the other
    sym.change_entries(99.0, ws=ws[0], wa=wa[0])
    check(np.array_equal(pd.boat_speeds, before[2]), "changing the mirrored table changed the original")
    pd.change_entries(-55.0, ws=ws[0], wa=wa[-1])
    check(-55.0 not in np.asarray(sym.boat_speeds), "changing the original changed the mirrored table")
    return sorted(map(str, exp))


@R.scenario(lambda t: [[w, a, o] for w in WSS for a in subsets(t) for o in (1, -1)])
def clouds(ctx, case):
    """The mirrored cloud has exactly the original points and their mirror images."""
    ws, wa, order = case
    pts = [[s, a, speed(s, a)] for i, s in enumerate(ws) for a in wa[i % 2:] or wa][::order]
    pd = PolarDiagramPointcloud(pts)
    before = np.array(pd.points)
    sym = pd.symmetrize()
    check(type(sym) is PolarDiagramPointcloud, "kind %s", type(sym))
    exp = mirror({(s, a): v for s, a, v in pts})
    got = {tuple(map(float, p)) for p in sym.points}
    check(got == {(s, a, v) for (s, a), v in exp.items()}, "points %s, expected %s", sorted(got), exp)
    check(len(sym.points) <= 2 * len(pts), "too many points")
    for (s, a), v in exp.items():
        check(sym(s, a) == v and sym(s, 360 - a) == v, "speed at %s is %s / %s, expected %s", (s, a), sym(s, a), sym(s, 360 - a), v)
        ctx.step()
    for s in (2.0, 5.0, 12.5):
        for a in (10.0, 45.0, 100.0, 179.0):
            if 0.0 not in wa:
                same(float(sym(s, a)), float(sym(s, 360 - a)), f"evaluation at {s, a} and its mirror image")
    check(np.array_equal(pd.points, before), "the original cloud was changed")
    sym.add_points([[1.0, 1.0, 1.0]])
    check(np.array_equal(pd.points, before), "adding to the mirrored cloud changed the original")
    return sorted(map(str, exp))


def skew(ws, wa, a, b):
    wa = np.asarray(wa, dtype=float)
    return a + b * np.asarray(ws) * wa - 0.001 * wa * wa


def wave(ws, wa, a, b, c):
    return a * np.asarray(ws) + b * np.sin(np.asarray(wa, dtype=float) * c)


def line(ws, wa, a):
    return a * np.asarray(ws) * (1 + np.asarray(wa, dtype=float))


def fixed(ws, wa):
    return np.asarray(ws) + 0.1 * np.asarray(wa, dtype=float)


CURVES = [(line, (2.0,)), (fixed, ()), (skew, (1.0, 0.25)), (skew, (-2.0, 0.0)), (wave, (0.5, 2.0, 0.3)), (wave, (0.25, 1.0, 1.0))]


@R.scenario(lambda t: [[i, r, n] for i in range(len(CURVES)) for r in (False, True) for n in (1, 2, 3)])
def curves(ctx, case):
    """A symmetrized curve is the average of its two sides."""
    i, radians, times = case
    f, p = CURVES[i]
    full = 2 * math.pi if radians else 360.0
    pd = PolarDiagramCurve(f, *p, radians=radians)
    sym = pd
    for _ in range(times):
        sym = sym.symmetrize()
    check(type(sym) is PolarDiagramCurve and sym.radians is radians and tuple(sym.parameters) == p, "kind or attributes")
    k = full / 360
    degs = [1.0, 45.0, 90.0, 133.5, 180.0, 200.0, 270.0, 359.0]
    for s in (0.0, 3.0, 12.5):
        for d in degs:
            a = d * k
            exp = 0.5 * (float(f(s, a, *p)) + float(f(s, full - a, *p)))
            for q in (a, full - a, a + full, a - full):
                same(float(sym(s, q)), exp, f"speed at {s, q}", atol=1e-7)
            same(float(pd(s, a)), float(f(s, a, *p)), "the original", atol=1e-7)
            ctx.step()
    wa = np.array(degs) * k
    keep = wa.copy()
    same(sym(np.full(len(wa), 3.0), wa), 0.5 * (f(3.0, wa, *p) + f(3.0, full - wa, *p)), "speeds at arrays", atol=1e-7)
    check(np.array_equal(wa, keep), "angles passed in were modified")
    for s in sym.get_slices([4.0, 8.0], wa_resolution=37)[1]:
        same(s[2][1:-1], s[2][1:-1][::-1], "slices are symmetric", atol=1e-7)


@R.scenario(lambda t: [list(c) for n in (1, 2, 3) for c in itertools.permutations(["port", "star", "cloud", "curve"], n)])
def sails(ctx, case):
    """Each sail of a multi-sail diagram is mirrored under its name."""
    def sail(k):
        if k == "port":
            return PolarDiagramTable([4.0, 8.0], PORT, [[speed(s, a) for s in (4.0, 8.0)] for a in PORT])
        if k == "star":
            return PolarDiagramTable([4.0, 8.0], STAR[1:], [[speed(s, a) + 1 for s in (4.0, 8.0)] for a in STAR[1:]])
        if k == "cloud":
            return PolarDiagramPointcloud([[s, a, speed(s, a) - 0.5] for s in (4.0, 8.0) for a in PORT])
        return PolarDiagramCurve(skew, 1.0, 0.01)

    pds = [sail(k) for k in case]
    names = [f"the {k}" for k in case]
    ms = PolarDiagramMultiSails(pds, names)
    sym = ms.symmetrize()
    check(type(sym) is PolarDiagramMultiSails and list(sym.sails) == names, "kind or names %s", sym.sails)
    check(all(a is b for a, b in zip(ms.diagrams, pds)), "the original's sails were replaced")
    for name, pd, d in zip(names, pds, sym.diagrams):
        check(type(d) is type(pd) and sym[name] is d, "sail %s", name)
        ref = pd.symmetrize()
        for s in (4.0, 8.0):
            for a in (20.0, 90.0, 137.5, 200.5, 270.0, 355.0):
                same(float(d(s, a)), float(ref(s, a)), f"sail {name} at {s, a}")
    for s in (4.0, 8.0):
        for a in (20.0, 90.0, 137.5):
            if set(case) <= {"port", "cloud", "curve"}:
                same(float(sym(s, a)), float(sym(s, 360 - a)), f"speed at {s, a} and its mirror image")
            ctx.step()


DIG = {"ninth": 1.23456789e-1 / 3, "thirds": 1 / 3, "tiny": 1e-7, "pi": math.pi / 10}


@R.scenario(lambda t: [[k, side, n] for k in DIG for side in ("port", "star") for n in (1, 3, 50, 130, 300)])
def many_digits(ctx, case):
    """Angles with all their digits, nearly equal angles, and large diagrams."""
    k, side, n = case
    step = DIG[k] if n <= 3 else 178.0 / n
    wa = [1.0 + (0.1 if k != "thirds" else 1 / 30) + i * step for i in range(n)]
    if k == "tiny" and n > 3:
        wa = [1.0 + (i // 2) * step + (i % 2) * 1e-7 for i in range(n)]
    if side == "star":
        wa = [360.0 - a for a in wa]
    pts = [[10.0 + 1 / 7, a, 1.0 + math.sqrt(i + 2)] for i, a in enumerate(wa)]
    pts = [pts[(i * 7) % n] for i in range(n)] if math.gcd(7, n) == 1 else pts[::-1]
    sym = PolarDiagramPointcloud(pts).symmetrize()
    ctx.step()
    got = np.array(sorted(map(tuple, np.asarray(sym.points).tolist())))
    want = np.array(sorted([tuple(p) for p in pts] + [(s, 360.0 - a, b) for s, a, b in pts]))
    check(got.shape == want.shape, "%s points became %s", n, len(got))
    check(np.abs(got - want).max() < 1e-11, "mirrored cloud differs from its definition by %s", np.abs(got - want).max())
    if k == "tiny" or len(set(wa)) < n:
        return
    order = sorted(range(n), key=lambda i: wa[i])
    ws = [4.0 + 1 / 7, 9.0 + math.pi / 100]
    tab = PolarDiagramTable(ws, [wa[i] for i in order], [[math.sqrt(i + 2), math.sqrt(i + 3)] for i in order])
    sym = tab.symmetrize()
    ctx.step()
    exp = sorted([(wa[i], math.sqrt(i + 2), math.sqrt(i + 3)) for i in order] + [(360.0 - wa[i], math.sqrt(i + 2), math.sqrt(i + 3)) for i in order])
    check(np.shape(sym.boat_speeds) == (2 * n, 2), "table of shape %s", np.shape(sym.boat_speeds))
    check(np.array_equal(sym.wind_speeds, ws), "wind speeds %s", sym.wind_speeds)
    check(np.abs(np.asarray(sym.wind_angles) - [e[0] for e in exp]).max() < 1e-11, "angles differ by %s", np.abs(np.asarray(sym.wind_angles) - [e[0] for e in exp]).max())
    check(np.array_equal(np.asarray(sym.boat_speeds), [e[1:] for e in exp]), "speeds are not those of the mirrored rows")
