"""C31: quality measures report the diagram's actual errors."""
import itertools
import math

import numpy as np

from hrosailing.pipeline.quality_assurance import ComformingQualityAssurance, MinimalQualityAssurance
from hrosailing.polardiagram import (
    PolarDiagram,
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, same

ID = "C31"
ASSUMPTIONS = [
    "boat speeds are non-negative, test data is an (n, 3) array or a list of rows, angles in degrees",
    "the diagram's own evaluations are the reference where no closed form is known (C05-C08 check them)",
    "test points are away from rounding ties when unique cases are counted",
]
R = Registry()

ERR = ("max_error", "min_error", "average_error", "average_quadratic_error")
ZERO = ("max_zero_val", "min_zero_val", "average_zero_val", "average_quadratic_zero_val")
COVER = ("test_covering", "average_local_test_data_difference")
WS, WA = [4.0, 8.0, 12.0, 20.0], [0.0, 45.0, 90.0, 135.0, 180.0, 270.0]


def f_deg(ws, wa, a):
    return a * np.asarray(ws, dtype=float) * (1.25 - np.cos(np.deg2rad(np.asarray(wa, dtype=float))))


def f_rad(ws, wa, a):
    return f_deg(ws, np.rad2deg(np.asarray(wa, dtype=float)), a)


def diagram(k):
    if k == "table":
        return PolarDiagramTable(WS, WA, [[1 + i + 0.5 * j + 0.1 * i * j for j in range(4)] for i in range(6)])
    if k == "cloud":
        return PolarDiagramPointcloud([[s, a, 1 + s / 4 + a / 100] for s in WS for a in WA])
    if k == "own":
        return Own()
    if k == "deg":
        return PolarDiagramCurve(f_deg, 0.25)
    if k == "rad":
        return PolarDiagramCurve(f_rad, 0.25, radians=True)
    return PolarDiagramMultiSails([PolarDiagramTable(WS, WA, [[2.0 + j for j in range(4)] for i in range(6)]), diagram("rad")], ["a", "b"])


class Own(PolarDiagram):
    """A user's diagram whose speeds at 0 and 360 degrees differ."""

    def __call__(self, ws, wa):
        return 0.5 + ws / 8 + wa / 64

    def to_csv(self, csv_path):
        raise NotImplementedError

    __from_csv__ = symmetrize = default_points = default_slices = ws_to_slices = to_csv


KINDS = ("table", "cloud", "deg", "rad", "sails", "own")
_CACHE = {}


def speed(k, ws, wa):
    """Boat speed of the diagram, from a closed form or a single evaluation."""
    if k == "own":
        return 0.5 + ws / 8 + wa / 64
    if k in ("deg", "rad"):
        return 0.25 * ws * (1.25 - math.cos(math.radians(wa)))
    if k == "sails":
        if (ws, wa, "t") not in _CACHE:
            _CACHE[ws, wa, "t"] = float(diagram("sails").diagrams[0](ws, wa))
        return max(_CACHE[ws, wa, "t"], speed("rad", ws, wa))
    if (k, ws, wa) not in _CACHE:
        _CACHE[k, ws, wa] = float(diagram(k)(ws, wa))
    return _CACHE[k, ws, wa]


def errors(diffs, names=ERR):
    n = len(diffs)
    return dict(zip(names, (max(diffs), min(diffs), math.fsum(diffs) / n, math.fsum(d * d for d in diffs) / n)))


def expected(k, rows, conforming):
    out = errors([abs(b - speed(k, s, a)) for s, a, b in rows]) if rows else dict.fromkeys(ERR)
    if conforming:
        out.update(errors([abs(speed(k, 20 * i / 19, a)) for i in range(20) for a in (0, 360)], ZERO))
        groups = {}
        for s, a, b in rows:
            groups.setdefault((round(s), round(a)), []).append(b)
        out["test_covering"] = len(groups)
        out["average_local_test_data_difference"] = math.fsum(max(g) - min(g) for g in groups.values()) / len(groups) if groups else None
    return out


def compare(got, want, what):
    check(isinstance(got, dict) and set(got) == set(want), f"{what}: measures {sorted(got)}")
    for key, w in want.items():
        g = got[key]
        if w is None:
            check(g is None or g != g, f"{what}: {key} = {g!r} without test data")
        else:
            check(np.ndim(g) == 0, f"{what}: {key} = {g!r} is not a number")
            same(float(g), w, f"{what}: {key}", atol=1e-6)


LATTICE = [(8.0, 90.0, 3.0), (8.2, 90.3, 5.0), (12.0, 0.0, 0.0), (12.4, 359.0, 6.5), (20.0, 180.0, 12.0), (4.0, 45.0, 1.5), (7.6, 89.7, 3.0), (0.75, 200.0, 0.25)]


def packed(rows, c):
    if c == "array":
        return np.array(rows, dtype=float).reshape(-1, 3)
    if c == "tuples":
        return tuple(tuple(r) for r in rows)
    return [list(r) for r in rows]


def cases(tier):
    top = 5 if tier == "thorough" else 4
    for k in KINDS:
        for n in range(1, top + 1):
            for rows in itertools.combinations_with_replacement(range(len(LATTICE)), n):
                yield [k, list(rows)]
        yield [k, []]
        yield [k, list(range(8))]
        yield [k, [0, 1, 6, 0, 2, 3, 4, 5, 1, 7, 7, 6]]


@R.scenario(cases)
def measures(ctx, case):
    """All measures over every multiset of test points, in every order."""
    k, idx = case
    rows = [LATTICE[i] for i in idx]
    pd = diagram(k)
    orders = list(itertools.permutations(rows)) if len(rows) <= 2 else [rows, rows[::-1], rows[1:] + rows[:1]]
    qas = [(MinimalQualityAssurance(), False)]
    if len(rows) <= 2 or len(rows) > 3 or k in ("deg", "rad"):
        qas.append((ComformingQualityAssurance(), True))
    for qa, conforming in qas:
        want = expected(k, rows, conforming)
        for j, order in enumerate(orders or [[]]):
            data = packed(order, ("array", "lists", "tuples")[j % 3])
            keep = packed(order, ("array", "lists", "tuples")[j % 3])
            compare(qa.check(pd, data), want, f"{case} {type(qa).__name__}")
            check(np.array_equal(np.array(data), np.array(keep)), f"{case}: test data changed")
            ctx.step()
    return [round(v, 6) if v is not None else None for v in want.values()]


NEAR = [(8.49, 359.75, 3.0), (8.0, 359.45, 4.0), (7.51, 0.25, 1.0), (8.51, 359.6, 2.5), (8.0, 360.0, 0.5), (0.3, 0.0, 0.0), (0.6, 0.45, 0.25), (8.0, 1.4, 1.5), (100.2, 179.51, 9.0), (99.8, 180.49, 8.0)]


@R.scenario(lambda t: [[k, list(r)] for k in ("deg", "own") for n in (1, 2, 3, 4) for r in itertools.combinations(range(len(NEAR)), n)])
def rounding(ctx, case):
    """Test points close to the borders between the whole numbers they are rounded to."""
    k, idx = case
    rows = [NEAR[i] for i in idx]
    want = expected(k, rows, True)
    for order in (rows, rows[::-1]):
        compare(ComformingQualityAssurance().check(diagram(k), packed(order, "array")), want, str(case))
        ctx.step()
    return want["test_covering"]


@R.scenario([[k, w] for k in KINDS for w in ("perfect", "one", "scaled")])
def perfection(ctx, case):
    """Zero exactly for a perfect diagram."""
    k, w = case
    pd = diagram(k)
    winds = [(s, a) for s in (WS if k == "cloud" else [4.0, 8.0, 10.0, 12.0, 17.5]) for a in (WA if k == "cloud" else [0.0, 45.0, 60.5, 180.0, 250.0])]
    rows = [[s, a, speed(k, s, a)] for s, a in winds]
    if k == "cloud":
        rows = [[s, a, 1 + s / 4 + a / 100] for s, a in winds]
    off = 0.0
    if w == "one":
        off = 0.5
        rows[7][2] += off
    if w == "scaled":
        rows = [[s, a, b + 0.25] for s, a, b in rows]
        off = 0.25
    for qa in (MinimalQualityAssurance(), ComformingQualityAssurance()):
        got = qa.check(pd, np.array(rows))
        n = len(rows)
        want = {"perfect": (0, 0, 0, 0), "one": (off, 0, off / n, off * off / n), "scaled": (off, off, off, off * off)}[w]
        for key, v in zip(ERR, want):
            same(float(got[key]), v, f"{case}: {key}", atol=1e-9)
        ctx.step(n)
    return [case, float(got["max_zero_val"])]


@R.scenario([[list(order), conforming] for order in itertools.product(range(4), repeat=2) for conforming in (False, True)])
def reuse(ctx, case):
    """One object, several diagrams and test sets."""
    order, conforming = case
    runs = [("deg", LATTICE[:3]), ("table", LATTICE[2:5]), ("rad", LATTICE[4:]), ("cloud", LATTICE[:1])]
    qa = ComformingQualityAssurance() if conforming else MinimalQualityAssurance()
    kept = []
    for i in order:
        k, rows = runs[i]
        got = qa.check(diagram(k), np.array(rows))
        want = expected(k, rows, conforming)
        compare(got, want, f"{case}")
        kept.append((got, want))
        ctx.step()
    for got, want in kept:
        compare(got, want, f"{case}: earlier report")
    return case


@R.scenario([[k, n, j] for k in ("deg", "rad", "own", "cloud") for n in (60, 150, 300, 1200) for j in range(3)])
def many_points(ctx, case):
    """Hundreds of test points; every one of them counts."""
    k, n, j = case
    if k == "cloud":
        n = min(n, 300)
    rows = [(2.0 + (i * 7 % 19), float(i * 31 % 360), 0.5) for i in range(n)]
    rows = [(s, a, speed(k, s, a) + 0.125) for s, a, _ in rows]
    odd = [0, n - 1, n // 2 + 1][j]
    rows[odd] = (*rows[odd][:2], rows[odd][2] + 3.0 + j)
    rows[odd - 7] = (*rows[odd - 7][:2], rows[odd - 7][2] - 0.125)
    for qa, conforming in ((MinimalQualityAssurance(), False), (ComformingQualityAssurance(), True)):
        compare(qa.check(diagram(k), np.array(rows)), expected(k, rows, conforming), f"{case}")
        ctx.step(n)
    return case
