"""C03: true and apparent wind conversions are mutually inverse."""
import itertools
import math

import numpy as np

from hrosailing.core.computing import (
    convert_apparent_wind_to_true,
    convert_true_wind_to_apparent,
)
from vf.core import Registry, angle_close, check, close, fail, raises

ID = "C03"
ASSUMPTIONS = ["angles are compared with a tolerance of 1e-4 degrees (arccos near +-1)"]
R = Registry()

CONV = {"to_apparent": (convert_true_wind_to_apparent, 1),
        "to_true": (convert_apparent_wind_to_true, -1)}


def reference(row, sign):
    ws, wa, bsp = map(float, row)
    x = ws * np.cos(np.deg2rad(wa)) + sign * bsp
    y = ws * np.sin(np.deg2rad(wa))
    return np.hypot(x, y), np.rad2deg(np.arctan2(y, x)) % 360, bsp


def agrees(got, want, row):
    check(got.shape == (3,), "a row has shape %s", got.shape)
    tol = 1e-7 * (1 + abs(row[0]) + abs(row[2]))
    check(abs(got[0] - want[0]) <= tol, "%s: wind speed %s, expected %s", row, got[0], want[0])
    check(got[2] == want[2], "%s: boat speed %s, expected %s", row, got[2], want[2])
    if want[0] > 1e-6:
        check(angle_close(got[1], want[1], 1e-4), "%s: wind angle %s, expected %s",
              row, got[1], want[1])
        check(0 <= got[1] < 360, "%s: angle %s outside [0, 360)", row, got[1])
        y_in = row[0] * np.sin(np.deg2rad(row[1]))
        y_out = got[0] * np.sin(np.deg2rad(got[1]))
        check(abs(y_in - y_out) <= 1e-5 * (1 + abs(row[0]) + abs(row[2])),
              "%s: the wind changed its side or cross component: %s", row, got)


WS = [0.0, 0.5, 3.0, 7.25, 10.0, 20.0, 45.5]
WA = list(range(-360, 725, 15)) + [0.5, 179.5, 180.5, 359.5, 1e-3, 45.6]
BSP = [0.0, 0.1, 3.0, 5.5, 10.0, 25.0]


@R.scenario(lambda tier: ([c, ws, bsp] for c in CONV for ws in WS for bsp in BSP))
def wind_triangle_on_the_full_grid(ctx, case):
    """One row per call and all angles in one call, against the vector sum."""
    name, ws, bsp = case
    fn, sign = CONV[name]
    back = CONV["to_true" if name == "to_apparent" else "to_apparent"][0]
    rows = [[ws, float(wa), bsp] for wa in WA]
    allof = fn(rows)
    ctx.step()
    check(allof.shape == (len(rows), 3), "shape %s", allof.shape)
    for row, got in zip(rows, allof):
        want = reference(row, sign)
        agrees(got, want, row)
        single = fn([row])
        ctx.step()
        agrees(single[0], want, row)
        if want[0] > 1e-6:
            there = back(single)
            ctx.step()
            check(abs(there[0][0] - ws) < 1e-5 * (1 + ws + bsp), "%s -> %s -> %s", row, single, there)
            check(ws < 1e-9 or want[0] < 1e-3 or angle_close(there[0][1], row[1], 1e-2),
                  "%s -> %s -> %s", row, single, there)
            check(there[0][2] == bsp, "boat speed changed: %s", there)


POOL = [[10.0, 90.0, 5.0], [10.0, 270.0, 5.0], [3.0, -45.0, 7.0], [12.0, 400.0, 0.0],
        [8.0, 180.0, 4.0], [8.0, 0.0, 4.0], [6.0, 190.0, 6.5]]


@R.scenario(lambda tier: (
    [c, list(p)] for c in CONV
    for k in range(1, 6 if tier == "thorough" else 5)
    for p in itertools.product(range(len(POOL)), repeat=k)))
def every_stacking_of_rows(ctx, case):
    """Rows are converted independently and in place, whatever surrounds them."""
    fn, sign = CONV[case[0]]
    rows = [POOL[i] for i in case[1]]
    got = fn(np.array(rows))
    ctx.step()
    check(got.shape == (len(rows), 3), "shape %s", got.shape)
    for row, g in zip(rows, got):
        agrees(g, reference(row, sign), row)


def containers(rows):
    big = np.full((len(rows) * 2, 5), -1.0)
    big[::2, 1:4] = rows
    ro = np.array(rows, dtype=float)
    ro.setflags(write=False)
    yield "float array", np.array(rows, dtype=float)
    yield "int array", np.array(rows, dtype=int)
    yield "int32 array", np.array(rows, dtype=np.int32)
    yield "int16 array", np.array(rows, dtype=np.int16)
    yield "float32 array", np.array(rows, dtype=np.float32)
    yield "fortran array", np.asfortranarray(np.array(rows, dtype=float))
    yield "strided view", big[::2, 1:4]
    yield "read-only array", ro
    yield "list of lists", [list(r) for r in rows]
    yield "int lists", [[int(v) for v in r] for r in rows]
    yield "tuples", tuple(tuple(r) for r in rows)
    yield "list of arrays", [np.array(r) for r in rows]
    yield "transposed", np.array(rows, dtype=float).T.copy().T


@R.scenario(lambda tier: (
    [c, list(p)] for c in CONV for k in (1, 2, 3)
    for p in itertools.permutations(range(len(POOL)), k)))
def every_container_and_unmodified_input(ctx, case):
    """Containers and number types do not matter and stay unmodified."""
    fn, sign = CONV[case[0]]
    rows = [[10, 90, 5], [10, 275, 5], [3, -45, 7], [12, 400, 0], [8, 180, 4], [8, 0, 4],
            [6, 730, 6]]
    rows = [rows[i] for i in case[1]]
    for name, c in containers(rows):
        before = [list(map(float, r)) for r in c]
        first = np.array(fn(c), dtype=float)
        second = np.array(fn(c), dtype=float)
        ctx.step(2)
        check([list(map(float, r)) for r in c] == before, "%s was modified", name)
        tol = 1e-3 if "32 array" in name else 1e-9
        check(close(first, second, 1e-9, 1e-9), "a second conversion of %s differs", name)
        for row, g in zip(rows, first):
            want = reference(row, sign)
            check(abs(g[0] - want[0]) < 1e-3, "%s %s: wind speed %s, expected %s", name, row, g[0], want[0])
            check(angle_close(g[1], want[1], 0.05), "%s %s: angle %s, expected %s", name, row, g[1], want[1])
            check(abs(g[2] - want[2]) <= tol, "%s %s: boat speed %s", name, row, g[2])
        if isinstance(c, np.ndarray) and c.flags.writeable:
            keep = np.array(first)
            c[...] = 1
            check(np.array_equal(keep, first), "the result aliases the input")


@R.scenario(lambda tier: [[c, t, list(r)] for c in CONV for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "longdouble")
                          for r in itertools.product([0, 1, 11, 12, 15, 16, 90, 127], [0, 1, 60, 90, 127], [0, 2, 11, 16, 100])])
def every_number_type(ctx, case):
    """Small integers and short floats are converted as the numbers they stand for."""
    fn, sign = CONV[case[0]]
    row = case[2]
    got = np.array(fn(np.array([row], dtype=case[1])), dtype=float)[0]
    want = reference(row, sign)
    ctx.step()
    tol = 1e-3
    check(abs(got[0] - want[0]) < tol, "wind speed %s, expected %s", got[0], want[0])
    if want[0] > tol:
        check(angle_close(got[1], want[1], max(60 * tol / want[0] * 2, 0.02)), "angle %s, expected %s", got[1], want[1])
    check(abs(got[2] - want[2]) <= tol, "boat speed %s", got[2])


@R.scenario(lambda tier: [[c, i] for c in CONV for i in range(9)])
def invalid_winds_are_refused(ctx, case):
    fn, _ = CONV[case[0]]
    bad = [
        [[1, 2]], [1, 2, 3], [[[1, 2, 3]]], [[-1.0, 30, 2]], [[3, 30, 2], [-0.5, 30, 2]],
        [[np.nan, 1, 2]], [[1, np.inf, 2]], [["a", "b", "c"]], [[1, 2, 3, 4]],
    ][case[1]]
    ctx.step()
    raises((TypeError, ValueError), lambda: fn(bad), f"wind {bad}")


def sharp(row, got, want, what):
    """Full precision where the conversion is well conditioned."""
    scale = abs(row[0]) + abs(row[2])
    check(abs(got[0] - want[0]) <= 1e-9 * scale, "%s %s: wind speed %s, expected %s", what, row, got[0], want[0])
    check(got[2] == want[2], "%s %s: boat speed %s", what, row, got[2])
    side = abs(math.sin(math.radians(want[1])))
    if want[0] > 1e-3 * scale and side > 1e-3:
        check(angle_close(got[1], want[1], 1e-9 * scale / want[0] / side + 1e-9), "%s %s: wind angle %s, expected %s", what, row, got[1], want[1])


@R.scenario([[c, n] for c in CONV for n in (1, 2, 17, 100, 101, 255, 256, 257, 1000, 1025, 2000, 5000)])
def many_rows(ctx, case):
    """Long stacks are converted row by row to full precision."""
    fn, sign = CONV[case[0]]
    n = case[1]
    rows = [[0.25 + 20.0 * ((i * 37) % n) / n, (i * 360.0 / n + 0.123456789) % 360, 12.0 * ((i * 11) % n) / n] for i in range(n)]
    got = np.asarray(fn(np.array(rows)))
    ctx.step()
    check(got.shape == (n, 3), "%s rows become %s", n, got.shape)
    for row, g in zip(rows, got):
        sharp(row, g, reference(row, sign), f"{n} rows,")
    rev = np.asarray(fn(rows[::-1]))
    check(np.array_equal(rev[::-1], got), "%s rows in reverse order are converted differently", n)


@R.scenario([[c, e, ws, bsp] for c in CONV for e in (-9, -6, -3, -1, 0, 2, 4, 6) for ws in (1.0, 2.345678912, 9.0) for bsp in (0.0, 0.7654321, 3.0)])
def every_scale(ctx, case):
    """Winds of all magnitudes: scaling both speeds scales the result and keeps the angle."""
    fn, sign = CONV[case[0]]
    _, e, ws, bsp = case
    k = 10.0 ** e
    rows = [[ws * k, a, bsp * k] for a in (0.5, 17.123456789, 45.0, 90.0, 90.000001, 133.7, 179.0, 181.0, 200.5, 269.999999, 300.1, 359.0)]
    got = np.asarray(fn(rows))
    ctx.step()
    for row, g in zip(rows, got):
        sharp(row, g, reference(row, sign), f"scale {k}")


@R.scenario([[c, d] for c in CONV for d in (1e-1, 1e-3, 1e-5, 1e-7)])
def rows_close_together(ctx, case):
    """Nearly equal winds are not mixed up."""
    fn, sign = CONV[case[0]]
    d = case[1]
    base = [[8.0, 50.0, 3.0], [10.0, 220.0, 6.0], [0.5, 95.0, 0.25]]
    rows = [[a + i * d, b + j * d, c + k * d] for a, b, c in base for i in range(3) for j in range(3) for k in range(3)]
    got = np.asarray(fn(rows))
    ctx.step()
    for row, g in zip(rows, got):
        sharp(row, g, reference(row, sign), f"steps of {d}")
