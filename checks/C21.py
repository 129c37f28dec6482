"""C21: weigher arithmetic equals arithmetic on the weights."""
import itertools
import operator
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing import (
    AllOneWeigher,
    CylindricMeanWeigher,
    CylindricMemberWeigher,
    FluctuationWeigher,
    FuzzyVariable,
    FuzzyWeigher,
    Weigher,
)
from vf.core import Registry, check, fail, raises

ID = "C21"
ASSUMPTIONS = [
    "a scalar minus a weigher is supported like the other operations",
    "weighers return an array of weights",
]
R = Registry()

ARR = np.array([[10.0, 40.0, 3.0], [10.5, 45.0, 6.0], [10.2, 41.0, 4.0], [14.0, 120.0, 6.5]])
T0 = datetime(2020, 1, 1)


def table():
    return Data.from_dict({"datetime": [T0 + timedelta(seconds=20 * i) for i in range(4)], "TWS": ARR[:, 0].tolist(), "TWA": ARR[:, 1].tolist(), "BSP": ARR[:, 2].tolist()})


class Column(Weigher):
    """Weights read off a column."""

    def __init__(self, col, factor):
        super().__init__()
        self.col, self.factor = col, factor
        self.calls = 0

    def weigh(self, points):
        self.calls += 1
        vals = np.array(points[("TWS", "TWA", "BSP")[self.col]]) if isinstance(points, Data) else points[:, self.col]
        return vals * self.factor


def leaves():
    return {"a": Column(0, 0.05), "b": Column(2, 0.1)}


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
SCALARS = {"2": 2, "h": 0.5, "m": -1.5, "np": np.float64(0.25), "i": np.int64(3)}
VECTORS = {"v": [1.0, 2.0, -0.5, 4.0], "V": np.array([0.5, 1.0, 2.0, 3.0]), "t": (2, 4, 8, 16)}


def weigher_exprs(depth, rich):
    """Expressions (nested tuples) denoting weighers."""
    if depth == 0:
        return ["a", "b"]
    smaller = weigher_exprs(depth - 1, rich)
    consts = list(SCALARS) + list(VECTORS) if rich or depth == 1 else ["h", "V"]
    out = list(smaller)
    new = []
    for x in smaller:
        new.append(("neg", x))
        for k in (2, 3, -1, 0):
            if depth == 1 or k in (2, -1):
                new.append(("pow", x, k))
        for op in OPS:
            for c in consts:
                new.append((op, x, c))
                new.append((op, c, x))
            for y in ("a", "b"):
                new.append((op, x, y))
                new.append((op, y, x))
    for n in new:
        if n not in out:
            out.append(n)
    return out


def build(e, env):
    if isinstance(e, str):
        return env[e] if e in env else SCALARS[e] if e in SCALARS else VECTORS[e]
    if e[0] == "neg":
        return -build(e[1], env)
    if e[0] == "pow":
        return build(e[1], env) ** e[2]
    return OPS[e[0]](build(e[1], env), build(e[2], env))


def value(e, env):
    if isinstance(e, str):
        return env[e] if e in env else np.asarray(SCALARS[e] if e in SCALARS else VECTORS[e], dtype=float)
    if e[0] == "neg":
        return -value(e[1], env)
    if e[0] == "pow":
        return value(e[1], env) ** e[2]
    return OPS[e[0]](value(e[1], env), value(e[2], env))


def show(e):
    return e if isinstance(e, str) else f"({e[0]} {' '.join(map(show, (x if not isinstance(x, int) else str(x) for x in e[1:])))})"


def parse(x):
    return tuple(parse(y) for y in x) if isinstance(x, list) else x


def jsonable(x):
    return [jsonable(y) for y in x] if isinstance(x, tuple) else x


def verify(e, expr, want, points, what):
    got = expr.weigh(points)
    check(isinstance(got, np.ndarray) and got.shape == (4,), "%s: weights %s", what, got)
    check(np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True), "%s weighs %s instead of %s", what, got.tolist(), want.tolist())
    if np.isfinite(want).all():
        st = expr.get_latest_statistics()
        check(abs(st["maximal_weight"] - want.max()) <= 1e-9 * (1 + abs(want.max())) and abs(st["minimal_weight"] - want.min()) <= 1e-9 * (1 + abs(want.min())), "%s: statistics %s for weights %s", what, st, want)


@R.scenario(lambda tier: [jsonable(e) for e in weigher_exprs(2, True) if not isinstance(e, str)])
def expressions(ctx, case):
    """Every expression tree over two weighers, scalars and arrays."""
    e = parse(case)
    env = leaves()
    with np.errstate(all="ignore"):
        expr = build(e, env)
        check(isinstance(expr, Weigher), "%s is a %s", show(e), type(expr))
        vals = {k: w.weigh(ARR) for k, w in leaves().items()}
        want = np.broadcast_to(value(e, vals), (4,))
        for turn, points in enumerate((ARR.copy(), table(), ARR.copy())):
            verify(e, expr, want, points, show(e))
            ctx.step()
        back = np.array(want[::-1])
        if not any(v in show(e) for v in "vVt"):
            got = expr.weigh(ARR[::-1].copy())
            check(np.allclose(got, back, rtol=1e-9, equal_nan=True), "%s of reversed points weighs %s instead of %s", show(e), got, back)
        for k, w in env.items():
            check(np.allclose(w.weigh(ARR), vals[k]), "weigher %s changed by using it in %s", k, show(e))
    return case[0]


@R.scenario([[o1, o2] for o1 in OPS for o2 in OPS])
def nested(ctx, case):
    """Deeper expressions of expressions on both sides, shared sub-expressions."""
    f, g = OPS[case[0]], OPS[case[1]]
    vals = {k: w.weigh(ARR) for k, w in leaves().items()}
    env = leaves()
    a, b = env["a"], env["b"]
    x, y = vals["a"], vals["b"]
    with np.errstate(all="ignore"):
        left, right = f(a, b), g(a, 2)
        lv, rv = f(x, y), g(x, 2)
        for h in OPS.values():
            verify(None, h(left, right), h(lv, rv), ARR, f"{case}")
            verify(None, h(right, left), h(rv, lv), ARR, f"{case} swapped")
            verify(None, h(left, left), h(lv, lv), table(), f"{case} twice the same")
            verify(None, h(-left, right**2) + a, h(-lv, rv**2) + x, ARR, f"{case} deeper")
            verify(None, h(h(h(left, b), right), left), h(h(h(lv, y), rv), lv), ARR, f"{case} chain")
            ctx.step(5)
        verify(None, left, lv, ARR, "sub-expression used elsewhere")
        verify(None, right, rv, ARR, "sub-expression used elsewhere")


POWERS = [0, 1, 2, 3, 7, 20, -1, -2, -5, 0.0, 0.5, 1.5, 2.5, 3.75, -0.5, -2.25, 1e-3, 1 / 3, np.float64(0.3), np.int64(2), np.float64(4.2), True]


@R.scenario([[i, k] for i in range(len(POWERS)) for k in range(6)])
def powers(ctx, case):
    """Whole and broken powers of weighers and of expressions."""
    p, k = POWERS[case[0]], case[1]
    f = [lambda a, b: a ** p, lambda a, b: (a * 3 + b) ** p, lambda a, b: (a - b) ** p * 2, lambda a, b: 1 - b ** p / a, lambda a, b: (a ** p) ** 2 + (b ** 2) ** p, lambda a, b: (-a) ** p][k]
    env = leaves()
    vals = {name: w.weigh(ARR) for name, w in leaves().items()}
    with np.errstate(all="ignore"):
        expr = f(env["a"], env["b"])
        want = np.asarray(f(vals["a"], vals["b"]))
        for points in (ARR.copy(), table()):
            verify(None, expr, want, points, f"power {p!r}, expression {k}")
            ctx.step()


def library():
    x = FuzzyVariable()
    return {
        "one": AllOneWeigher(),
        "mean": CylindricMeanWeigher(radius=0.1),
        "member": CylindricMemberWeigher(radius=0.1, length=2),
        "fluct": FluctuationWeigher(["TWS", "BSP"], timedelta(seconds=30), [3, 4]),
        "fuzzy": FuzzyWeigher((x["TWS"] > 10.1) & ~(x["BSP"] > 5)),
    }


@R.scenario([[a, b, op] for a in library() for b in library() for op in OPS])
def of_library(ctx, case):
    """Every pair of library weighers combined with every operation."""
    a, b, op = case
    ws = library()
    with np.errstate(all="ignore"):
        va, vb = np.asarray(library()[a].weigh(table())), np.asarray(library()[b].weigh(table()))
        verify(None, OPS[op](ws[a], ws[b]), OPS[op](va, vb), table(), f"{a} {op} {b}")
        verify(None, OPS[op](ws[a], 0.5), OPS[op](va, 0.5), table(), f"{a} {op} 0.5")
        verify(None, OPS[op](2, ws[a]), OPS[op](2, va), table(), f"2 {op} {a}")
        verify(None, OPS[op](ws[a] * ws[b], ws[a]) ** 2, OPS[op](va * vb, va) ** 2, table(), f"(({a} * {b}) {op} {a}) ** 2")
        ctx.step(4)


@R.scenario([0])
def invalid(ctx, case):
    """Operands which are no weights are refused; arrays are copied."""
    a = Column(0, 1.0)
    for bad in ("2", None, {"x": 1}, object()):
        for op in OPS.values():
            raises(TypeError, lambda: op(a, bad), f"weigher and {bad!r}")
            raises(TypeError, lambda: op(bad, a), f"{bad!r} and weigher")
    arr = np.array([1.0, 2.0, 3.0, 4.0])
    for op in OPS.values():
        x, y = op(a, arr), op(arr, a)
        w1, w2 = x.weigh(ARR), y.weigh(ARR)
        arr *= 2
        check(np.array_equal(x.weigh(ARR), w1) and np.array_equal(y.weigh(ARR), w2), "changing an array after using it in an expression changes the expression")
        arr /= 2
    keep = ARR.copy()
    (a * 2 + a / 3).weigh(ARR)
    check(np.array_equal(keep, ARR), "the points were changed")


@R.scenario([[n, e] for n in (1, 5, 100, 101, 256, 257, 1000, 3000) for e in (1.0, 1e-6, 1e-12, 1e6)])
def many_weights(ctx, case):
    """Long and tiny weights: the arithmetic holds in every entry and to full precision."""
    n, e = case
    pts = np.column_stack([1.0 + (np.arange(n) * 37 % 101) / 7, np.arange(n) % 360.0, 0.5 + (np.arange(n) * 11 % 89) / 9]) * [e, 1, 1]
    vec = 1.0 + np.arange(n) % 13 / 3
    vals = {"a": pts[:, 0] * 0.05, "b": pts[:, 2] * 0.1}
    exprs = {
        "a + b": (lambda a, b: a + b), "a - b": (lambda a, b: a - b), "a * b": (lambda a, b: a * b), "a / b": (lambda a, b: a / b), "b / a": (lambda a, b: b / a),
        "v - a": (lambda a, b: vec - a), "v * a + b": (lambda a, b: vec * a + b), "v / a": (lambda a, b: vec / a), "a ** 3": (lambda a, b: a ** 3), "b ** -2": (lambda a, b: b ** -2),
        "-a + 1e-9": (lambda a, b: -a + 1e-9), "(a - b) * (a + b)": (lambda a, b: (a - b) * (a + b)), "1 - a * a / b": (lambda a, b: 1 - a * a / b),
        "sum": (lambda a, b: ((((a + b) + a) + b) + a) * 0.2), "differences": (lambda a, b: (a + 1e-10) - a),
    }
    for name, f in exprs.items():
        w = leaves()
        expr = f(w["a"], w["b"])
        got, want = np.asarray(expr.weigh(pts)), f(vals["a"], vals["b"])
        ctx.step()
        check(got.shape == (n,), "%s of %s points has shape %s", name, n, got.shape)
        # the same operations on the same numbers: only rounding may differ
        tol = 1e-13 * (np.abs(vals["a"]) + np.abs(vals["b"]) + np.abs(want)) + 1e-300
        check(np.all(np.abs(got - want) <= (tol if name in ("differences", "a - b", "(a - b) * (a + b)") else 1e-13 * np.abs(want) + 1e-16 * (name[0] in "1-v"))), "%s of %s points is off by %s", name, n, np.abs(got - want).max())
        st = expr.get_latest_statistics()
        for key, fun in (("minimal_weight", np.min), ("maximal_weight", np.max), ("average_weight", np.mean)):
            if key in st:
                check(abs(st[key] - fun(want)) <= 1e-9 * np.abs(want).max(), "%s: %s is %s instead of %s", name, key, st[key], fun(want))
