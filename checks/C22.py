"""C22: fuzzy statements evaluate by their truth functions everywhere."""
import itertools
import math
from datetime import datetime, timedelta

import numpy as np

from hrosailing.core.data import Data
from hrosailing.processing import FuzzyVariable, FuzzyWeigher
from hrosailing.processing.weigher import FuzzyBool
from vf.core import Registry, check, raises, same

ID = "C22"
ASSUMPTIONS = [
    "a sharpness given by calling a variable applies to the next statement made of it",
    "equality is the conjunction of both comparisons, hence one half at the threshold",
]
R = Registry()


def sig(z):
    if z > 700:
        return 1.0
    if z < -700:
        return 0.0
    return 1 / (1 + math.exp(-z))


# an atom is [key, comparison, threshold, sharpness or None]
def truth(stmt, point, default=10):
    op = stmt[0]
    if op == "atom":
        _, key, cmp, a, s = stmt
        s = default if s is None else s
        v = point if key is None else point[key]
        up, down = sig(s * (v - a)), sig(s * (a - v))
        return {">": up, ">=": up, "<": down, "<=": down, "==": min(up, down)}[cmp]
    if op == "not":
        return 1 - truth(stmt[1], point, default)
    vals = [truth(x, point, default) for x in stmt[1:]]
    return min(vals) if op == "and" else max(vals)


def compare(x, cmp, a):
    return {">": lambda: x > a, ">=": lambda: x >= a, "<": lambda: x < a, "<=": lambda: x <= a, "==": lambda: x == a}[cmp]()


def build(stmt, var):
    op = stmt[0]
    if op == "atom":
        _, key, cmp, a, s = stmt
        if key is not None and s is not None and cmp in ("<=", ">="):
            return compare(var(s)[key], cmp, a)
        x = var if key is None else var[key]
        return compare(x if s is None else x(s), cmp, a)
    if op == "not":
        return ~build(stmt[1], var)
    one, two = (build(x, var) for x in stmt[1:])
    return one & two if op == "and" else one | two


CMP = [">", ">=", "<", "<=", "=="]
SCALAR_ATOMS = [["atom", None, c, a, s] for c in CMP for a, s in [(2, None), (-1.5, 3), (3.25, 0.5)]]
VALUES = [-100.0, -3.0, -1.5, -1.4, 0.0, 1, 2, 2.1, 3.25, 5.5, 1000]
KEYED_ATOMS = [["atom", k, c, a, s] for k, c, a, s in [(0, "<", 2, None), (1, ">", 3.5, None), (1, "<=", 1.5, 2), (0, "==", 1.5, 4), (0, ">=", 3, 0.5), (1, "==", 2, None)]]
ROWS = [[1.5, 2.0], [2.0, 3.5], [3, 1], [-4.0, 9.0], [2.2, 1.5], [0.0, 3.6], [50.0, -50.0]]


def combine(left, right):
    for a, b in itertools.product(left, right):
        yield ["and", a, b]
        yield ["or", a, b]


def trees(atoms, tier):
    first = list(atoms) + [["not", a] for a in atoms]
    second = list(combine(first, first))
    yield from first
    yield from second
    yield from (["not", t] for t in second)
    # a third level over a thinned second level
    keep = second[:: 2 if tier == "thorough" else 7]
    for t in combine(keep, [a for a in first[:: 1 if tier == "thorough" else 2]]):
        yield t
        yield [t[0], t[2], t[1]]
    few = keep[:: 9]
    for t in combine(few, few):
        yield t
        yield ["not", t]


def chunks(it, n):
    it = list(it)
    return [it[i:i + n] for i in range(0, len(it), n)]


@R.scenario(lambda t: chunks(trees(SCALAR_ATOMS, t), 150))
def scalar_statements(ctx, case):
    """Statements about a plain value, for scalars and arrays of values."""
    arr = np.array(VALUES)
    out = []
    for stmt in case:
        f = build(stmt, FuzzyVariable())
        want = [truth(stmt, v) for v in VALUES]
        got = [f(v) for v in VALUES]
        check(all(-1e-12 <= g <= 1 + 1e-12 for g in got), f"{stmt}: truth values {got} leave [0, 1]")
        same(got, want, f"truth values of {stmt}", atol=1e-11)
        same(f(arr), want, f"truth values of {stmt} on an array", atol=1e-11)
        same(f(arr.reshape(1, -1)), [want], f"truth values of {stmt} on a 2d array", atol=1e-11)
        same((~f)(2.1), 1 - f(2.1), f"complement of {stmt}")
        ctx.step(len(VALUES) * 3)
        out.append(round(want[7], 6))
    return out


@R.scenario(lambda t: chunks(trees(KEYED_ATOMS, t), 150))
def keyed_statements(ctx, case):
    """Statements about entries of a point, for every container."""
    arr = np.array(ROWS)
    names = ["TWS", "BSP"]
    data = Data.from_dict({"TWS": arr[:, 0].tolist(), "BSP": arr[:, 1].tolist(), "other": ["s"] * len(ROWS)})

    def rename(s):
        return [s[0], names[s[1]], *s[2:]] if s[0] == "atom" else [s[0], *map(rename, s[1:])]

    for stmt in case:
        want = [truth(stmt, r) for r in ROWS]
        f = build(stmt, FuzzyVariable())
        same([f(r) for r in ROWS], want, f"{stmt} on lists", atol=1e-11)
        same([f(tuple(r)) for r in ROWS], want, f"{stmt} on tuples", atol=1e-11)
        same([f(r) for r in arr], want, f"{stmt} on rows", atol=1e-11)
        same(f(arr.T), want, f"{stmt} on columns", atol=1e-11)
        before = arr.copy()
        w = FuzzyWeigher(f).weigh(arr)
        same(w, want, f"weights of {stmt}", atol=1e-11)
        same(FuzzyWeigher(f).weigh(arr[::-1]), want[::-1], f"weights of {stmt}, reversed points", atol=1e-11)
        check((arr == before).all(), "weighing changed the points")
        g = build(rename(stmt), FuzzyVariable())
        same([g(dict(zip(names, r))) for r in ROWS], want, f"{stmt} on dictionaries", atol=1e-11)
        same(g({n: arr[:, i] for i, n in enumerate(names)}), want, f"{stmt} on columns by name", atol=1e-11)
        weigher = FuzzyWeigher(g)
        same(weigher.weigh(data), want, f"weights of {stmt} on data", atol=1e-11)
        same(weigher.weigh(data[[i in (0, 3) for i in range(len(ROWS))]]), [want[0], want[3]], f"weights of {stmt} on other data", atol=1e-11)
        check(data["TWS"] == arr[:, 0].tolist() and data.n_rows == len(ROWS), "weighing changed the data")
        ctx.step(8 * len(ROWS))
    return len(case)


@R.scenario([[c, a, s, d] for c in CMP for a in (-7.5, 0, 2, 11.25) for s in (None, 1, 2.5, 40) for d in (10, 3, 0.25)])
def thresholds(ctx, case):
    """One half at the threshold, monotone elsewhere, symmetric about it."""
    c, a, s, d = case
    f = build(["atom", None, c, a, s], FuzzyVariable(sharpness=d))
    same(f(a), 0.5, f"truth of x {c} {a} at the threshold")
    grid = [a + e for e in (-500, -20, -3, -1, -0.5, -0.1, 0, 0.1, 0.5, 1, 3, 20, 500)]
    got = [float(f(v)) for v in grid]
    same(got, [truth(["atom", None, c, a, s], v, d) for v in grid], f"x {c} {a}", atol=1e-10)
    if c in (">", ">="):
        check(all(p <= q for p, q in zip(got, got[1:])), f"x {c} {a} does not increase: {got}")
    elif c in ("<", "<="):
        check(all(p >= q for p, q in zip(got, got[1:])), f"x {c} {a} does not decrease: {got}")
    else:
        check(max(got) <= 0.5 + 1e-12, f"x == {a} exceeds one half: {got}")
    ctx.step(len(grid))
    return [round(g, 9) for g in got]


# ---- statements made one after the other of the same variables --------------
def var_ops(t):
    """Sequences of statements of shared variables."""
    return [
        ["x", ">", 1, None], ["x", "<", 2, 3], ["x", "==", 1.5, None], ["x", "==", 1, 2],
        ["x", "<=", 0, 0.5], ["k", ">", 1, None], ["k", "<", 2, 3], ["k", "==", 1.5, 4], ["k", "==", 2, None],
        ["n", ">=", 1, None], ["n", "<", 2.5, 5], ["m", ">", 2.5, 3], ["and"], ["or"], ["not"], ["self"], ["item"],
    ]


def start(d):
    x = FuzzyVariable(sharpness=d[0])
    k = FuzzyVariable(sharpness=d[1], key="k")
    # statements: list of (implementation, reference) where plain statements take a value
    return {"x": x, "k": k, "made": []}, {"d": d, "made": []}


POINTS = [{"k": v, 0: w, "v": v} for v in (0.0, 1.0, 1.5, 2.2) for w in (1.0, 2.5)]


def apply(impl, model, op):
    if op[0] in ("x", "k", "n", "m"):
        name, cmp, a, s = op
        d = model["d"][0 if name in "xnm" else 1]
        if name == "m":
            st = compare(impl["x"](s)[0], cmp, a)  # the sharpness given first
        else:
            var = impl["x"][0] if name == "n" else impl[name]  # a variable taken from x by item
            st = compare(var if s is None else var(s), cmp, a)
        impl["made"].append(st if name != "x" else st["v"])
        model["made"].append(["atom", {"x": "v", "k": "k", "n": 0, "m": 0}[name], cmp, a, d if s is None else s])
    elif len(impl["made"]) >= (2 if op[0] in ("and", "or") else 1):
        one, ref = impl["made"][-1], model["made"][-1]
        if op[0] == "not":
            impl["made"].append(~one)
            model["made"].append(["not", ref])
        elif op[0] == "self":
            impl["made"].append(one & ~one)
            model["made"].append(["and", ref, ["not", ref]])
        elif op[0] == "item":
            impl["made"].append((FuzzyBool(lambda v: v / 4)["v"]) | one)
            model["made"].append(["or", ["quarter"], ref])
        else:
            two, ref2 = impl["made"][-2], model["made"][-2]
            impl["made"].append(two & one if op[0] == "and" else two | one)
            model["made"].append([op[0], ref2, ref])
    return impl, model


def ref_truth(stmt, p):
    if stmt[0] == "quarter":
        return p["v"] / 4
    if stmt[0] == "atom":
        return truth(stmt, p)
    vals = [ref_truth(s, p) for s in stmt[1:]]
    return {"not": lambda v: 1 - v[0], "and": min, "or": max}[stmt[0]](vals)


def agree(impl, model):
    for st, ref in zip(impl["made"], model["made"]):
        got = [st(p) for p in POINTS]
        same(got, [ref_truth(ref, p) for p in POINTS], f"{ref} after further statements were made", atol=1e-11)


R.history("statement_histories", lambda t: [[10, 10], [2, 7], [0.5, 1], [40, 3]][: 4 if t == "thorough" else 2], var_ops,
          lambda t: 4, start, apply, agree,
          canon=lambda m: m)

R.history("longer_statement_histories", lambda t: [[10, 4]], lambda t: var_ops(t)[1:12:3] + var_ops(t)[11:],
          lambda t: 5 if t == "thorough" else 3, start, apply, agree,
          canon=lambda m: m)


@R.scenario([["list"], ["tuple"], ["dict"], ["none"]])
def refused(ctx, case):
    """Only arrays and measurement data are weighed."""
    pts = {"list": [[1.0, 2.0]], "tuple": ((1.0, 2.0),), "dict": {"TWS": [1.0]}, "none": None}[case[0]]
    raises(TypeError, lambda: FuzzyWeigher(FuzzyVariable()[0] > 1).weigh(pts), f"weighing a {case[0]}")
    return case


REPR_ATOMS = [["atom", k, c, a, None] for k in (None, 0, 1) for c, a in [("<", 2), (">=", 1.5), ("==", 3)]]


@R.scenario(lambda t: chunks([s for s in trees(REPR_ATOMS, t) if True], 200))
def printed(ctx, case):
    """The printed form of a statement denotes the statement."""
    pts = [np.array([a, b]) for a in (0.5, 1.45, 2.1, 3.2) for b in (1.0, 1.6, 3.0)]
    for stmt in case:
        f = build(stmt, FuzzyVariable())
        again = eval(str(f), {"x": FuzzyVariable()})
        for p in pts:
            same(again(p), f(p), f"statement printed as {f}")
        ctx.step()
    return len(case)


@R.scenario([[n, s] for n in (1, 99, 100, 101, 255, 256, 257, 1000, 1025, 4000) for s in range(len(REPR_ATOMS))])
def many_points(ctx, case):
    """Every row of a large array or of large data is weighed by its own truth value."""
    n, i = case
    v = np.column_stack([0.5 + 3.0 * (np.arange(n) * 37 % 1009) / 1009, 1.0 + 2.5 * (np.arange(n) * 11 % 997) / 997])
    data = Data.from_dict({"TWS": v[:, 0].tolist(), "BSP": v[:, 1].tolist()})
    a, b = REPR_ATOMS[i], REPR_ATOMS[(i + 4) % len(REPR_ATOMS)]
    for op in ("and", "or"):
        stmt = [op, ["atom", 0, *a[2:]], ["not", ["atom", 1, *b[2:]]]]
        want = [truth(stmt, r) for r in v.tolist()]
        same(FuzzyWeigher(build(stmt, FuzzyVariable())).weigh(v), want, f"weights of {n} points by {stmt}", atol=1e-11)
        named = [op, ["atom", "TWS", *a[2:]], ["not", ["atom", "BSP", *b[2:]]]]
        same(FuzzyWeigher(build(named, FuzzyVariable())).weigh(data), want, f"weights of {n} rows by {stmt}", atol=1e-11)
        ctx.step(2)


@R.scenario([[c, s, e] for c in CMP for s in (1, 10, 1e3, 1e6, 1e9) for e in (1e-1, 1e-4, 1e-7, 1e-9)])
def sharp_statements(ctx, case):
    """Sharp statements tell values next to the threshold apart; tiny thresholds count."""
    c, s, e = case
    for a in (0.0, e, -3 * e, 2.0):
        pts = [a + k * e for k in (-40, -3, -1, -0.5, 0, 0.5, 1, 3, 40)]
        f = build(["atom", None, c, a, s], FuzzyVariable())
        same([float(f(p)) for p in pts], [truth(["atom", None, c, a, s], p) for p in pts], f"x {c} {a} of sharpness {s} at {pts}", rtol=1e-9, atol=1e-12)
        g = build(["atom", "BSP", c, a, None], FuzzyVariable(sharpness=s))
        w = FuzzyWeigher(g).weigh(Data.from_dict({"BSP": list(map(float, pts))}))
        same(w, [truth(["atom", None, c, a, s], p) for p in pts], f"weights by x {c} {a} of sharpness {s}", rtol=1e-9, atol=1e-12)
        ctx.step(2)


# ------------------------------------------------------- columns of any type
COLUMNS = {
    "whole": [3, -1, 0, 2, 5],
    "flag": [True, False, True, True, False],
    "decimal": [1.5, 2.0, -4.25, 3.5, 0.0],
    "huge": [10 ** 6, -(10 ** 9), 2, 3, 10 ** 12],
    "numpy": [np.float32(x) for x in (0.5, 2.5, 1.0, -2.0, 7.0)],
    "numpy whole": [np.int16(x) for x in (5, 2, 1, -2, 700)],
}


@R.scenario([[a, b, c, d, op] for a in COLUMNS for b in COLUMNS for c in CMP for d in CMP for op in ("and", "or", "not")])
def columns_of_any_type(ctx, case):
    """Statements about whole numbers, flags and numbers of numpy types, next to columns with gaps."""
    a, b, c, d, op = case
    stmt = {"and": ["and", ["atom", a, c, 2, None], ["atom", b, d, 0.5, 3]], "or": ["or", ["atom", b, d, 1, None], ["atom", a, c, 2.5, 4]], "not": ["not", ["and", ["atom", a, c, 1, 2], ["atom", b, d, 2, None]]]}[op]
    data = Data.from_dict({"text": ["x", None, "y", "", "z"], **{k: list(v) for k, v in COLUMNS.items() if k in (a, b)}, "gaps": [None, 1.0, None, 2.0, None]})
    want = [truth(stmt, {k: float(COLUMNS[k][i]) for k in (a, b)}) for i in range(5)]
    with np.errstate(over="ignore"):
        got = FuzzyWeigher(build(stmt, FuzzyVariable())).weigh(data)
    check(np.shape(got) == (5,), f"{stmt}: weights of shape {np.shape(got)}")
    same(got, want, f"weights of {stmt}", rtol=1e-6, atol=1e-7)
    ctx.step(5)
