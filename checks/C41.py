"""C41: weighted points keep every point together with its own weight."""
import itertools

import numpy as np

from hrosailing.core.data import Data, WeightedPoints
from vf.core import Registry, check, raises

ID = "C41"
ASSUMPTIONS = ["both operands of an extension hold their points in the same kind of container (documented)"]
R = Registry()
KEYS = ("TWS", "BSP", "TWA")


def row(tag, i):
    return (float(10 * tag + i) + 0.25, float((7 * i + 3 * tag) % 5), float((50 * i + tag) % 360))


def weight(tag, i):
    return [0.0, 0.125, 1.0, 0.75][(i + tag) % 4] + tag / 64


def model(tag, n, weights="list"):
    w = {"one": lambda i: 1.0, "half": lambda i: 0.5}.get(weights, lambda i: weight(tag, i))
    return [(row(tag, i), w(i)) for i in range(n)]


def container(kind, rows, keys=KEYS):
    cols = {k: [r[KEYS.index(k)] for r in rows] for k in keys}
    if kind == "array":
        return np.array(rows, dtype=float).reshape(len(rows), 3)
    if kind == "dict":
        return cols
    data = Data()
    data.update(cols)
    return data


WEIGHTS = {
    "list": list, "tuple": tuple, "array": np.array, "float32": lambda w: np.array(w, dtype=np.float32), "view": lambda w: np.array([[x, 9.0] for x in w]).reshape(-1, 2)[:, 0],
    "one": lambda w: 1, "half": lambda w: 0.5, "numpy one": lambda w: np.float64(1),
}


def build(kind, m, weights="list", keys=KEYS):
    return WeightedPoints(container(kind, [r for r, _ in m], keys), WEIGHTS[weights]([w for _, w in m]))


def points(wp, kind, keys=KEYS):
    if kind == "array":
        check(np.ndim(wp.data) == 2 and np.shape(wp.data)[1] == 3, "points of shape %s", np.shape(wp.data))
        return [tuple(map(float, r)) for r in wp.data]
    got = wp.data if kind == "dict" else {k: wp.data[k] for k in wp.data.keys()}
    check(isinstance(wp.data, dict if kind == "dict" else Data), "points held in a %s", type(wp.data))
    check(set(got) == set(keys), "attributes %s instead of %s", list(got), keys)
    check(len({len(v) for v in got.values()}) < 2, "columns of lengths %s", [len(v) for v in got.values()])
    if kind == "Data":
        check(wp.data.n_rows == len(next(iter(got.values()), [])), "%s rows", wp.data.n_rows)
    return list(zip(*(got[k] for k in keys)))


def compare(wp, kind, m, what, keys=KEYS):
    want = [tuple(r[KEYS.index(k)] for k in keys) for r, _ in m] if kind != "array" else [r for r, _ in m]
    got = points(wp, kind, keys)
    check(got == want, "%s: points %s instead of %s", what, got, want)
    check(np.shape(wp.weights) == (len(m),) and [float(w) for w in wp.weights] == [w for _, w in m],
          "%s: weights %s instead of %s", what, wp.weights, [w for _, w in m])


# ------------------------------------------------------------- single steps
KINDS = ("array", "dict", "Data")


@R.scenario([[k, n, w] for k in KINDS for n in (0, 1, 2, 3, 5, 100, 1001, 5003) for w in WEIGHTS])
def created(ctx, case):
    """Every point has the weight given for it, a single weight is given to all."""
    kind, n, w = case
    m = model(0, n, {"one": "one", "numpy one": "one", "half": "half"}.get(w, "list"))
    wp = build(kind, m, w)
    compare(wp, kind, m, str(case))
    ctx.step()
    return len(m)


MASK_TYPES = {"list": list, "array": np.array, "numpy entries": lambda b: [np.bool_(x) for x in b]}


@R.scenario(lambda tier: [[k, n, b, t] for k in KINDS for n in range(1, 7 if tier != "thorough" else 10) for b in range(2 ** n) for t in MASK_TYPES])
def masked(ctx, case):
    """Exactly the chosen points, each with its weight; the original keeps all."""
    kind, n, bits, t = case
    m = model(1, n)
    wp = build(kind, m)
    mask = [bool(bits >> i & 1) for i in range(n)]
    got = wp[MASK_TYPES[t](mask)]
    compare(got, kind, [x for x, y in zip(m, mask) if y], str(case))
    compare(wp, kind, m, f"{case}: original")
    if any(mask):
        got.weights[0] = 99.0
        if kind == "array":
            got.data[0, 0] = 99.0
        else:
            got.data["TWS"][0] = 99.0
        compare(wp, kind, m, f"{case}: original after a change of the selection")
    ctx.step()
    return case


PATTERNS = {"all": lambda i, n: True, "none": lambda i, n: False, "last": lambda i, n: i == n - 1, "even": lambda i, n: i % 2 == 0, "but first": lambda i, n: i > 0,
            "third": lambda i, n: i % 3 == 2, "middle": lambda i, n: n // 3 < i < n - n // 3}


@R.scenario([[k, n, p, t] for k in KINDS for n in (64, 257, 1025, 2500, 5003, 10000) for p in PATTERNS for t in MASK_TYPES])
def many_masked(ctx, case):
    """The same for thousands of points."""
    kind, n, p, t = case
    m = model(1, n)
    wp = build(kind, m)
    mask = [PATTERNS[p](i, n) for i in range(n)]
    got = wp[MASK_TYPES[t](mask)]
    compare(got, kind, [x for x, y in zip(m, mask) if y], str(case))
    compare(wp, kind, m, f"{case}: original")
    ctx.step()
    return case


ORDERS = list(itertools.permutations(KEYS))


@R.scenario([[k, i, j, n, p] for k in ("dict", "Data") for i in range(6) for j in range(6) for n in (0, 1, 3) for p in (1, 2)])
def attributes_in_any_order(ctx, case):
    """Values are appended to the attribute they belong to."""
    kind, i, j, n, p = case
    a, b = model(0, n), model(2, p)
    wp, other = build(kind, a, keys=ORDERS[i]), build(kind, b, keys=ORDERS[j])
    wp.extend(other)
    compare(wp, kind, a + b, str(case))
    compare(other, kind, b, f"{case}: appended points")
    ctx.step()


SUBSETS = [list(c) for r in (1, 2, 3) for c in itertools.combinations(KEYS, r)]


@R.scenario([[i, j, n, p] for i in range(len(SUBSETS)) for j in range(len(SUBSETS)) for n in (1, 2) for p in (1, 3)])
def attributes_of_one_side(ctx, case):
    """A dictionary keeps the attributes both have; a table keeps all, unknown ones are missing."""
    i, j, n, p = case
    ka, kb = SUBSETS[i], SUBSETS[j]
    a, b = model(0, n), model(2, p)
    common = [k for k in ka if k in kb]
    wp, other = build("dict", a, keys=ka), build("dict", b, keys=kb)
    wp.extend(other)
    if common:
        compare(wp, "dict", a + b, f"{case} dict", common)
    else:
        check(wp.data == {} and len(wp.weights) == n + p, "%s: %s", case, wp.data)
    compare(other, "dict", b, f"{case}: appended dict", kb)
    wp, other = build("Data", a, keys=ka), build("Data", b, keys=kb)
    wp.extend(other)
    both = list(dict.fromkeys(ka + kb))
    want = {k: [r[KEYS.index(k)] if k in ka else None for r, _ in a] + [r[KEYS.index(k)] if k in kb else None for r, _ in b] for k in both}
    got = {k: wp.data[k] for k in wp.data.keys()}
    check(got == want, "%s: table %s instead of %s", case, got, want)
    check([float(x) for x in wp.weights] == [w for _, w in a + b], "%s: weights %s", case, wp.weights)
    compare(other, "Data", b, f"{case}: appended table", kb)
    ctx.step(2)
    return got


MIXED = {
    "text": ["a", "bb", "", "c", "dddd"],
    "gaps": [1.5, None, -2.0, None, 0.0],
    "flags": [True, False, True, True, False],
    "whole": [3, 0, -7, 2 ** 53, 12],
}


@R.scenario([[k, a, b, bits] for k in ("dict", "Data") for a in MIXED for b in MIXED if a != b for bits in range(32)])
def any_entries(ctx, case):
    """Entries of every type keep their values and their weights in a selection."""
    kind, a, b, bits = case
    mask = [bool(bits >> i & 1) for i in range(5)]
    cols = {a: list(MIXED[a]), b: list(MIXED[b])}
    data = cols
    if kind == "Data":
        data = Data()
        data.update(cols)
    wp = WeightedPoints(data, [weight(0, i) for i in range(5)])
    got = wp[np.array(mask)]
    for k in (a, b):
        want = [x for x, y in zip(MIXED[k], mask) if y]
        check(list(got.data[k]) == want, "%s: %s is %s instead of %s", case, k, got.data[k], want)
    check([float(x) for x in got.weights] == [weight(0, i) for i in range(5) if mask[i]], "%s: weights %s", case, got.weights)
    ctx.step()


# --------------------------------------------------------------- histories
def masks_of(n):
    return {"drop first": [i > 0 for i in range(n)], "keep even": [i % 2 == 0 for i in range(n)],
            "none": [False] * n, "all": [True] * n, "drop last": [i < n - 1 for i in range(n)]}


OPS = ["drop first", "keep even", "none", "all", "drop last", "add 1", "add 2", "add 0", "add itself", "add to another"]


@R.scenario(lambda tier: [[k, n, list(o)] for k in KINDS for n in (0, 1, 2, 5)
                          for d in range(1, 5 if tier != "thorough" else 6) for o in itertools.product(OPS, repeat=d)])
def histories(ctx, case):
    """Every sequence of selections and extensions."""
    kind, n, ops = case
    m = model(0, n)
    wp = build(kind, m)
    kept = [(wp, list(m))]
    for t, op in enumerate(ops):
        if op in ("add 0", "add 1", "add 2"):
            b = model(t + 1, int(op[-1]))
            other = build(kind, b, ("list", "array", "tuple")[t % 3])
            kept = [x for x in kept if x[0] is not wp]
            wp.extend(other)
            m = m + b
            kept.append((other, b))
        elif op == "add itself":
            if len(m) > 20:
                return None
            kept = [x for x in kept if x[0] is not wp]
            wp.extend(wp)
            m = m + m
        elif op == "add to another":
            b = model(t + 7, 2)
            other = build(kind, b)
            other.extend(wp)
            kept.append((wp, m))
            wp, m = other, b + m
        else:
            mask = masks_of(len(m))[op]
            kept.append((wp, m))
            wp = wp[np.array(mask, dtype=bool)]
            m = [x for x, y in zip(m, mask) if y]
        compare(wp, kind, m, f"{case} after step {t}")
        for other, b in kept:
            if other is not wp:
                compare(other, kind, b, f"{case}: other points after step {t}")
        ctx.step()
    ctx.state(kind, len(m), tuple(w for _, w in m))
    return len(m)
