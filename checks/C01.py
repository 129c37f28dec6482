"""C01: measurement data behaves as a table of equally long columns.

Breadth-first search over operation histories of the real Data container, in
lock-step with a plain dict-of-lists model; every public observation is
compared after every operation.
"""
import copy
import itertools

import numpy as np

from hrosailing.core.data import Data, WeightedPoints
from vf.core import Registry, check, fail, raises, same

ID = "C01"
ASSUMPTIONS = [
    "column order is unspecified; row iteration must follow keys()",
    "the row count of a table without any column is unspecified",
    "the type reported for a column holding only None is unspecified",
]
R = Registry()

INITS = [
    {},
    {"a": [1.0, 2.0, 3.0]},
    {"a": [1.0, None], "b": ["x", "y"]},
    {"a": [None, 5.0, None, 7.0], "b": [1, None, 3, 4], "c": [None] * 4},
    {"a": [float(i) for i in range(13)], "n": [None] * 13},
    {"a": [None, None], "b": [None, None]},
]

OPS = [
    ["update", {"a": [4.0]}, False],
    ["update", {"a": 4.5, "b": "z"}, False],
    ["update", {"b": ["u", "v"], "c": [1, 2, 3]}, False],
    ["update", {"c": None}, False],
    ["update", {"d": [True]}, True],
    ["update", {"a": [9.0, 8.0]}, True],
    ["update", {}, False],
    ["updateData", {"a": [6.0, None], "e": [None, "q"]}, False],
    ["extendfill", "a", [7.0, 8.0]],
    ["extendfill", "f", [1.0]],
    ["appendfill", "b", "w"],
    ["appendfill", "g", 2],
    ["fill", 3],
    ["fillkeys", 2, ["h"]],
    ["rename", "a", "z"],
    ["rename", "b", "a"],
    ["rename", "b", "b"],
    ["deletecol", "a"],
    ["deletecols", ["b", "c"]],
    ["deleterow", 0],
    ["deleterows", [0, 1]],
    ["deleterows", [1, 1, 0]],
    ["deleterows", []],
    ["striprows"],
    ["stripcols"],
    ["stripall"],
    ["filter", ["float"]],
    ["filter", ["str", "None"]],
    ["slice", ["a", "b", "nope"]],
    ["mask", "even"],
    ["mask", "first"],
    ["concat"],
    ["self", ],
]

TYPES = {"float": float, "str": str, "int": int, "bool": bool, "None": type(None)}


def typ(col):
    for v in col:
        if v is not None:
            return type(v)
    return None


def consistent(col):
    return len({type(v) for v in col if v is not None}) <= 1


class Model:
    def __init__(self, cols=None, n=0):
        self.cols = {k: list(v) for k, v in (cols or {}).items()}
        self.n = n

    def fill(self, n=None, keys=None):
        n = self.n if n is None else n
        for k in list(self.cols) if keys is None else keys:
            c = self.cols.setdefault(k, [])
            c += [None] * max(0, n - len(c))
        self.n = max([self.n] + [len(c) for c in self.cols.values()])


def make(d):
    impl = Data()
    impl.update({k: list(v) for k, v in d.items()})
    m = Model(d)
    m.fill(0)
    m.fill()
    return impl, m


def model_update(m, dct, compress):
    m.fill(m.n, list(dct) + list(m.cols))
    if compress and m.n > 0 and all(m.cols[k][-1] is None for k in dct):
        for k in dct:
            m.cols[k].pop()
    for k, v in dct.items():
        m.cols[k] = m.cols[k] + (list(v) if isinstance(v, list) else [v])
    m.n = max([m.n] + [len(c) for c in m.cols.values()])
    m.fill()


def legal_update(m, dct):
    for k, v in dct.items():
        v = v if isinstance(v, list) else [v]
        if not consistent(m.cols.get(k, []) + v):
            return False
    return True


def apply(impl, m, op):
    kind = op[0]
    if not m.cols:
        impl, m = make({})
    if kind in ("extendfill", "appendfill", "filter"):
        impl.fill()  # the type of a column holding only None is settled by fill
    if kind in ("update", "updateData"):
        dct = {k: (list(v) if isinstance(v, list) else v) for k, v in op[1].items()}
        if not legal_update(m, dct):
            raises(ValueError, lambda: impl.update(dct, op[2]), f"{op} mixes types")
            check(impl.data == m.cols, "the refused %s left %s, expected %s", op, impl.data, m.cols)
            return impl, m
        src = dct
        if kind == "updateData":
            src = Data.from_dict(dct)
            n_src = src.n_rows
        impl.update(src, op[2])
        if kind == "updateData":
            check(src.n_rows == n_src and src.data == dct,
                  "updating changed the source table")
            # the source stays independent of the target
            src.update({"a": [100.0]})
        model_update(m, dct, op[2])
        dct.setdefault("a", [])
        if isinstance(dct["a"], list):
            dct["a"].append(-1.0)  # caller goes on using its own list
    elif kind == "extendfill":
        vals = list(op[2])
        if not consistent(m.cols.get(op[1], []) + vals):
            raises(ValueError, lambda: impl.extend(op[1], vals), f"{op} mixes types")
        else:
            impl.extend(op[1], vals)
            impl.fill()
            m.cols[op[1]] = m.cols.get(op[1], []) + vals
            m.n = max(m.n, len(m.cols[op[1]]))
            m.fill()
            vals.append("caller")
    elif kind == "appendfill":
        if not consistent(m.cols.get(op[1], []) + [op[2]]):
            raises(ValueError, lambda: impl.append(op[1], op[2]), f"{op} mixes types")
        else:
            impl.append(op[1], op[2])
            impl.fill()
            m.cols[op[1]] = m.cols.get(op[1], []) + [op[2]]
            m.n = max(m.n, len(m.cols[op[1]]))
            m.fill()
    elif kind == "fill":
        impl.fill(op[1])
        m.fill(op[1])
        impl.fill()
        m.fill()
    elif kind == "fillkeys":
        impl.fill(op[1], op[2])
        m.fill(op[1], op[2])
        impl.fill()
        m.fill()
    elif kind == "rename":
        if op[1] == op[2]:
            impl.rename(op[1], op[2])
        elif op[1] in m.cols and op[2] in m.cols:
            raises(ValueError, lambda: impl.rename(op[1], op[2]), f"{op} onto existing")
        elif op[1] in m.cols:
            impl.rename(op[1], op[2])
            m.cols[op[2]] = m.cols.pop(op[1])
    elif kind == "deletecol":
        if op[1] in m.cols:
            impl.delete(op[1])
            del m.cols[op[1]]
    elif kind == "deletecols":
        if all(k in m.cols for k in op[1]):
            impl.delete(list(op[1]))
            for k in op[1]:
                del m.cols[k]
    elif kind in ("deleterow", "deleterows"):
        idx = {op[1]} if kind == "deleterow" else set(op[1])
        if m.cols and all(i < m.n for i in idx):
            impl.delete(op[1] if kind == "deleterow" else list(op[1]))
            m.cols = {k: [v for i, v in enumerate(c) if i not in idx]
                      for k, c in m.cols.items()}
            m.n -= len(idx)
    elif kind in ("striprows", "stripcols", "stripall"):
        impl.strip(kind[5:]) if kind != "stripall" else impl.strip()
        if kind != "striprows":
            m.cols = {k: c for k, c in m.cols.items()
                      if any(v is not None for v in c)}
        if kind != "stripcols":
            full = [i for i in range(m.n)
                    if any(c[i] is not None for c in m.cols.values())] if m.cols else []
            lo, hi = (full[0], full[-1] + 1) if full else (0, 0)
            m.cols = {k: c[lo:hi] for k, c in m.cols.items()}
            m.n = hi - lo
    elif kind == "filter":
        types = [TYPES[t] if t != "None" else None for t in op[1]]
        impl.filter_types(types)
        m.cols = {k: c for k, c in m.cols.items() if typ(c) in types}
    elif kind == "slice":
        new = impl.get_slice(op[1]) if m.n % 2 else impl[op[1]]
        old = impl
        before = {k: list(v) for k, v in old.data.items()}
        m = Model({k: c for k, c in m.cols.items() if k in op[1]}, m.n)
        impl = new
        # working on the slice must not change the table it was taken from
        probe = old.get_slice(op[1])
        for k in probe.keys():
            probe.append(k, None)
        check({k: list(v) for k, v in old.data.items()} == before,
              "changing a slice changed the original table")
    elif kind == "mask":
        mask = [(i % 2 == 0) if op[1] == "even" else (i == 0) for i in range(m.n)]
        if m.cols and m.n:
            old, before = impl, {k: list(v) for k, v in impl.data.items()}
            impl = impl[np.array(mask)] if op[1] == "even" else impl[mask]
            check(old.data == before and old.n_rows == m.n,
                  "masking changed the original table")
            m = Model({k: [v for v, keep in zip(c, mask) if keep]
                       for k, c in m.cols.items()}, sum(mask))
    elif kind == "concat":
        other = {"a": [11.0], "k": ["new"]}
        if legal_update(m, other):
            o = Data.from_dict(other)
            n_before, o_before = impl.n_rows, o.data
            new = Data.concatenate([impl, o, impl])
            check(impl.n_rows == n_before and o.data == o_before and o.n_rows == 1,
                  "concatenating changed its inputs")
            cols, n = m.cols, m.n
            mm = Model()
            model_update(mm, {k: list(v) for k, v in cols.items()}, False)
            model_update(mm, other, False)
            model_update(mm, {k: list(v) for k, v in cols.items()}, False)
            impl, m = new, mm
    elif kind == "self":
        impl = impl.get_slice(list(impl.keys()))
    else:
        raise AssertionError(kind)
    return impl, m


def compare(impl, m):
    keys = impl.keys()
    check(sorted(keys) == sorted(m.cols), "columns are %s, expected %s", keys, list(m.cols))
    check(len(set(keys)) == len(keys) == impl.n_cols, "column count inconsistent")
    if not m.cols:
        return
    check(impl.n_rows == m.n, "row count is %s, expected %s", impl.n_rows, m.n)
    for k in keys:
        check(impl[k] == m.cols[k] and [type(v) for v in impl[k]] ==
              [type(v) for v in m.cols[k]],
              "column %s is %s, expected %s", k, impl[k], m.cols[k])
        check(typ(m.cols[k]) is None or impl.type(k) is typ(m.cols[k]), "type of column %s is %s, expected %s",
              k, impl.type(k), typ(m.cols[k]))
        check(k in impl, "column %s not reported as contained", k)
    check("not there" not in impl, "unknown column reported as contained")
    check(impl.data == m.cols, "data attribute differs")
    rows = [{k: m.cols[k][i] for k in m.cols} for i in range(m.n)]
    check(list(impl) == rows, "iteration yields %s, expected %s", list(impl), rows)
    check(list(impl.rows()) == rows, "rows() differs from the table")
    for i in range(-m.n, m.n):
        check(impl[i] == rows[i], "row %s is %s, expected %s", i, impl[i], rows[i])
    check(list(impl.rows(return_type=tuple)) ==
          [tuple(r[k] for k in keys) for r in rows], "tuple rows differ")
    check(list(impl.rows(return_type=list)) == [[r[k] for k in keys] for r in rows],
          "list rows differ")
    for sub in (list(reversed(keys)), keys[:1], keys[1:]):
        check(list(impl.rows(keys=sub, return_type=list)) ==
              [[r[k] for k in sub] for r in rows], "list rows of %s differ", sub)
        check(list(impl.rows(keys=sub)) == [{k: r[k] for k in sub} for r in rows],
              "dict rows of %s differ", sub)
    full = [k for k in keys if typ(m.cols[k]) is not None]
    for t in (float, str, int, bool):
        ks, vals = impl.get_by_type(t)
        check(vals == [m.cols[k] for k in ks], "values of type %s misaligned", t)
        ks = [k for k in ks if k in full]
        check(sorted(ks) == sorted(k for k in keys if typ(m.cols[k]) is t),
              "columns of type %s are %s", t, ks)
    fk, arr = impl.numerical
    check(sorted(k for k in fk if k in full) ==
          sorted(k for k in keys if typ(m.cols[k]) is float),
          "numerical columns are %s", fk)
    if fk:
        want = np.array([[np.nan if m.cols[k][i] is None else m.cols[k][i] for k in fk]
                         for i in range(m.n)], dtype=float).reshape(m.n, len(fk))
        got = np.array(arr, dtype=float)
        check(got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
              "numerical array is %s, expected %s", got, want)
    s = str(impl)
    for k in keys:
        check(f"'{k}'" in s, "column %s missing in the string form", k)


R.history(
    "table_histories", lambda tier: INITS, lambda tier: OPS,
    lambda tier: 4 if tier == "thorough" else 3,
    make, apply, compare, canon=lambda m: [m.cols, m.n],
)

CHAIN_OPS = [OPS[i] for i in (1, 2, 5, 7, 8, 12, 14, 17, 19, 21, 23, 24, 28, 29, 31)]

R.history(
    "table_deep_histories", lambda tier: INITS[2:5] if tier != "thorough" else INITS,
    lambda tier: CHAIN_OPS, lambda tier: 5 if tier == "thorough" else 4,
    make, apply, compare, canon=lambda m: [m.cols, m.n],
)


# ------------------------------------------------------------ masks and rows
def mask_cases(tier):
    top = 8 if tier == "thorough" else 6
    for n in range(1, top + 1):
        for bits in itertools.product([0, 1], repeat=n):
            yield [n, list(bits)]


@R.scenario(mask_cases)
def every_mask_and_row_deletion(ctx, case):
    """Every boolean mask / every set of deleted rows of small tables."""
    n, bits = case
    cols = {"a": [float(i) for i in range(n)],
            "b": [None if i % 3 == 1 else f"s{i}" for i in range(n)]}
    for conv in (list, np.array, tuple):
        d = Data.from_dict({k: list(v) for k, v in cols.items()})
        out = d[conv([bool(b) for b in bits])]
        ctx.step()
        want = {k: [v for v, b in zip(c, bits) if b] for k, c in cols.items()}
        check(out.data == want, "mask %s gave %s", bits, out.data)
        check(out.n_rows == sum(bits), "mask %s: row count %s", bits, out.n_rows)
        check(list(out) == [dict(a=a, b=b) for a, b in zip(want["a"], want["b"])],
              "rows after the mask differ")
    d = Data.from_dict({k: list(v) for k, v in cols.items()})
    gone = [i for i, b in enumerate(bits) if not b]
    for order in (gone, gone[::-1], gone + gone):
        d = Data.from_dict({k: list(v) for k, v in cols.items()})
        d.delete(list(order))
        ctx.step()
        check(d.data == want and d.n_rows == sum(bits), "deleting rows %s gave %s (%s rows)",
              order, d.data, d.n_rows)


# ---------------------------------------------------------------- strip rows
def strip_cases(tier):
    n = 6 if tier == "thorough" else 5
    for bits in itertools.product([0, 1], repeat=n):
        for bits2 in itertools.product([0, 1], repeat=n):
            yield [list(bits), list(bits2)]


@R.scenario(strip_cases)
def every_none_pattern_stripped(ctx, case):
    """Every None pattern of two columns under every strip mode."""
    cols = {"a": [float(i) if b else None for i, b in enumerate(case[0])],
            "b": [i if b else None for i, b in enumerate(case[1])]}
    for mode in ("striprows", "stripcols", "stripall"):
        impl, m = make(cols)
        impl, m = apply(impl, m, [mode])
        ctx.step()
        compare(impl, m)
        if m.cols:
            op = ["appendfill", "new", 1.5]
            impl, m = apply(impl, m, op)
            compare(impl, m)
            ctx.state(m.cols)


# ----------------------------------------------------------- weighted points
def wp_cases(tier):
    for kind in ("array", "data", "dict"):
        for n in range(1, 5):
            for bits in itertools.product([0, 1], repeat=n):
                yield [kind, n, list(bits)]


def _points(kind, n, off=0):
    cols = {"x": [float(i + off) for i in range(n)],
            "y": [10.0 * (i + off) for i in range(n)]}
    if kind == "array":
        return np.column_stack([cols["x"], cols["y"]])
    return Data.from_dict(cols) if kind == "data" else cols


def _rows(kind, pts):
    if kind == "array":
        return [list(map(float, r)) for r in np.asarray(pts.data)]
    return [[float(x), float(y)] for x, y in zip(pts.data["x"], pts.data["y"])]


@R.scenario(wp_cases)
def weighted_points_keep_points_and_weights_paired(ctx, case):
    """Masking and extending never separate a point from its weight."""
    kind, n, bits = case
    w = [0.5 + i for i in range(n)]
    wp = WeightedPoints(_points(kind, n), np.array(w))
    mask = np.array([bool(b) for b in bits])
    sub = wp[mask]
    ctx.step()
    want = [[float(i), 10.0 * i] for i in range(n) if bits[i]]
    check(_rows(kind, sub) == want, "masked points are %s", _rows(kind, sub))
    check(list(sub.weights) == [w[i] for i in range(n) if bits[i]], "masked weights %s", sub.weights)
    check(_rows(kind, wp) == [[float(i), 10.0 * i] for i in range(n)], "mask changed the original")
    other = WeightedPoints(_points(kind, 2, 50), np.array([7.0, 8.0]))
    wp.extend(other)
    ctx.step()
    check(_rows(kind, wp) == [[float(i), 10.0 * i] for i in range(n)] +
          [[50.0, 500.0], [51.0, 510.0]], "extended points are %s", _rows(kind, wp))
    check(list(wp.weights) == w + [7.0, 8.0], "extended weights are %s", wp.weights)
    check(list(other.weights) == [7.0, 8.0] and
          _rows(kind, other) == [[50.0, 500.0], [51.0, 510.0]], "extending changed its argument")
    if kind != "data":
        sc = WeightedPoints(_points(kind, n), 2)
        check(list(sc.weights) == [2.0] * n, "scalar weight gave %s", sc.weights)


# ------------------------------------------------------- derived tables
SOURCE = {"Wind speed": [6.0, None, 8.0], "b": ["x", None, "z"], "n": [None, 1, 2], "e": [None] * 3}
DERIVED = {
    "mask of lists": lambda d: d[[True] * d.n_rows], "mask of arrays": lambda d: d[np.ones(d.n_rows, dtype=bool)],
    "mask of tuples": lambda d: d[(True,) * d.n_rows], "some rows": lambda d: d[[i != 1 for i in range(d.n_rows)]],
    "first row": lambda d: d[np.arange(d.n_rows) == 0], "no rows": lambda d: d[[False] * d.n_rows],
    "slice": lambda d: d.get_slice(list(d.keys())), "keys": lambda d: d[list(d.keys())], "key set": lambda d: d.get_slice(set(d.keys())),
    "mask of slice": lambda d: d[list(d.keys())][[True] * d.n_rows],
    "concatenated": lambda d: Data.concatenate([d]), "two concatenated": lambda d: Data.concatenate([Data(), d]),
    "from dict": lambda d: Data.from_dict(d.data), "updated": lambda d: _updated(d),
}
CHANGES = {
    "update": lambda d: d.update({"b": ["new"], "q": [True]}), "compress": lambda d: d.update({"e": ["new"]}, True),
    "extend": lambda d: (d.extend("b", ["a", "c"]), d.fill()), "append": lambda d: (d.append("f", 2.0), d.fill()),
    "typed": lambda d: (d.extend("e", [4.0]), d.fill()), "fill": lambda d: d.fill(7), "new key": lambda d: d.fill(None, ["h"]),
    "rename": lambda d: d.rename("b", "y"), "swap": lambda d: (d.rename("b", "y"), d.rename("n", "b"), d.rename("y", "n")),
    "delete": lambda d: d.delete("b"), "delete all": lambda d: d.delete(["b", "n", "e", "Wind speed"]),
    "replace": lambda d: (d.delete("b"), d.update({"b": [5]})), "rows": lambda d: d.n_rows and d.delete([0]),
    "strip": lambda d: d.strip(), "strip rows": lambda d: d.strip("rows"), "strip columns": lambda d: d.strip("cols"),
    "filter": lambda d: d.filter_types([float]), "standard": lambda d: d.hrosailing_standard_format(),
}


def _updated(d):
    new = Data()
    new.update(d)
    return new


def _table(d):
    types = {k: d.type(k) for k in d.keys()}
    return d.data, list(d.keys()), types, d.n_rows, d.n_cols, list(d), [d.get_by_type(t) for t in (float, str, int, bool)], str(d)


@R.scenario([[a, b, first] for a in DERIVED for b in CHANGES for first in (0, 1)])
def derived_tables_are_independent(ctx, case):
    """Tables made from another one: a change of one of them is not seen in the other."""
    how, change, first = case
    d = Data.from_dict({k: list(v) for k, v in SOURCE.items()})
    d.fill()
    new = DERIVED[how](d)
    new.fill()
    if how != "no rows" and len(new.keys()) == 4:
        want = {k: [v for i, v in enumerate(c) if how != "some rows" or i != 1][:1 if how == "first row" else None] for k, c in SOURCE.items()}
        check(new.data == want, "%s: %s instead of %s", how, new.data, want)
    changed, kept = (d, new) if first else (new, d)
    before = copy.deepcopy(_table(kept))
    CHANGES[change](changed)
    ctx.step()
    check(_table(kept) == before, "%s, %s: the other table is now %s instead of %s", how, change, _table(kept), before)
    kept.update({"b": ["later"]})
    kept.fill()
    check(kept.n_rows == before[3] + 1 and kept["b"][-1] == "later", "%s, %s: %s after a further row", how, change, kept.data)


# --------------------------------------------------------------- many rows
@R.scenario(lambda tier: [[n, k, op] for n in (20, 40, 130, 300, 1100) for k in range(6) for op in ("delete", "mask", "strip", "extend")])
def many_rows(ctx, case):
    """Tables with up to a thousand rows, selections of many rows in any order."""
    n, k, op = case
    cols = {"a": [float(i) for i in range(n)], "b": [None if i % 3 == 1 else f"s{i}" for i in range(n)], "c": [i if n // 3 < i < 2 * n // 3 else None for i in range(n)]}
    gone = {
        0: [i for i in range(n) if i % 2], 1: [i for i in range(n) if i % 3 != 1][::-1], 2: list(range(n // 4, n // 2)),
        3: [(i * 7) % n for i in range(n // 2)], 4: [0, n - 1] + [n // 2] * 30, 5: list(range(n)),
    }[k]
    impl, m = make(cols)
    if op == "delete":
        impl, m = apply(impl, m, ["deleterows", gone])
    elif op == "mask":
        mask = [i in set(gone) for i in range(n)]
        impl = impl[[mask, np.array(mask), tuple(mask)][k % 3]]
        m = Model({c: [v for v, b in zip(col, mask) if b] for c, col in cols.items()}, sum(mask))
    elif op == "strip":
        lo, hi = gone[0], max(gone)
        cut = {c: [v if c != "a" and lo < i < hi - k else None for i, v in enumerate(col)] for c, col in cols.items()}
        impl, m = make(cut)
        impl, m = apply(impl, m, [["striprows", "stripcols", "stripall"][k % 3]])
    else:
        impl, m = apply(impl, m, ["update", {"a": [float(i) for i in gone], "z": [f"{i}" for i in gone[:k * 40 + 1]]}, bool(k % 2)])
        impl, m = apply(impl, m, ["concat"]) if k < 3 else apply(impl, m, ["update", {"a": 1.0, "d": "x"}, True])
    ctx.step()
    compare(impl, m)


@R.scenario([[kind, n, k] for kind in ("array", "data", "dict") for n in (20, 130, 300, 1100) for k in range(4)])
def many_weighted_points(ctx, case):
    """Masking and extending long weighted points."""
    kind, n, k = case
    w = [((i * 37) % 101) / 101 for i in range(n)]
    wp = WeightedPoints(_points(kind, n), np.array(w))
    mask = np.array([bool((i * (k + 1)) % 3) if k else i > n // 2 for i in range(n)])
    sub = wp[mask]
    ctx.step()
    check(_rows(kind, sub) == [[float(i), 10.0 * i] for i in range(n) if mask[i]], "masked points differ")
    check(list(sub.weights) == [x for x, b in zip(w, mask) if b], "masked weights differ")
    wp.extend(WeightedPoints(_points(kind, 3 * n, 50), np.array(w * 3)))
    check(_rows(kind, wp) == [[float(i), 10.0 * i] for i in [*range(n), *range(50, 50 + 3 * n)]], "extended points differ")
    check(list(wp.weights) == w * 4, "extended weights differ")
