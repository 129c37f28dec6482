"""C18: imputation fills gaps by the rule and touches nothing else."""
import itertools
from datetime import datetime, timedelta

from hrosailing.core.data import Data
from hrosailing.processing import FillLocalImputator, RemoveOnlyImputator
from vf.core import Registry, check, fail, raises

ID = "C18"
ASSUMPTIONS = [
    "time stamps are recorded in chronological order, at least one is recorded",
    "no recorded time difference equals the limit for close points exactly",
    "the relative position passed to fill_before may be measured from either end",
]
R = Registry()

T0 = datetime(2023, 3, 13, 8)
LIMIT = 120.0
SMALL, LARGE = 50.0, 300.0


def times(gaps, start=T0):
    out = [start]
    for g in gaps:
        out.append(out[-1] + timedelta(seconds=g))
    return out


def mark(*args):
    return "/".join(f"{a:.6f}" if isinstance(a, float) else str(a) for a in args)


class Fill:
    """Fill functions telling what they were asked."""

    @staticmethod
    def before(name, right, mu):
        return mark("before", name, right, float(mu))

    @staticmethod
    def between(name, left, right, mu):
        return mark("between", name, left, right, float(mu))

    @staticmethod
    def after(name, left, mu):
        return mark("after", name, left, float(mu))


def expect(cols, limit, fill):
    """Reference imputation; returns columns (sets of accepted values) and statistics."""
    cols = {k: list(v) for k, v in cols.items()}
    empty = [k for k, v in cols.items() if all(x is None for x in v)]
    for k in empty:
        del cols[k]
    ts = cols["datetime"]
    n = len(ts)
    known = [i for i in range(n) if ts[i] is not None]
    full = list(ts)
    for a, b in zip(known, known[1:]):
        if (ts[b] - ts[a]).total_seconds() <= limit:
            for j in range(a + 1, b):
                full[j] = ts[a] + (ts[b] - ts[a]) * (j - a) / (b - a)
    rows = [i for i in range(n) if full[i] is not None]
    sec = {i: (full[i] - T0).total_seconds() for i in rows}
    filled = 0
    out = {"datetime": {i: {full[i]} for i in rows}}
    for k, v in cols.items():
        if k == "datetime":
            continue
        out[k] = {}
        rec = [i for i in rows if v[i] is not None]
        for i in rows:
            if v[i] is not None:
                out[k][i] = {v[i]}
                continue
            left = [j for j in rec if j < i and sec[i] - sec[j] < limit]
            right = [j for j in rec if j > i and sec[j] - sec[i] < limit]
            if not left and not right:
                out[k][i] = None
                continue
            filled += 1
            if not left:
                j = right[0]
                mu = (sec[j] - sec[i]) / limit
                out[k][i] = {fill.before(k, v[j], mu), fill.before(k, v[j], 1 - mu)}
            elif not right or sec[right[0]] - sec[left[-1]] > limit:
                j = left[-1]
                out[k][i] = {fill.after(k, v[j], (sec[i] - sec[j]) / limit)}
            else:
                a, b = left[-1], right[0]
                mus = [(sec[i] - sec[a]) / (sec[b] - sec[a])] if sec[a] != sec[b] else [0.0, 0.5, 1.0]
                out[k][i] = {fill.between(k, v[a], v[b], mu) for mu in mus}
    keep = [i for i in rows if all(c[i] is not None for c in out.values())]
    result = {k: [out[k][i] for i in keep] for k in cols}
    return result, dict(n_removed_cols=len(empty), n_removed_rows=n - len(keep), n_filled_fields=filled, n_rows=len(keep), n_cols=len(cols))


def compare(imp, res, want, stats, what):
    check(isinstance(res, Data), "result is %s", type(res))
    check(sorted(res.keys()) == sorted(want), "%s: columns %s instead of %s", what, res.keys(), list(want))
    for k, col in want.items():
        got = list(res[k])
        ok = len(got) == len(col) and all(g in w if not isinstance(g, datetime) else abs(g - next(iter(w))) < timedelta(milliseconds=1) for g, w in zip(got, col))
        check(ok, "%s: column %s is %s instead of %s", what, k, got, col)
    check(res.n_rows == stats["n_rows"], "%s: %s rows reported instead of %s", what, res.n_rows, stats["n_rows"])
    check(not any(x is None for row in res.rows(return_type=list) for x in row), "%s: missing values remain", what)
    got = imp.get_latest_statistics()
    for k, v in stats.items():
        check(got[k] == v, "%s: statistics %s = %s instead of %s", what, k, got[k], v)


class Default:
    before = staticmethod(lambda name, right, mu: right)
    between = staticmethod(lambda name, left, right, mu: left)
    after = staticmethod(lambda name, left, mu: left)


def table(n, tmask, gaps, masks):
    ts = times(gaps)[:n]
    cols = {"datetime": [t if m else None for t, m in zip(ts, tmask)]}
    for name, mask in zip(("TWS", "label"), masks):
        vals = [float(10 + i) for i in range(n)] if name == "TWS" else [f"v{i}" for i in range(n)]
        cols[name] = [v if m else None for v, m in zip(vals, mask)]
    return cols


def bits(n):
    return list(itertools.product((1, 0), repeat=n))


@R.scenario(lambda tier: [(n, list(t), list(g)) for n in range(1, 6 if tier == "thorough" else 5) for t in bits(n) if any(t) for g in itertools.product((SMALL, LARGE, 10.0, 0.0), repeat=n - 1) if g.count(10.0) <= 1 and (0.0 not in g or g.count(10.0) == 0)])
def patterns(ctx, case):
    """Every missing pattern of time stamps and two columns with small and large gaps."""
    n, tmask, gaps = case
    imp = FillLocalImputator(Fill.before, Fill.between, Fill.after, timedelta(seconds=LIMIT))
    for a in bits(n):
        for b in bits(n):
            if n >= 4 and sum(a) + sum(b) not in (n - 1, n, n + 1, n + 2, 2 * n, 2 * n - 1):
                continue
            cols = table(n, tmask, gaps, (a, b))
            want, stats = expect(cols, LIMIT, Fill)
            res = imp.impute(Data.from_dict(cols))
            ctx.step()
            compare(imp, res, want, stats, f"{cols}")


@R.scenario(lambda tier: [(list(t), list(a)) for n in (6,) for t in bits(n) if t[0] and t[-1] for a in bits(n)])
def longer(ctx, case):
    """One column of six rows, default and explicit parameters, different gaps."""
    tmask, a = case
    for gaps, limit in (([30.0] * 5, 120.0), ([30.0, 45.0, 200.0, 10.0, 70.0], 120.0), ([70.0] * 5, 120.0), ([70.0, 20.0, 70.0, 80.0, 5.0], 100.5)):
        cols = table(6, tmask, gaps, (a,))
        cols["note"] = ["n"] * 6
        want, stats = expect(cols, limit, Default)
        kw = {} if limit == 120.0 else {"max_time_diff": timedelta(seconds=limit)}
        imp = FillLocalImputator(**kw)
        res = imp.impute(Data.from_dict(cols))
        ctx.step()
        compare(imp, res, want, stats, f"{cols}")
        lin = lambda name, left, right, mu: left + mu * (right - left)
        imp = FillLocalImputator(fill_between=lin, **kw)
        res = imp.impute(Data.from_dict(cols))
        if "TWS" in res and any(a):
            rec = [v for v in cols["TWS"] if v is not None]
            check(all(min(rec) <= v <= max(rec) for v in res["TWS"]), "filled values %s outside of the recorded ones", res["TWS"])
            check(res["TWS"] == sorted(res["TWS"]), "affinely filled increasing values are %s", res["TWS"])


SAMPLES = [
    ([1, 1, 1], [SMALL, SMALL], ([1, 0, 1], [0, 1, 1])),
    ([1, 0, 1], [SMALL, SMALL], ([1, 1, 1], [1, 0, 0])),
    ([1, 0, 1], [LARGE, LARGE], ([1, 1, 0], [1, 1, 1])),
    ([1, 1], [LARGE], ([0, 1], [0, 0])),
    ([1, 1, 1, 1], [SMALL, SMALL, SMALL], ([1, 0, 0, 1], [0, 0, 0, 0])),
]


@R.scenario([list(s) for n in (2, 3) for s in itertools.product(range(len(SAMPLES)), repeat=n)])
def reuse(ctx, case):
    """One imputator used for several tables."""
    for imp, fill, limit in ((FillLocalImputator(Fill.before, Fill.between, Fill.after), Fill, LIMIT), (FillLocalImputator(), Default, LIMIT)):
        for i in case:
            t, g, masks = SAMPLES[i]
            cols = table(len(t), t, g, masks)
            want, stats = expect(cols, limit, fill)
            compare(imp, imp.impute(Data.from_dict(cols)), want, stats, f"table {i} of {case}")
            ctx.step()


@R.scenario(lambda tier: [(n, list(a)) for n in range(0, 6 if tier == "thorough" else 5) for a in bits(n)])
def removal(ctx, case):
    """Removal-only imputation keeps exactly the complete rows."""
    n, a = case
    imp = RemoveOnlyImputator()
    for b in bits(n):
        for c in bits(n) if n <= 4 else bits(n)[:4]:
            cols = {name: [f"{name}{i}" if m else None for i, m in enumerate(mask)] for name, mask in zip("xyz", (a, b, c))}
            data = Data.from_dict(cols)
            res = imp.impute(data)
            ctx.step()
            keep = [i for i in range(n) if a[i] and b[i] and c[i]]
            check(res.keys() == ["x", "y", "z"] and all(list(res[k]) == [cols[k][i] for i in keep] for k in "xyz"), "complete rows of %s are %s", cols, [list(r) for r in res.rows(return_type=list)])
            check(res.n_rows == len(keep), "number of rows %s of %s", res.n_rows, cols)
            stats = imp.get_latest_statistics()
            want = dict(n_removed_cols=0, n_removed_rows=n - len(keep), n_filled_fields=0, n_rows=len(keep), n_cols=3)
            check(stats == want, "statistics %s instead of %s", stats, want)


SCALES = {
    LIMIT: (30.0, 86400.0 + 10.0, 172800.0 - 5.0, 31536000.0),
    100000.0: (40000.0, 86400.0, 120000.0, 86401.5),
    0.05: (0.01, 0.03125, 0.25, 86400.015625),
    1.0: (0.5, 1.5, 3600.25, 604800.0),
}


@R.scenario(lambda tier: [(n, limit, list(g)) for n in range(2, 5 if tier == "thorough" else 4) for limit, gaps in SCALES.items() for g in itertools.product(gaps, repeat=n - 1)])
def scales(ctx, case):
    """Time differences and limits from fractions of a second up to years."""
    n, limit, gaps = case
    imp = FillLocalImputator(Fill.before, Fill.between, Fill.after, timedelta(seconds=limit))
    for tmask in bits(n):
        if not any(tmask):
            continue
        for a in bits(n):
            for b in (a[::-1], (1,) + a[1:]):
                cols = table(n, tmask, gaps, (a, b))
                want, stats = expect(cols, limit, Fill)
                res = imp.impute(Data.from_dict(cols))
                ctx.step()
                compare(imp, res, want, stats, f"limit {limit}: {cols}")


@R.scenario(lambda tier: [[n, kind, g] for n in (70, 150, 300, 600) for kind in range(8) for g in (0.1, 0.45, 1.0)])
def long_tables(ctx, case):
    """Hundreds of rows with long gaps inside and outside of the time limit."""
    n, kind, gap = case
    tmask = [1] * n
    if kind % 2:
        tmask = [int(i % 7 in (0, 3) or i < 2 or i > n - 3) for i in range(n)]
    if kind == 5:
        tmask = [int(i in (0, n // 2, n - 1)) for i in range(n)]
    a = {
        0: [int(i in (0, n - 1)) for i in range(n)],
        1: [int(i in (3, n // 2, n - 5)) for i in range(n)],
        2: [int(i < 5 or i > n - 4) for i in range(n)],
        3: [int(i % 61 == 30) for i in range(n)],
        4: [int(i == n - 1) for i in range(n)],
        5: [int(i == 0) for i in range(n)],
        6: [int(i % 2) for i in range(n)],
        7: [int(60 <= i < 65) for i in range(n)],
    }[kind]
    cols = table(n, tmask, [gap] * (n - 1), (a, [1 - x if i % 5 else 1 for i, x in enumerate(a)]))
    want, stats = expect(cols, LIMIT, Fill)
    imp = FillLocalImputator(Fill.before, Fill.between, Fill.after, timedelta(seconds=LIMIT))
    res = imp.impute(Data.from_dict(cols))
    ctx.step()
    compare(imp, res, want, stats, f"{case}")
    cols["x"] = [None if i % 11 == kind else i for i in range(n)]
    data = Data.from_dict(cols)
    rem = RemoveOnlyImputator()
    res = rem.impute(data)
    keep = [i for i in range(n) if all(c[i] is not None for c in cols.values())]
    check(all(list(res[k]) == [c[i] for i in keep] for k, c in cols.items()), "complete rows of %s", case)
    check(rem.get_latest_statistics() == dict(n_removed_cols=0, n_removed_rows=n - len(keep), n_filled_fields=0, n_rows=len(keep), n_cols=len(cols)), "statistics %s", rem.get_latest_statistics())
