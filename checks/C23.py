"""C23: filters keep exactly the points whose weight qualifies."""
import itertools

import numpy as np

from hrosailing.processing import BoundFilter, QuantileFilter
from vf.core import Registry, check, fail, raises

ID = "C23"
ASSUMPTIONS = [
    "weights are one-dimensional numpy arrays of numbers",
    "points of equal weight are either all kept or all removed; at least the heaviest points are kept",
]
R = Registry()

ALPHABET = [0.0, 0.25, 0.5, 1.0]
PERCENTS = [0, 1, 10, 12.5, 20, 25, 30, 100 / 3, 40, 50, 60, 66, 75, 80, 90, 99, 100]
BOUNDS = [(0.5, 1), (0, 0), (0, 1), (0.25, 0.5), (0.25, 0.25), (0.3, 0.4), (-1, 0.1), (1, 1), (0.75, 5), (-5, -1), (float("-inf"), 0.5)]


def quantile_ref(w, percent):
    """Remove whole groups of equal weight, lightest first, while affordable."""
    removed = set()
    groups = sorted(set(w))
    for g in groups[:-1]:
        idx = [i for i, x in enumerate(w) if x == g]
        if (len(removed) + len(idx)) * 100 > percent * len(w) + 1e-9:
            break
        removed.update(idx)
    return [i not in removed for i in range(len(w))]


def observe(ctx, f, w, want, what):
    arr = np.array(w)
    before = arr.copy()
    got = f.filter(arr)
    check(np.array_equal(arr, before), f"{what} changed the weights")
    check(len(got) == len(w), f"{what} returned {len(got)} entries for {len(w)} points")
    got = [bool(g) for g in got]
    if got != want:
        fail(f"{what} of {w} kept {got}, expected {want}")
    s = f.get_latest_statistics()
    check(s["n_filtered_points"] == len(w) - sum(want) and s["n_rows"] == sum(want), f"{what} of {w}: statistics {s}, kept {want}")
    ctx.step()


def vectors(t):
    n = 7 if t == "thorough" else 6
    for k in range(1, n + 1):
        yield [k, None]
    for k in range(1, n + 1):
        for first in ALPHABET:
            yield [k, first]


def expand(case):
    k, first = case
    if first is None:  # all distinct weights in every order
        for p in itertools.permutations([0.05 + 0.15 * i for i in range(k)]):
            yield list(p)
    else:
        for rest in itertools.product(ALPHABET, repeat=k - 1):
            yield [first, *rest]


@R.scenario(vectors)
def quantile(ctx, case):
    """Every weight vector over the alphabet x every percentage."""
    out = 0
    filters = {p: QuantileFilter(p) for p in PERCENTS}  # reused for all vectors
    for w in expand(case):
        for p in PERCENTS:
            want = quantile_ref(w, p)
            removed = len(w) - sum(want)
            check(removed * 100 <= p * len(w) + 1e-9 and sum(want) >= 1, "reference")
            observe(ctx, filters[p], w, want, f"the {p} % quantile filter")
            out += removed
    return out


@R.scenario(vectors)
def bounds(ctx, case):
    """Every weight vector over the alphabet x every pair of bounds."""
    out = 0
    filters = {b: BoundFilter(*b) for b in BOUNDS}
    for w in expand(case):
        for b in BOUNDS:
            want = [b[0] <= x <= b[1] for x in w]
            observe(ctx, filters[b], w, want, f"the filter with bounds {b}")
            out += sum(want)
    return out


@R.scenario([[n, p, kind] for n in (1, 2, 3, 7, 10, 29, 99, 100, 101, 333, 1000) for p in (0, 3, 5, 7, 14.5, 29, 50, 55, 57, 70, 83, 99.5, 100) for kind in ("distinct", "ties", "equal", "reversed", "negative", "ints")])
def larger(ctx, case):
    """Longer vectors, integers, negative and tied weights."""
    n, p, kind = case
    w = {
        "distinct": [((i * 37) % n) / n for i in range(n)] if n % 37 else [i / n for i in range(n)],
        "ties": [(i * 7 % 5) / 4 for i in range(n)],
        "equal": [0.5] * n,
        "reversed": [1 - i / n for i in range(n)],
        "negative": [-3.0 + (i * 11 % 13) for i in range(n)],
        "ints": [i * 5 % 8 for i in range(n)],
    }[kind]
    observe(ctx, QuantileFilter(p), w, quantile_ref(w, p), f"the {p} % quantile filter")
    if p == 50:
        observe(ctx, QuantileFilter(), w, quantile_ref(w, 50), "the default quantile filter")
        observe(ctx, BoundFilter(), w, [0.5 <= x <= 1 for x in w], "the default bound filter")
        observe(ctx, BoundFilter(upper_bound=0.9, lower_bound=0.1), w, [0.1 <= x <= 0.9 for x in w], "the bound filter by keyword")
    return sum(quantile_ref(w, p))


@R.scenario([[a, b] for a in ("q20", "q50", "q80", "b") for b in itertools.product(range(5), repeat=2)])
def reuse(ctx, case):
    """One filter applied to one vector and then to another."""
    which, order = case
    vecs = [[0.1, 0.9, 0.5, 0.5], [1.0], [0.2, 0.2, 0.3, 0.4, 0.9, 0.1], [], [0.6, 0.7, 0.1, 0.05, 0.3]]
    f = BoundFilter(0.2, 0.8) if which == "b" else QuantileFilter(int(which[1:]))
    for i in order:
        w = vecs[i]
        want = [0.2 <= x <= 0.8 for x in w] if which == "b" else quantile_ref(w, int(which[1:]))
        observe(ctx, f, w, want, f"filter {which} after {order}")
    return case


@R.scenario([["q", -1], ["q", 101], ["q", 100.5], ["q", -0.001], ["b", 1, 0], ["b", 0.5, 0.4], ["b", 0, -1]])
def refused(ctx, case):
    """Impossible percentages and bounds."""
    if case[0] == "q":
        raises(ValueError, lambda: QuantileFilter(case[1]), f"percent {case[1]}")
    else:
        raises(ValueError, lambda: BoundFilter(case[1], case[2]), f"bounds {case[1:]}")
    return case


@R.scenario([[e, n, p] for e in (1e-3, 1e-6, 1e-9, 1e-12, 1e-15) for n in (2, 5, 10, 100, 257, 5003) for p in (10, 25, 50, 75, 90) if n < 1000 or p in (25, 50)])
def nearly_equal(ctx, case):
    """Weights differing by tiny amounts are different; bounds are sharp."""
    e, n, p = case
    for base in (0.0, 0.5, 1.0, 1e3):
        w = [base + e * max(1.0, base) * ((i * 7919) % n) for i in range(n)] if n % 7919 else [base] * n
        observe(ctx, QuantileFilter(p), w, quantile_ref(w, p), f"the {p} % quantile filter")
        mid = sorted(w)[n // 2]
        observe(ctx, BoundFilter(mid, 1e9), w, [x >= mid for x in w], f"the filter above {mid}")
        observe(ctx, BoundFilter(-1e9, mid), w, [x <= mid for x in w], f"the filter below {mid}")
        observe(ctx, BoundFilter(mid, mid), w, [x == mid for x in w], f"the filter at {mid}")
