"""C30: regression recovers the model and predicts with it."""
import itertools
import math

import numpy as np

import hrosailing.core.modelfunctions as mf
from hrosailing.processing import LeastSquareRegressor, ODRegressor
from vf.core import Registry, check, fail, raises, same

ID = "C30"
ASSUMPTIONS = [
    "data determine the parameters (at least as many independent points as parameters)",
    "non-linear models are fitted from initial values near the true parameters",
    "numerical agreement of fitted values within 1e-4 relative",
]
R = Registry()


# ---- linear models: the optimum is known in closed form ---------------------
def m_scale(ws, wa, a):
    return a * np.asarray(ws)


def m_plane(ws, wa, a, b, c):
    return a + b * np.asarray(ws) + c * np.asarray(wa)


def m_var(ws, wa, *p):
    return p[0] * np.asarray(ws) + p[1] * np.cos(np.deg2rad(np.asarray(wa)))


def m_quad(ws, wa, a, b, c):
    ws, wa = np.asarray(ws), np.asarray(wa)
    return a * ws + b * np.square(ws) / 10 + c * ws * np.sin(np.deg2rad(wa) / 2)


MODELS = {
    "scale": (m_scale, 1, lambda s, a: [s]),
    "plane": (m_plane, 3, lambda s, a: [1.0, s, a]),
    "var": (m_var, 2, lambda s, a: [s, math.cos(math.radians(a))]),
    "quad": (m_quad, 3, lambda s, a: [s, s * s / 10, s * math.sin(math.radians(a) / 2)]),
}


def design(model, data):
    return np.array([MODELS[model][2](s, a) for s, a, _ in data])


def winds(n, shape):
    if shape == "lattice":
        return [(4.0 + 3 * (i % 4), (25.0 + 55 * (i // 4) + 10 * (i % 3)) % 360) for i in range(n)]
    return [(3.0 + (i * 7 % 17) * 0.75, (i * 83.0 + 12) % 360) for i in range(n)]


PARAMS = {
    "scale": [[1.3], [-0.5], [0.0], [2.75]],
    "plane": [[1.0, 0.5, 0.01], [-2.0, 0.25, -0.02], [0.0, 0.0, 0.03], [5.0, 0.0, 0.0]],
    "var": [[0.4, 1.5], [-0.2, 3.0], [0.0, 0.5]],
    "quad": [[0.5, -0.1, 0.3], [1.0, 0.0, -0.2], [0.25, 0.2, 0.1]],
}
NOISE = {"exact": lambda i: 0.0, "noise": lambda i: ((i * 31 % 11) - 5) / 10, "outlier": lambda i: 4.0 if i == 2 else 0.0}


def make(kind, model, init):
    f, k, _ = MODELS[model]
    start = {"ones": [1.0] * k, "zeros": [0.1] * k, "array": np.full(k, 0.5), "tuple": tuple([2.0] * k), "default": None}[init]
    if kind == "least":
        return LeastSquareRegressor(f) if start is None else LeastSquareRegressor(f, start)
    return ODRegressor(f, [1.0] * k if start is None else start)


def bsp(model, params, data):
    return design(model, [(s, a, 0) for s, a in data]) @ np.array(params)


def linear_cases(t):
    for kind in ("least", "odr"):
        for model in MODELS:
            for params in PARAMS[model]:
                for n in (4, 6, 12) + (30, 100) + ((300, 1000) if t == "thorough" else ()):
                    for shape in ("lattice", "spread"):
                        for noise in NOISE:
                            for init in ("ones", "default") + ("zeros", "array", "tuple"):
                                yield [kind, model, params, n, shape, noise, init]


@R.scenario(linear_cases)
def linear(ctx, case):
    """Linear models: the fit is the least squares solution."""
    kind, model, params, n, shape, noise, init = case
    w = winds(n, shape)
    y = bsp(model, params, w) + np.array([NOISE[noise](i) for i in range(n)])
    data = np.column_stack((np.array(w), y))
    before = data.copy()
    reg = make(kind, model, init)
    check(reg.optimal_params is None, "parameters before the first fit")
    check(reg.model_func is MODELS[model][0], "model function handed out")
    reg.fit(data)
    check(np.array_equal(data, before), f"{case}: fitting changed the data")
    got = np.asarray(reg.optimal_params, dtype=float)
    A = design(model, data)
    best = np.linalg.lstsq(A, y, rcond=None)[0]
    check(np.linalg.matrix_rank(A) == A.shape[1], "harness: parameters not determined")
    check(got.shape == best.shape, f"{case}: {got.shape} parameters")
    rss, opt = np.sum((A @ got - y) ** 2), np.sum((A @ best - y) ** 2)
    check(rss <= opt * (1 + 1e-6) + 1e-7, f"{case}: residual sum {rss}, attainable {opt}, parameters {got}, best {best}")
    same(A @ got, A @ best, f"{case}: fitted values", rtol=1e-4, atol=2e-4)
    if noise == "exact":
        same(got, params, f"{case}: recovered parameters", rtol=1e-4, atol=2e-4)
    same(reg.model_func(data[:, 0], data[:, 1], *reg.optimal_params), A @ got, f"{case}: predictions")
    ctx.step(n)
    return [round(float(g), 3) for g in got]


TERMS = [lambda s, a: 1.0, lambda s, a: s, lambda s, a: math.cos(math.radians(a)), lambda s, a: math.sin(math.radians(a)), lambda s, a: s * s / 50,
         lambda s, a: s * math.cos(math.radians(a)) / 5, lambda s, a: math.cos(math.radians(2 * a)), lambda s, a: s * math.sin(math.radians(a)) / 5,
         lambda s, a: math.sin(math.radians(2 * a)), lambda s, a: s ** 3 / 900, lambda s, a: s * math.cos(math.radians(2 * a)) / 5, lambda s, a: math.cos(math.radians(3 * a))]


def star_model(k):
    def star(ws, wa, *p):
        return sum(p[i] * np.vectorize(TERMS[i], otypes=[float])(ws, wa) for i in range(k))

    return star


@R.scenario([[kind, k, init, noise] for kind in ("least", "odr") for k in range(1, len(TERMS) + 1) for init in ("default", "ones", "tuple") for noise in ("exact", "noise") if kind == "least" or init != "default"])
def many_parameters(ctx, case):
    """Models with up to twelve parameters, as many as the function makes use of."""
    kind, k, init, noise = case
    f = star_model(k)
    start = {"default": None, "ones": [1.0] * k, "tuple": (0.5,) * k}[init]
    reg = (LeastSquareRegressor if kind == "least" else ODRegressor)(f, *([] if start is None else [start]))
    data = [(3.0 + (i * 7 % 17) * 0.75, (i * 83.0 + 12) % 360) for i in range(60)]
    rows = np.array([[t(s, a) for t in TERMS[:k]] for s, a in data])
    y = rows @ np.array([(0.5, -1.0, 2.0)[i % 3] + i / 8 for i in range(k)]) + np.array([NOISE[noise](i) for i in range(60)])
    reg.fit(np.column_stack((data, y)))
    best = np.linalg.lstsq(rows, y, rcond=None)[0]
    check(np.shape(reg.optimal_params) == (k,), "%s parameters for a model of %s", np.shape(reg.optimal_params), k)
    same(list(reg.optimal_params), list(best), "parameters", rtol=1e-4, atol=1e-4)
    ctx.step()
    return k


@R.scenario([[k, m, c, n] for k in ("least", "odr") for m in MODELS for c in ("array", "list", "tuples", "ints", "fortran", "float32") for n in (6, 12)])
def containers(ctx, case):
    """The same data in any container."""
    kind, model, c, n = case
    w = [(round(s), round(a)) for s, a in winds(n, "spread")]
    y = [round(v) for v in bsp(model, PARAMS[model][0], w)]
    rows = [[s, a, v] for (s, a), v in zip(w, y)]
    data = {
        "array": lambda: np.array(rows, dtype=float),
        "list": lambda: rows,
        "tuples": lambda: tuple(map(tuple, rows)),
        "ints": lambda: np.array(rows),
        "fortran": lambda: np.asfortranarray(np.array(rows, dtype=float)),
        "float32": lambda: np.array(rows, dtype=np.float32).astype(float),
    }[c]()
    reg = make(kind, model, "ones")
    reg.fit(data)
    A = design(model, rows)
    best = np.linalg.lstsq(A, np.array(y, dtype=float), rcond=None)[0]
    same(A @ np.asarray(reg.optimal_params), A @ best, f"{case}: fitted values", rtol=1e-4, atol=2e-4)
    check(rows == [[s, a, v] for (s, a), v in zip(w, y)], "fitting changed the rows")
    return [round(float(g), 3) for g in reg.optimal_params]


@R.scenario([[k, m] for k in ("least", "odr") for m in MODELS])
def orders(ctx, case):
    """Every order of the points gives the same parameters."""
    kind, model = case
    w = winds(5, "spread")
    y = bsp(model, PARAMS[model][1], w) + np.array([NOISE["noise"](i) for i in range(5)])
    data = np.column_stack((np.array(w), y))
    best = np.linalg.lstsq(design(model, data), y, rcond=None)[0]
    for p in itertools.permutations(range(5)):
        reg = make(kind, model, "ones")
        reg.fit(data[list(p)])
        same(design(model, data) @ np.asarray(reg.optimal_params), design(model, data) @ best, f"{case}: order {p}", rtol=1e-4, atol=2e-4)
        ctx.step()
    return [round(float(g), 3) for g in best]


@R.scenario([[k, list(o)] for k in ("least", "odr") for o in itertools.product(range(4), repeat=3)])
def reuse(ctx, case):
    """Fits one after the other with the same regressor."""
    kind, order = case
    sets = []
    for i, (n, p) in enumerate([(6, 0), (8, 1), (12, 2), (5, 3)]):
        w = winds(n, "spread")
        y = bsp("plane", PARAMS["plane"][p], w) + (0 if i % 2 else np.array([NOISE["noise"](j) for j in range(n)]))
        sets.append(np.column_stack((np.array(w), y)))
    reg = make(kind, "plane", "ones")
    for i in order:
        reg.fit(sets[i])
        A = design("plane", sets[i])
        best = np.linalg.lstsq(A, sets[i][:, 2], rcond=None)[0]
        same(A @ np.asarray(reg.optimal_params), A @ best, f"{case}: fitted values of set {i}", rtol=1e-4, atol=5e-4)
        ctx.step()
    return case


# ---- non-linear library models ----------------------------------------------
def s(x, a0, a1, a2, a3=0.0):
    return a2 / (1 + math.exp(a0 - a1 * x)) - a3 * x * x


def gauss(y, a, b, c):
    return a * math.exp(-((y - b) ** 2) / (2 * c))


def isp(x, a0, a1, a2):
    return a0 * x + a2 * (x - a1) ** 2


LIBRARY = {
    "ws_s_wa_gauss": (lambda x, y, p: s(x, *p[:3]) + gauss(y, *p[3:6]) + gauss(360 - y, *p[6:9]), [2.0, 0.5, 5.0, 1.5, 100.0, 900.0, 1.2, 130.0, 1600.0]),
    "ws_s_dt_wa_gauss": (lambda x, y, p: s(x, *p[:4]) + gauss(y, *p[4:7]) + gauss(360 - y, *p[7:10]), [2.0, 0.5, 5.0, 0.004, 1.5, 100.0, 900.0, 1.2, 130.0, 1600.0]),
    "ws_s_s_dt_wa_gauss_comb": (lambda x, y, p: s(x, *p[:4]) + gauss(y, *p[4:7]) + p[7] * x * y + gauss(360 - y, *p[8:11]) + p[11] * x * (360 - y), [2.0, 0.5, 5.0, 0.004, 1.5, 100.0, 900.0, 0.0003, 1.2, 130.0, 1600.0, 0.0002]),
    "ws_s_wa_gauss_and_square": (lambda x, y, p: (s(x, *p[:4]) + x * (gauss(y, *p[4:7]) + gauss(360 - y, *p[7:10]))) * y * (360 - y), [2.0, 0.5, 1e-4, 1e-7, 2e-5, 100.0, 900.0, 1.5e-5, 130.0, 1600.0]),
    "ws_concave_dt_wa": (lambda x, y, p: p[0] + p[1] * x - p[2] * x * x + isp(y, *p[3:6]) + p[6] * x * y + isp(360 - y, *p[7:10]) + p[10] * x * (360 - y), [1.0, 0.5, 0.01, 0.002, 90.0, -0.0001, 0.0003, 0.001, 100.0, -0.0002, 0.0002]),
    "ws_wa_s_dt": (lambda x, y, p: s(x, *p[:4]) + s(y, *p[4:8]) + p[8] * x * y + s(360 - y, *p[9:13]) + p[13] * x * (360 - y), [2.0, 0.5, 5.0, 0.004, 3.0, 0.04, 2.0, 1e-5, 0.0003, 4.0, 0.03, 1.5, 2e-5, 0.0002]),
    "ws_times_wa": (lambda x, y, p: p[0] * x * y, [0.0025]),
}


def library_grid():
    return [(x, y) for x in (4.0, 7.0, 10.0, 14.0, 20.0) for y in range(15, 360, 15)]


@R.scenario([[k, m, d] for k in ("least", "odr") for m in ("ws_s_wa_gauss", "ws_s_dt_wa_gauss", "ws_times_wa") for d in (0.9, 0.97, 1.0, 1.05)])
def library_models(ctx, case):
    """Library models fitted to points on them, started nearby."""
    kind, m, d = case
    ref, params = LIBRARY[m]
    data = np.array([[x, float(y), ref(x, float(y), params)] for x, y in library_grid()])
    cls = LeastSquareRegressor if kind == "least" else ODRegressor
    reg = cls(getattr(mf, m), [p * d for p in params])
    reg.fit(data)
    got = [ref(x, y, reg.optimal_params) for x, y, _ in data]
    same(got, data[:, 2], f"{case}: fitted values", rtol=1e-3, atol=1e-3)
    ctx.step(len(data))
    return [round(float(p), 1) for p in reg.optimal_params]


@R.scenario([[m, v] for m in LIBRARY for v in range(5)])
def model_values(ctx, case):
    """Model functions equal their documented formulas."""
    m, v = case
    ref, base = LIBRARY[m]
    p = [b * (1 + 0.1 * ((i * 3 + v) % 5 - 2)) * (-1 if v == 4 and i % 3 == 2 and "gauss" not in m else 1) for i, b in enumerate(base)]
    f = getattr(mf, m)
    grid = library_grid() + [(0.0, 0.0), (5.0, 0.0), (0.5, 360.0), (30.0, 180.0)]
    want = [ref(x, float(y), p) for x, y in grid]
    same([float(f(x, y, *p)) for x, y in grid], want, f"{m} at scalars", rtol=1e-9)
    xs, ys = np.array([g[0] for g in grid]), np.array([float(g[1]) for g in grid])
    bx, by = xs.copy(), ys.copy()
    same(f(xs, ys, *p), want, f"{m} at arrays", rtol=1e-9)
    check(np.array_equal(xs, bx) and np.array_equal(ys, by), f"{m} changed its arguments")
    same(f(7.0, ys, *p), [ref(7.0, y, p) for y in ys], f"{m} at a wind speed and angles", rtol=1e-9)
    same(f(xs.reshape(-1, 7), ys.reshape(-1, 7), *p), np.array(want).reshape(-1, 7), f"{m} at matrices", rtol=1e-9)
    ctx.step(len(grid))
    return round(want[7], 6)


@R.scenario([["odr", 0], ["odr", 2], ["odr", 4], ["least", 0]])
def refused(ctx, case):
    kind, n = case
    reg = make(kind, "scale", "ones")
    data = np.empty((0, 3)) if n == 0 else np.ones((5, n))
    raises(ValueError, lambda: reg.fit(data), f"fitting data of shape {data.shape}")
    return case


@R.scenario(lambda t: [[k, m, n, e] for k in ("least", "odr") for m in MODELS for n in (101, 257, 1000, 2500) for e in ((1.0,) if n < 1000 else (1.0, 1e-3))])
def many_points(ctx, case):
    """Every one of many points counts: the second half follows other parameters than the first."""
    kind, model, n, e = case
    w = [(3.0 + (i * 7 % 17) * 0.75, (i * 83.0 + 12) % 360) for i in range(n)]
    p1, p2 = np.array(PARAMS[model][0]), np.array(PARAMS[model][-1])
    y = np.concatenate([bsp(model, p1, w[: n // 2]), bsp(model, p1 + e * (p2 - p1), w[n // 2:])])
    for turn in (1, -1):
        data = np.column_stack((np.array(w), y))[::turn].copy()
        A = design(model, data)
        best_ = np.linalg.lstsq(A, data[:, 2], rcond=None)[0]
        reg = make(kind, model, "ones")
        reg.fit(data)
        ctx.step()
        got = np.asarray(reg.optimal_params, dtype=float)
        rss, opt = np.sum((A @ got - data[:, 2]) ** 2), np.sum((A @ best_ - data[:, 2]) ** 2)
        check(rss <= opt * (1 + 1e-6) + 1e-9 * n, f"{case}: residual sum {rss}, attainable {opt}, parameters {got}, best {best_}")
