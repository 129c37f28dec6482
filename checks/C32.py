"""C32: plots draw exactly the diagram's slices and points."""
import itertools
import math

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.colors import to_rgb  # noqa: E402
from scipy.spatial import cKDTree  # noqa: E402

import hrosailing.plotting as hplot  # noqa: E402
from hrosailing.core import modelfunctions as mf  # noqa: E402
from hrosailing.polardiagram import (  # noqa: E402
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check, same  # noqa: E402

ID = "C32"
ASSUMPTIONS = ["the Agg backend", "the wind speeds requested for clouds are those of recorded points or 5 kt apart from all of them",
               "sails are told apart in a line by a gap (NaN)"]
R = Registry()

WS_T = [4.0, 8.0, 12.0, 20.0]
WA_T = [0.0, 40.0, 75.0, 120.0, 180.0, 220.0, 300.0, 350.0]
WA_H = [30.0, 60.0, 90.0, 150.0]
CLOUD = [[4, 200, 3.0], [8, 50, 5.5], [8, 350, 1.0], [4, 45, 2.5], [12, 90, 8.25], [8, 120, 6.5], [4, 90, 4.0],
         [8, 255, 4.75], [12, 10, 1.75], [12, 300, 7.0], [4, 300, 3.75], [8, 90, 7.0], [12, 170, 5.0], [20, 100, 9.0]]
CLOUD2 = [[4, 30, 1.5], [4, 140, 5.0], [8, 20, 2.0], [8, 200, 6.25], [12, 60, 3.5], [12, 240, 6.0]]


def table(ws=WS_T, wa=WA_T, phase=0.0):
    return [[round(1 + 0.3 * w * abs(math.sin(math.radians(0.6 * a + phase))) + 0.01 * a, 4) for w in ws] for a in wa]


def curve_val(w, a, rad):
    a = a % 360
    return 0.01 * w * (math.radians(a) if rad else a)


def build(kind):
    """diagram, points(ws) -> list of sails' points [(wa, bsp)], default wind speeds, sails"""
    if kind in ("table", "half", "rev"):
        wa = {"table": WA_T, "half": WA_H, "rev": WA_T}[kind]
        t = table(wa=wa)
        pd = PolarDiagramTable(WS_T, wa, t)
        return pd, lambda w: [[(a, t[i][WS_T.index(w)]) for i, a in enumerate(wa)]] if w in WS_T else None, WS_T
    if kind == "cloud":
        pd = PolarDiagramPointcloud(CLOUD)
        return pd, lambda w: [[(a, s) for v, a, s in CLOUD if abs(v - w) <= 1]], None
    if kind.startswith("curve"):
        rad = kind == "curve_rad"
        pd = PolarDiagramCurve(mf.ws_times_wa, 0.01, radians=rad)
        wa = np.linspace(0, 360, 100)
        # the last angle of a slice is 360 degrees, evaluated there or at 0
        return pd, lambda w: [[(a, curve_val(w, a, rad)) for a in wa]], [float(x) for x in range(5, 21)]
    if kind == "sails":
        t1, t2 = table(), table(phase=70.0)
        a, b = PolarDiagramTable(WS_T, WA_T, t1), PolarDiagramTable(WS_T, WA_T[1:6], t2[1:6])
        pd = PolarDiagramMultiSails([a, b], ["Jib", "Spi"])
        return pd, lambda w: [[(x, t1[i][WS_T.index(w)]) for i, x in enumerate(WA_T)],
                              [(x, t2[i + 1][WS_T.index(w)]) for i, x in enumerate(WA_T[1:6])]] if w in WS_T else None, None
    if kind == "sails3":
        t1 = table()
        pd = PolarDiagramMultiSails([PolarDiagramPointcloud(CLOUD), PolarDiagramTable(WS_T, WA_T, t1), PolarDiagramPointcloud(CLOUD2)],
                                    ["C", "A", "B"])
        return pd, lambda w: [[(x, s) for v, x, s in CLOUD if abs(v - w) <= 1],
                              [(x, t1[i][WS_T.index(w)]) for i, x in enumerate(WA_T)],
                              [(x, s) for v, x, s in CLOUD2 if abs(v - w) <= 1]] if w in WS_T else None, None
    raise ValueError(kind)


KINDS = ["table", "half", "cloud", "curve", "curve_rad", "sails", "sails3"]
SEL = {"one": (8, None), "float": (12.0, None), "list": ([4, 12], None), "tuple": ((4.0, 8.0, 12.0), None), "array": (np.array([4.0, 8.0, 20.0]), None),
       "down": ([12, 4], None), "default": (None, None), "steps": ([4, 8], 1), "steps3": ([4, 8, 20], 3)}
WAYS = ["polar", "flat", "f_polar", "f_flat", "s_polar", "s_flat", "fs_polar", "fs_flat"]


def wanted(sel, default):
    ws, n = SEL[sel] if isinstance(sel, str) else sel
    if ws is None:
        return default
    ws = [float(w) for w in (ws if np.ndim(ws) else [ws])]
    if n is None:
        return ws
    out = []
    for a, b in zip(ws, ws[1:]):
        out += [a + (b - a) * k / (n + 1) for k in range(n + 1)]
    return out + [ws[-1]]


def snapshot(pd):
    if isinstance(pd, PolarDiagramMultiSails):
        return [snapshot(d) for d in pd.diagrams] + [tuple(pd.sails)]
    if isinstance(pd, PolarDiagramTable):
        return [list(map(float, pd.wind_speeds)), list(map(float, pd.wind_angles)), np.asarray(pd.boat_speeds).tolist()]
    if isinstance(pd, PolarDiagramPointcloud):
        return np.asarray(pd.points).tolist()
    return [pd.curve.__name__, tuple(pd.parameters), pd.radians]


def draw(way, pd, **kw):
    plt.close("all")
    fn = way.split("_")[-1]
    scatter = way.startswith("s") or way.startswith("fs")
    if way.startswith("f_") or way.startswith("fs_"):
        getattr(hplot, ("scatter_" if scatter else "plot_") + fn)(pd, **kw)
        ax = plt.gca()
    else:
        ax = plt.subplot(projection="hro " + fn)
        (ax.scatter if scatter else ax.plot)(pd, **kw)
    check(ax.name == "hro " + fn, "%s drew on axes %r", way, ax.name)
    return ax, scatter, fn == "polar"


def drawn(ax, scatter, polar):
    """[(points with None as gaps, colour)] as degrees and speeds"""
    out = []
    if scatter:
        arts = [(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan), c.get_facecolor()) for c in ax.collections]
    else:
        arts = [(np.column_stack(ln.get_data(orig=True)) if len(ln.get_xdata()) else np.empty((0, 2)), [to_rgb(ln.get_color())]) for ln in ax.lines]
    for xy, col in arts:
        pts = [None if math.isnan(x) or math.isnan(y) else ((math.degrees(x) if polar else float(x)), float(y)) for x, y in np.asarray(xy, float)]
        cols = {tuple(round(float(v), 6) for v in c[:3]) for c in col}
        check(len(cols) <= 1, "several colours in one slice: %s", cols)
        out.append((pts, cols.pop() if cols else None))
    return out


def match(pts, parts, what, gaps=True):
    """pts are exactly the points of parts, every part sorted by angle and contiguous."""
    if not gaps:
        pts = [p for p in pts if p is not None]
    groups, cur = [], []
    for p in pts:
        if p is None:
            groups.append(cur)
            cur = []
        else:
            cur.append(p)
    groups.append(cur)
    parts = [sorted(p) for p in parts if p]
    groups = [g for g in groups if g]
    if not gaps:
        check(sorted(round_(p) for g in groups for p in g) == sorted(round_(p) for q in parts for p in q), "%s: scattered %s, expected %s", what, groups, parts)
        return
    check(len(groups) == len(parts), "%s: drawn in %s parts, expected %s", what, len(groups), len(parts))
    for g in groups:
        check(all(a[0] <= b[0] + 1e-9 for a, b in zip(g, g[1:])), "%s: not sorted by angle: %s", what, g)
    gs = sorted([sorted(round_(p) for p in g) for g in groups])
    es = sorted([sorted(round_(p) for p in g) for g in parts])
    check(gs == es, "%s: drawn %s, expected %s", what, gs, es)


def round_(p):
    return round(p[0], 5), round(p[1], 5)


def expected(kind, pd, points, ws):
    if ws is None:
        ws = [float(w) for w in pd.default_slices]
    exp = []
    for w in ws:
        parts = points(w)
        if parts is None:  # not a recorded wind speed: the diagram's own slice, sail by sail
            subs = pd.diagrams if isinstance(pd, PolarDiagramMultiSails) else [pd]
            parts = []
            for d in subs:
                (s,) = d.get_slices(w)[1]
                parts.append([(float(a), float(b)) for a, b in zip(s[1], s[2])])
        exp.append(parts)
    return ws, exp


@R.scenario(lambda t: [[k, s, w] for k in KINDS for s in SEL for w in WAYS
                       if not (k == "cloud" and s.startswith("steps") and w[0] == "f") and not (k == "sails3" and s.startswith("steps"))])
def slices(ctx, case):
    """One line per requested wind speed through the points of the slice, by angle, in radians on polar axes."""
    kind, sel, way = case
    pd, points, default = build(kind)
    keep = snapshot(pd)
    ws, n = SEL[sel]
    kept = None if ws is None else np.array(ws, copy=True).tolist()
    kw = {k: v for k, v in (("ws", ws), ("n_steps", n)) if v is not None}
    ax, scatter, polar = draw(way, pd, **kw)
    check(snapshot(pd) == keep, "plotting modified the diagram")
    check(kept is None or np.array(ws).tolist() == kept, "plotting modified the wind speeds")
    labels, exp = expected(kind, pd, points, wanted(sel, default))
    got = drawn(ax, scatter, polar)
    check(len(got) == len(labels), "%s lines for wind speeds %s", len(got), labels)
    for (pts, _), parts, w in zip(got, exp, labels):
        match(pts, parts, f"slice at {w}", gaps=not scatter)
    if polar:
        check(abs(ax.get_theta_offset() - math.pi / 2) < 1e-9 and ax.get_theta_direction() == -1, "north is up, angles run clockwise")
    ctx.step(len(labels))
    plt.close("all")
    return [len(g[0]) for g in got]


@R.scenario([[k, n, w] for k in ("table", "cloud", "curve", "sails") for n in (101, 150, 300) for w in ("polar", "flat", "f_flat", "s_polar", "s_flat")])
def many_slices(ctx, case):
    """As many lines as wind speeds, however many those are."""
    kind, n, way = case
    winds = [2.0 + k / 8 for k in range(n)]
    t = table(ws=winds, wa=WA_H)
    tab = PolarDiagramTable(winds, WA_H, t)
    pd = {"table": lambda: tab,
          "cloud": lambda: PolarDiagramPointcloud([[w, a, t[i][j]] for j, w in enumerate(winds) for i, a in enumerate(WA_H)]),
          "curve": lambda: PolarDiagramCurve(mf.ws_times_wa, 0.01, radians=False),
          "sails": lambda: PolarDiagramMultiSails([tab, PolarDiagramTable(winds, WA_H[1:], t[1:])], ["A", "B"])}[kind]()
    ax, scatter, polar = draw(way, pd, ws=winds)
    got = drawn(ax, scatter, polar)
    check(len(got) == n, "%s lines for %s wind speeds", len(got), n)
    for j, (w, (pts, _)) in enumerate(zip(winds, got)):
        column = [(a, t[i][j]) for i, a in enumerate(WA_H)]
        if kind == "curve":
            parts = [[(a, curve_val(w, a, False)) for a in np.linspace(0, 360, 100)]]
        elif kind == "cloud":
            parts = [[(a, t[i][l]) for l, v in enumerate(winds) if abs(v - w) <= 1 for i, a in enumerate(WA_H)]]
        else:
            parts = [column] + ([column[1:]] if kind == "sails" else [])
        match(pts, parts, f"slice at {w}", gaps=not scatter)
    ctx.step(n)
    plt.close("all")
    return n


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(pts):
    """Extreme points (monotone chain), collinear points dropped."""
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    res = []
    for seq in (pts, pts[::-1]):
        chain = []
        for p in seq:
            while len(chain) >= 2 and cross(chain[-2], chain[-1], p) <= 1e-7:
                chain.pop()
            chain.append(p)
        res += chain[:-1]
    return res


def on_border(p, h):
    for a, b in zip(h, h[1:] + h[:1]):
        d = math.dist(a, b)
        if d < 1e-12:
            continue
        if abs(cross(a, b, p)) / d < 1e-6 and -1e-6 <= ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / d <= d + 1e-6:
            return True
    return False


def xy(p):
    return p[1] * math.cos(math.radians(p[0])), p[1] * math.sin(math.radians(p[0]))


ANG = [0.0, 30.0, 90.0, 135.0, 180.0, 200.0, 270.0, 330.0, 360.0]
NEAR = [0.25, 1.0, 45.5, 100.0, 179.75, 180.25, 268.5, 340.0, 359.5, 359.999]


def hull_cases(tier):
    for k in KINDS:
        for s in ("one", "list", "down", "default"):
            for w in (WAYS if tier == "thorough" else ["polar", "flat", "s_flat"]):
                yield ["kind", k, s, w]
    # every set of angles and two speed patterns
    for r in (3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for i, comb in enumerate(itertools.combinations(range(len(ANG)), r)):
            if {0, 8} <= set(comb):
                continue
            for pat in ("flat", "alt") if tier == "quick" else ("flat", "alt", "zero", "rise"):
                yield ["set", list(comb), pat, ["polar", "flat"][i % 2]]
    # angles close to the ends of the circle and of its halves
    for r in (3, 4) if tier == "quick" else (3, 4, 5, 6):
        for i, comb in enumerate(itertools.combinations(range(len(NEAR)), r)):
            for pat in ("flat", "alt") if tier == "thorough" else (["flat", "alt"][i % 2],):
                yield ["near", list(comb), pat, ["polar", "flat"][i // 2 % 2]]


@R.scenario(lambda t: list(hull_cases(t)))
def convex_hull(ctx, case):
    """The convex hull plot draws all corners of the hull, by angle, and only its border; around the boat it is closed."""
    if case[0] == "kind":
        _, kind, sel, way = case
        pd, points, default = build(kind)
        ws, _ = SEL[sel]
        labels, exp = expected(kind, pd, points, wanted(sel, default))
        exp = [[p for part in parts for p in part] for parts in exp]
    else:
        fam, comb, pat, way = case
        ang = ANG if fam == "set" else NEAR
        f = {"flat": lambda i: 5.0, "alt": lambda i: 3.0 + 2.5 * (i % 2), "zero": lambda i: 0.0 if i == 1 else 4.0, "rise": lambda i: 1.0 + 0.5 * i}[pat]
        exp = [[(ang[c], f(i)) for i, c in enumerate(comb)]]
        pd = PolarDiagramPointcloud([[8.0, a, s] for a, s in exp[0]][::-1])
        ws, labels = 8.0, [8.0]
        exp = [[(a % 360, s) for a, s in exp[0]]]
    keep = snapshot(pd)
    kw = {} if ws is None else {"ws": ws}
    ax, scatter, polar = draw(way, pd, use_convex_hull=True, **kw)
    check(snapshot(pd) == keep, "plotting modified the diagram")
    got = drawn(ax, scatter, polar)
    check(len(got) == len(labels), "%s lines for wind speeds %s", len(got), labels)
    for (pts, _), full, w in zip(got, exp, labels):
        check(None not in pts, "gap in the hull at %s", w)
        check(all(a[0] <= b[0] + 1e-9 for a, b in zip(pts, pts[1:])) or scatter, "hull at %s not sorted by angle: %s", w, pts)
        flat = [(round(x, 9), round(y, 9)) for x, y in map(xy, full)]
        h = hull(flat)
        width = 0.0
        if len(h) >= 3:
            width = abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1]))) / 2
        if width < 1e-6:  # nothing to span: all points of the slice
            check(sorted(map(round_, pts)) == sorted(map(round_, full)), "slice without area at %s: %s, expected %s", w, pts, full)
            continue
        mine = [xy(p) for p in pts]
        for c in h:
            check(any(math.dist(c, m) < 1e-6 for m in mine), "corner %s of the hull at %s not drawn: %s", c, w, pts)
        for p, m in zip(pts, mine):
            check(on_border(m, h), "point %s drawn for the hull at %s is not on its border", p, w)
        corner_angles = sorted(a for a, s in full if any(math.dist(xy((a, s)), c) < 1e-6 for c in h))
        gaps = [b - a for a, b in zip(corner_angles, corner_angles[1:] + [corner_angles[0] + 360])]
        if not scatter and max(gaps) < 180 - 1e-6:
            check(math.dist(mine[0], mine[-1]) < 1e-6, "hull around the boat at %s is not closed: %s", w, pts)
        ctx.step(len(pts))
    plt.close("all")
    return [len(g[0]) for g in got]


def mix(c0, c1, t):
    a, b = to_rgb(c0), to_rgb(c1)
    return tuple((1 - t) * x + t * y for x, y in zip(a, b))


COLORS = {
    "none": None, "red": "red", "hex": "#00ff80", "rgb": (0.25, 0.5, 0.75), "rgba": (0.25, 0.5, 0.75, 1.0), "two": ("blue", "orange"),
    "twolist": ["black", "white"], "three": ("red", "green", "black"), "many": ["red", "green", "black", "yellow", "purple", "cyan"],
    "pair": [(8, "red")], "pairs": [(12, "orange"), (4, "black")], "pairs2": ((20, "orange"), (12, "green"), (8.0, "purple")), "one": ["red"],
}


def colour_of(spec, labels):
    c = COLORS[spec]
    n = len(labels)
    if spec in ("red", "hex", "rgb", "rgba"):
        return [to_rgb(c)] * n
    if spec == "none":
        c = ("green", "red")
    if spec.startswith("pair"):
        d = {float(w): col for w, col in c}
        return [to_rgb(d.get(w, "blue")) for w in labels]
    if len(c) == 2 and n > 2:
        lo, hi = min(labels), max(labels)
        return [mix(c[0], c[1], (w - lo) / (hi - lo)) for w in labels]
    return [to_rgb(c[i]) if i < len(c) else to_rgb("blue") for i in range(n)]


COL_SEL = {"1": [8], "2": [4, 8], "2d": [12, 4], "3": [4, 8, 20], "4": [4, 8, 12, 20], "4d": [20, 8, 4, 12], "all": None}


def colour_cases(tier):
    for k in (KINDS if tier == "thorough" else ["table", "cloud", "sails", "curve"]):
        for c in COLORS:
            for s in COL_SEL:
                if c.startswith("pair"):
                    lab = COL_SEL[s] if s != "all" else (WS_T if k == "table" else [])
                    if not {float(w) for w, _ in COLORS[c]} <= set(map(float, lab)):
                        continue
                for w in (WAYS if tier == "thorough" else ["polar", "s_flat"]):
                    for leg in (False, True):
                        yield [k, c, s, w, leg]


@R.scenario(lambda t: list(colour_cases(t)))
def colours_and_legend(ctx, case):
    """Every slice has the colour of its wind speed; the legend names exactly that wind speed in that colour."""
    kind, spec, sel, way, leg = case
    pd, points, default = build(kind)
    ws = COL_SEL[sel]
    kw = {"show_legend": leg}
    if ws is not None:
        kw["ws"] = ws
    if COLORS[spec] is not None:
        kw["colors"] = COLORS[spec]
    ax, scatter, polar = draw(way, pd, **kw)
    labels, exp = expected(kind, pd, points, wanted((ws, None), default))
    got = drawn(ax, scatter, polar)
    check(len(got) == len(labels), "%s lines for wind speeds %s", len(got), labels)
    want = colour_of(spec, labels)
    for (pts, col), parts, c, w in zip(got, exp, want, labels):
        if col is not None and pts:
            same(col, c, f"colour of wind speed {w} among {labels}", atol=1e-5)
    if leg:
        legend = ax.get_legend()
        gradient = spec in ("none", "two", "twolist") and len(labels) > 2
        others = [a for a in ax.figure.axes if a is not ax]
        if gradient:
            check(legend is None and len(others) == 1, "colour bar expected for a gradient")
            bar = others[0]
            cb = [c for c in bar.collections if getattr(c, "colorbar", None)] or [None]
            lims = bar.get_ylim()
            same(sorted(lims), [min(labels), max(labels)], "range of the colour bar", atol=1e-6)
            check(bar.get_ylabel() == "True Wind Speed", "colour bar is labelled %r", bar.get_ylabel())
            m = getattr(bar, "_colorbar", None)
            if m is not None:
                for w, c in zip(labels, want):
                    same(m.cmap(m.norm(w))[:3], c, f"colour bar at {w}", atol=0.01)
        else:
            check(legend is not None and not others, "legend expected")
            texts = [t.get_text() for t in legend.get_texts()]
            cols = [to_rgb(h.get_color()) for h in legend.get_lines()]
            check(len(texts) == len(cols), "legend entries")
            byname = dict(zip(labels, want))
            seen = []
            for t, c in zip(texts, cols):
                check(t.startswith("TWS "), "legend entry %r", t)
                w = float(t[4:])
                check(w in byname, "legend names wind speed %s, drawn are %s", w, labels)
                same(c, byname[w], f"legend colour of wind speed {w}", atol=1e-5)
                seen.append(w)
            check(len(set(seen)) == len(seen), "legend entry twice: %s", seen)
            if spec.startswith("pair"):
                named = {float(w) for w, _ in COLORS[spec]}
            elif spec in ("red", "hex", "rgb", "rgba"):
                named = set(labels)
            else:
                named = set(labels[:len(COLORS[spec] or ("green", "red"))])
            check(set(seen) == named, "legend names %s, expected %s", seen, named)
    plt.close("all")
    ctx.step(len(labels))
    return [[round(x, 3) for x in c] for c in want]


GRID = {"none": None, "tuple": ([4.0, 8.0, 12.0], [30.0, 90.0, 200.0]), "array": np.array([[4.0, 30.0], [8.0, 90.0], [12.0, 200.0], [8.0, 300.0]]),
        "arrayT": np.array([[4.0, 8.0, 12.0, 20.0], [30.0, 90.0, 200.0, 10.0]]), "single": np.array([[8.0, 90.0]])}


def grid_points(kind, pd, wind):
    """(ws, wa, bsp) the plot is made of"""
    if wind is None:
        if kind == "table":
            t = table()
            return [(w, a, t[i][j]) for i, a in enumerate(WA_T) for j, w in enumerate(WS_T)]
        if kind == "half":
            t = table(wa=WA_H)
            return [(w, a, t[i][j]) for i, a in enumerate(WA_H) for j, w in enumerate(WS_T)]
        if kind == "cloud":
            return [tuple(map(float, p)) for p in CLOUD]
        if kind.startswith("curve"):
            return None
        return None
    if isinstance(wind, tuple):
        winds = [(w, a) for w in wind[0] for a in wind[1]]
    else:
        winds = wind.tolist() if wind.shape[1] == 2 else wind.T.tolist()
    out = []
    for w, a in winds:
        if kind.startswith("curve"):
            s = curve_val(w, a, kind == "curve_rad")
        else:
            s = float(pd(w, a))
        out.append((w, a, s))
    return out


@R.scenario(lambda t: [[k, g, c, way] for k in ("table", "half", "cloud", "curve", "curve_rad") for g in GRID for c in ("none", "two", "red", "rgb")
                       for way in ("gradient", "gradient_s", "f_gradient", "3d_s", "f_3d_s")
                       if g != "none" or not k.startswith("curve") or c == "none" and way in ("gradient", "3d_s")])
def gradient_and_points(ctx, case):
    """Colour gradient and 3d scatter plots show exactly the diagram's points."""
    kind, grid, col, way = case
    pd, _, _ = build(kind)
    wind = GRID[grid]
    keep = snapshot(pd)
    kept = None if wind is None else [np.array(w).tolist() for w in wind]
    exp = grid_points(kind, pd, wind)
    if exp is None:
        exp = [tuple(map(float, p)) for p in pd.get_points()]
        for w, a, s in exp:
            same(s, curve_val(w, a, kind == "curve_rad"), f"point at {w}, {a}", atol=1e-6)
    plt.close("all")
    kw = {} if wind is None else {"wind": wind}
    if COLORS[col] is not None:
        kw["colors"] = COLORS[col]
    three = "3d" in way
    if way.startswith("f_"):
        (hplot.scatter_3d if three else hplot.plot_color_gradient)(pd, **kw)
        ax = plt.gca()
    else:
        ax = plt.subplot(projection="hro 3d" if three else "hro color gradient")
        (ax.plot if way == "gradient" else ax.scatter)(pd, **kw)
    check(snapshot(pd) == keep, "plotting modified the diagram")
    check(kept is None or [np.array(w).tolist() for w in wind] == kept, "plotting modified the winds")
    check(len(ax.collections) == 1, "%s collections", len(ax.collections))
    c = ax.collections[0]
    colors = COLORS[col] if col in ("two",) else (("green", "red") if col == "none" else (COLORS[col],) * 2)
    if three:
        got = sorted(zip(*[np.round(np.ma.filled(np.ma.asarray(v, float)), 5).tolist() for v in c._offsets3d]))
        want = sorted((round(s * math.sin(math.radians(a)), 5) + 0.0, round(s * math.cos(math.radians(a)), 5) + 0.0, round(w, 5)) for w, a, s in exp)
        check(len(got) == len(want), "%s points drawn, %s in the diagram", len(got), len(want))
        a, b = np.array(got), np.array(want)
        for p, q, what in ((a, b, "3d point %s not of the diagram"), (b, a, "3d point %s missing")):
            dist = cKDTree(q).query(p)[0]
            check(dist.max() < 1e-4, lambda: what % p[int(np.argmax(dist))].tolist())
    else:
        off = np.asarray(c.get_offsets(), float)
        fc = c.get_facecolor()
        check(len(off) == len(exp), "%s points drawn, %s in the diagram", len(off), len(exp))
        if len(fc) == 1:
            fc = np.repeat(fc, len(off), axis=0)
        lo, hi = min(e[2] for e in exp), max(e[2] for e in exp)
        got = sorted([round(float(o[0]), 5), round(float(o[1]), 5)] + [round(float(x), 4) for x in f[:3]] for o, f in zip(off, fc))
        want = sorted([round(w, 5), round(a, 5)] + [round(x, 4) for x in mix(colors[0], colors[1], (s - lo) / (hi - lo) if hi > lo else 0)]
                      for w, a, s in exp)
        same(np.array(got), np.array(want), "points and colours", atol=2e-4)
    plt.close("all")
    ctx.step(len(exp))
    return [round(e[2], 4) for e in exp]


@R.scenario(lambda t: [[k, g, way] for k in ("table", "cloud", "curve", "curve_rad") for g in ("none", "array", "tuple") for way in ("surface", "plot", "f")])
def surface(ctx, case):
    """The surface is spanned by points of the diagram."""
    kind, grid, way = case
    pd, _, _ = build(kind)
    wind = GRID[grid]
    keep = snapshot(pd)
    kw = {} if wind is None else {"wind": wind}
    pts = [tuple(map(float, p)) for p in (pd.get_points(wind) if wind is not None else pd.get_points())]
    plt.close("all")
    if way == "f":
        hplot.plot_3d(pd, **kw)
        ax = plt.gca()
    else:
        ax = plt.subplot(projection="hro 3d")
        (ax.plot_surface if way == "surface" else ax.plot)(pd, **kw)
    check(snapshot(pd) == keep, "plotting modified the diagram")
    ref = np.array([(s * math.sin(math.radians(a)), s * math.cos(math.radians(a)), w) for w, a, s in pts])
    n = 0
    tree = cKDTree(ref)
    for c in ax.collections:
        vec = getattr(c, "_vec", None)
        if vec is None:
            continue
        for v in np.asarray(vec)[:3].T:
            n += 1
            check(tree.query(v)[0] < 1e-6, "surface vertex %s is no point of the diagram", v)
    if grid == "none":
        check(n > 0, "no surface drawn")
    plt.close("all")
    ctx.step(n)
    return n


@R.scenario([[w, b] for w in ("polar", "flat") for b in ("lines", "points")])
def ordinary_data(ctx, case):
    """Other data are plotted as by the usual axes; a second diagram is added to the first."""
    way, b = case
    plt.close("all")
    ax = plt.subplot(projection="hro " + way)
    if b == "lines":
        ax.plot([0.1, 0.2, 0.3], [1.0, 2.0, 4.0])
        same(ax.lines[0].get_xdata(), [0.1, 0.2, 0.3], "x")
        same(ax.lines[0].get_ydata(), [1.0, 2.0, 4.0], "y")
    else:
        ax.scatter([0.1, 0.2, 0.3], [1.0, 2.0, 4.0])
        same(np.asarray(ax.collections[0].get_offsets()), [[0.1, 1.0], [0.2, 2.0], [0.3, 4.0]], "offsets")
    plt.close("all")
    ax = plt.subplot(projection="hro " + way)
    for k, w in (("table", 8.0), ("cloud", 4.0), ("half", 12.0), ("sails", 20.0)):
        pd, points, _ = build(k)
        (ax.plot if b == "lines" else ax.scatter)(pd, ws=w, colors="red")
        pts, _ = drawn(ax, b == "points", way == "polar")[-1]
        match(pts, points(w), f"{k} at {w}", gaps=b == "lines")
    check(len(drawn(ax, b == "points", way == "polar")) == 4, "one line per diagram")
    plt.close("all")
