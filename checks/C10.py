"""C10: saving a polar diagram and reading it back loses nothing."""
import itertools
import os
import pathlib
import shutil

import numpy as np

from hrosailing.core import modelfunctions as mf
from hrosailing.core.exceptions import FileReadingException
from hrosailing.polardiagram import (
    PolarDiagramCurve,
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
    from_csv,
)
from vf.core import Registry, check, raises

ID = "C10"
ASSUMPTIONS = ["curves of the library's model functions (a function is stored by its name)",
               "sail names without line breaks; sails that can be saved themselves"]
R = Registry()


def fresh_dir():
    d = os.path.join(os.environ["VF_SCRATCH"], "c10")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def content(pd):
    """Everything a diagram consists of, as plain values."""
    if isinstance(pd, PolarDiagramTable):
        return ["table", pd.wind_speeds.tolist(), pd.wind_angles.tolist(), pd.boat_speeds.tolist()]
    if isinstance(pd, PolarDiagramPointcloud):
        return ["cloud", np.asarray(pd.points, dtype=float).tolist()]
    if isinstance(pd, PolarDiagramCurve):
        return ["curve", pd.curve.__name__, bool(pd.radians), [float(p) for p in pd.parameters]]
    return ["sails", list(pd.sails), [content(d) for d in pd.diagrams]]


def equal(got, exp, what):
    g, e = content(got), content(exp)
    check(g == e, "%s: read %s, written %s", what, g, e)


def same_answers(got, exp, what):
    for s in (4.0, 7.3, 11.0):
        for a in (33.0, 120.0, 250.0):
            if isinstance(exp, PolarDiagramTable) or isinstance(exp, PolarDiagramCurve):
                x, y = float(got(s, a)), float(exp(s, a))
                check(x == y or abs(x - y) <= 1e-9 * abs(y), "%s: evaluates to %s, written one to %s", what, x, y)


VALUES = {
    "plain": [3.74, 4.48, 4.96, 5.27, 5.47, 5.66],
    "tiny": [1e-12, 2.5e-7, 0.1 + 0.2, 1 / 3, 1e-300, 0.0],
    "large": [1e6, 123456789.123, 1e22, 7.0, 99.99999999999999, 12345.0],
    "zero": [0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    "negative": [-1.5, -0.25, 2.0, -1e-9, 3.0, -4.0],
}
WS = {"one": [6.0], "two": [6, 8], "frac": [0.1 + 0.2, 7.123456789012345, 10.5], "zero": [0.0, 12.0], "many": list(range(1, 31))}
WA = {"one": [52.0], "two": [45, 90], "frac": [1 / 3, 359.9999999999, 100.1], "zero": [0.0, 180.0, 270.0], "many": list(range(0, 360, 5))}


@R.scenario(lambda t: [[s, a, v, f] for s in WS for a in WA for v in VALUES for f in ("hro", "orc", "opencpn", "array")])
def tables(ctx, case):
    """Tables of all sizes and values through every format."""
    s, a, v, fmt = case
    ws, wa = WS[s], WA[a]
    vals = VALUES[v]
    pd = PolarDiagramTable(ws, wa, [[vals[(i + 2 * j) % 6] for j in range(len(ws))] for i in range(len(wa))])
    before = content(pd)
    path = os.path.join(fresh_dir(), "t.csv")
    pd.to_csv(path, fmt=fmt) if fmt != "hro" or len(ws) % 2 else pd.to_csv(path)
    back = from_csv(path, fmt=fmt) if fmt != "hro" or len(ws) % 2 else from_csv(path)
    check(type(back) is PolarDiagramTable, "kind %s", type(back))
    equal(back, pd, fmt)
    check(content(pd) == before, "saving changed the diagram")
    if s == "frac" and a == "frac":
        same_answers(back, pd, fmt)
    with open(path, "rb") as fh:
        first = fh.read()
    back.to_csv(path, fmt=fmt)
    with open(path, "rb") as fh:
        check(fh.read() == first, "saving the read diagram again gives another file")
    ctx.step()


@R.scenario(lambda t: [[f] for f in ("hro", "orc", "opencpn", "array")])
def default_tables(ctx, case):
    """The default resolutions and a changed default table."""
    path = os.path.join(fresh_dir(), "t.csv")
    for pd in (PolarDiagramTable(), PolarDiagramTable(3, 7)):
        pd.change_entries(5.125, ws=pd.wind_speeds[3], wa=pd.wind_angles[11])
        pd.to_csv(path, fmt=case[0])
        equal(from_csv(path, fmt=case[0]), pd, case[0])
        ctx.step()


POINTS = [[6.0, 52.0, 3.74], [0.1 + 0.2, 1 / 3, 1e-7], [12.0, 359.99, 123456.789], [0.0, 0.0, 0.0],
          [6.0, 52.0, 3.75], [30.5, 181.0, -1.25], [1e-9, 90.0, 1e22]]


@R.scenario(lambda t: [list(c) for n in (1, 2, 3) for c in itertools.permutations(range(len(POINTS)), n)] + [list(range(7)) * 20])
def clouds(ctx, case):
    """Clouds of any points in any order."""
    pd = PolarDiagramPointcloud([POINTS[i] for i in case])
    path = os.path.join(fresh_dir(), "c.csv")
    pd.to_csv(path)
    back = from_csv(path)
    check(type(back) is PolarDiagramPointcloud, "kind %s", type(back))
    g, e = sorted(np.asarray(back.points).tolist()), sorted(np.asarray(pd.points).tolist())
    check(g == e, "read %s, written %s", g, e)
    ctx.step()


NPAR = {"ws_times_wa": 1, "ws_concave_dt_wa": 11, "ws_wa_s_dt": 14, "ws_s_dt_wa_gauss": 10,
        "ws_s_s_dt_wa_gauss_comb": 12, "ws_s_wa_gauss": 9, "ws_s_wa_gauss_and_square": 10}


@R.scenario(lambda t: [[m, r, k] for m in NPAR for r in (True, False) for k in ("int", "float", "numpy", "extreme")])
def curves(ctx, case):
    """Curves of every model function with all kinds of parameters."""
    m, r, k = case
    n = NPAR[m]
    p = [i + 1 for i in range(n)] if k == "int" else [0.1 * (i + 1) + 1e-13 for i in range(n)]
    if k == "numpy":
        p = list(np.array(p))
    if k == "extreme":
        p = [(-1) ** i * 10.0 ** (3 - 2 * i) for i in range(n)]
    pd = PolarDiagramCurve(getattr(mf, m), *p, radians=r)
    path = os.path.join(fresh_dir(), "f.csv")
    pd.to_csv(path)
    back = from_csv(path)
    check(type(back) is PolarDiagramCurve, "kind %s", type(back))
    equal(back, pd, m)
    if k == "float":
        same_answers(back, pd, m)
    ctx.step()


def sail(k):
    if k == "t":
        return PolarDiagramTable([6.0, 8.0], [45.0, 90.0], [[1.5, 2.0], [3.0, 4.25]])
    if k == "u":
        return PolarDiagramTable([6.0], [30.0, 150.0], [[9.5], [8.0]])
    if k == "c":
        return PolarDiagramPointcloud(POINTS[:3])
    return PolarDiagramCurve(mf.ws_s_dt_wa_gauss, *[0.5 + i for i in range(10)], radians=k == "r")


NAMES = ["Genua", "Spi: 2,5", 'the "big" one', "Sail 7", "", "J#1; ü"]


@R.scenario(lambda t: [[list(c), o] for n in range(1, (5 if t == "quick" else 6)) for c in itertools.permutations("tucfr", n) for o in (0, 1, 2)]
            + [[["t", "u"] * 6, 0], [["u", "t", "c", "f"] * 4, 1]])
def multi_sails(ctx, case):
    """Every sail keeps its diagram and its name."""
    kinds, off = case
    pds = [sail(k) for k in kinds]
    names = None if off == 2 else [NAMES[(i + 3 * off) % 6] + (str(i) if i > 5 else "") for i in range(len(kinds))]
    ms = PolarDiagramMultiSails(pds, names)
    d = fresh_dir()
    path = os.path.join(d, "my.boat" if len(kinds) == 2 else "boats", "boat.csv")
    os.makedirs(os.path.dirname(path))
    ms.to_csv(path if off else pathlib.Path(path))
    back = from_csv(path if off else pathlib.Path(path))
    check(type(back) is PolarDiagramMultiSails, "kind %s", type(back))
    equal(back, ms, "multi sails")
    stray = [f for f in os.listdir(d) if f not in ("my.boat", "boats")]
    check(not stray, "files written elsewhere: %s", stray)
    # the directory can be moved as a whole
    new = os.path.join(d, "moved")
    os.rename(os.path.dirname(path), new)
    equal(from_csv(os.path.join(new, "boat.csv")), ms, "moved multi sails")
    ctx.step(2)


# ---------------------------------------------------------------- histories
DIAGRAMS = {
    "T": lambda: sail("t"), "U": lambda: sail("u"), "C": lambda: sail("c"), "F": lambda: sail("f"),
    "M": lambda: PolarDiagramMultiSails([sail("t"), sail("u")], ["a", "b"]),
    "N": lambda: PolarDiagramMultiSails([sail("u")], ["c"]),
    "O": lambda: PolarDiagramMultiSails([sail("f"), sail("c"), sail("t")]),
}
PATHS = ["x.csv", "y.csv", os.path.join("sub.d", "x.csv")]
OPS = [["save", d, p] for d in DIAGRAMS for p in range(3)] + [["badfmt", "T", p] for p in range(3)]


class Disk:
    def __init__(self):
        self.dir = fresh_dir()
        os.mkdir(os.path.join(self.dir, "sub.d"))

    def path(self, p, kind):
        full = os.path.join(self.dir, PATHS[p])
        return pathlib.Path(full) if kind else full


def make(_):
    return Disk(), {}


def apply(disk, files, op):
    path = disk.path(op[2], op[0] == "save" and op[1] in "MTC")
    if op[0] == "badfmt":
        raises((NotImplementedError, ValueError), lambda: DIAGRAMS["T"]().to_csv(path, fmt="xlsx"), "unknown format")
        return disk, files
    DIAGRAMS[op[1]]().to_csv(path)
    return disk, {**files, op[2]: op[1]}


def compare(disk, files):
    for p in range(3):
        if p in files:
            for kind in (0, 1):
                equal(from_csv(disk.path(p, kind)), DIAGRAMS[files[p]](), f"file {PATHS[p]}")
        else:
            raises(OSError, lambda: from_csv(disk.path(p, 0)), "missing file")


R.history("disk_histories", lambda t: [0], lambda t: OPS, lambda t: 4 if t == "thorough" else 3,
          make, apply, compare, canon=lambda m: sorted(m.items()))


@R.scenario([["T"], ["M"]])
def relative_paths(ctx, case):
    """Relative paths refer to the working directory."""
    old = os.getcwd()
    d = fresh_dir()
    try:
        os.chdir(d)
        pd = DIAGRAMS[case[0]]()
        pd.to_csv("boat.csv")
        equal(from_csv("boat.csv"), pd, "relative path")
        equal(from_csv(os.path.join(d, "boat.csv")), pd, "absolute path")
        os.mkdir("deep")
        os.chdir("deep")
        equal(from_csv(os.path.join("..", "boat.csv")), pd, "path to the parent")
        check(os.listdir(".") == [], "files written into another directory")
    finally:
        os.chdir(old)
    ctx.step(3)


@R.scenario([["boat.1.csv", "boat.2.csv"], ["boat1.csv", "boat2.csv"], ["a.csv", "b.csv"], ["boat", "boot"], ["x_sail.csv", "x.csv"]])
def neighbours(ctx, case):
    """Two multi-sail diagrams next to each other stay apart."""
    d = fresh_dir()
    one, two = DIAGRAMS["M"](), PolarDiagramMultiSails([sail("u"), sail("c")], ["p", "q"])
    p, q = (os.path.join(d, f) for f in case)
    one.to_csv(p)
    two.to_csv(q)
    equal(from_csv(q), two, f"{case[1]}")
    equal(from_csv(p), one, f"{case[0]} after saving {case[1]}")
    ctx.step(2)


# ------------------------------------------------------------ foreign files
FILES = {
    "orc": "twa/tws;6;8;10\n0;0;0;0\n52°;3.74;4.48;4.96\n60;3.98;;5.18\n0;0;0;0\n",
    "opencpn": "TWA\\TWS,6,8,10\n52,3.74,4.48,4.96\n60,3.98,,5.18\n0,0,0,0\n",
    "array": "TWA\\TWS\t6\t8\t10\n52\t3.74\t4.48\t4.96\n60\t3.98\t0\t5.18\n0\t0\t0\t0\n",
    "hro": "PolarDiagramTable\nTWS\n6,8,10\nTWA\n52,60,0\nBSP\n3.74,4.48,4.96\n3.98,0,5.18\n0,0,0\n",
}


@R.scenario([[f, nl] for f in FILES for nl in ("\n", "\r\n")])
def foreign(ctx, case):
    """Files of the supported layouts are read into exactly their values."""
    fmt, nl = case
    path = os.path.join(fresh_dir(), "f.csv")
    with open(path, "w", newline="", encoding="utf-8") as fh:
        fh.write(FILES[fmt].replace("\n", nl))
    got = content(from_csv(path, fmt=fmt))
    exp = ["table", [6.0, 8.0, 10.0], [0.0, 52.0, 60.0], [[0.0, 0.0, 0.0], [3.74, 4.48, 4.96], [3.98, 0.0, 5.18]]]
    check(got == exp, "read %s, the file says %s", got, exp)
    ctx.step()


def plain_reader(text, fmt):
    """Values of a file by the layouts of FILES: wind speeds, angles, boat speeds."""
    lines = text.replace("\r\n", "\n").split("\n")
    check(lines.pop() == "" and "" not in lines, "blank or unfinished line in %s", text)
    if fmt == "hro":
        check(lines[0] == "PolarDiagramTable" and [x.split(",")[0].strip(": ") for x in (lines[1], lines[3], lines[5])] == ["TWS", "TWA", "BSP"], "headings of %s", text)
        nums = [[float(x) for x in line.split(",")] for line in [lines[2], lines[4]] + lines[6:]]
        return nums[0], nums[1], nums[2:]
    rows = [line.split({"orc": ";", "opencpn": ",", "array": "\t"}[fmt]) for line in lines]
    check("twa" in rows[0][0].lower() and "tws" in rows[0][0].lower(), "heading %s", rows[0])
    ws = [float(x) for x in rows[0][1:]]
    if fmt == "orc":
        check([float(x) for x in rows[1]] == [0.0] * (len(ws) + 1), "second line %s", rows[1])
        del rows[1]
    nums = [[float(x) for x in row] for row in rows[1:]]
    return ws, [row[0] for row in nums], [row[1:] for row in nums]


@R.scenario(lambda t: [[s, a, v, f] for s in WS for a in WA for v in VALUES for f in FILES])
def written(ctx, case):
    """Saved tables have the layout and values other programs expect."""
    s, a, v, fmt = case
    ws, wa = WS[s], WA[a]
    vals = VALUES[v]
    pd = PolarDiagramTable(ws, wa, [[vals[(i + 2 * j) % 6] for j in range(len(ws))] for i in range(len(wa))])
    path = os.path.join(fresh_dir(), "t.csv")
    pd.to_csv(path, fmt=fmt)
    with open(path, newline="", encoding="utf-8") as fh:
        got = plain_reader(fh.read(), fmt)
    want = (list(map(float, pd.wind_speeds)), list(map(float, pd.wind_angles)), pd.boat_speeds.tolist())
    check(got[0] == want[0] and got[1] == want[1] and [list(r) for r in got[2]] == want[2], "%s file holds %s instead of %s", fmt, got, want)
    ctx.step()
    return fmt


@R.scenario([["unknown", 0], ["function", 0], ["missing", 0], ["format", 0]] + [["cut", i] for i in range(9)] + [["word", i] for i in range(9)])
def refused(ctx, case):
    """Malformed or unsupported files are refused."""
    kind, i = case
    path = os.path.join(fresh_dir(), "f.csv")

    def write(text):
        with open(path, "w", newline="", encoding="utf-8") as fh:
            fh.write(text)

    if kind == "unknown":
        for head in ("PolarDiagram\n", "\n", "", "polardiagramtable\n", "PolarDiagramTables\n", "xPolarDiagramTable\n"):
            write(head + FILES["hro"].split("\n", 1)[1])
            raises(FileReadingException, lambda: from_csv(path), f"file of kind {head!r}")
    elif kind == "function":
        write("PolarDiagramCurve\nFunction:no_such\nRadians:False\nParameters:1:2\n")
        raises(Exception, lambda: from_csv(path), "unknown model function")
    elif kind == "missing":
        raises(OSError, lambda: from_csv(path), "missing file")
    elif kind == "format":
        write(FILES["hro"])
        for fmt in ("HRO", "csv", "", "xlsx"):
            raises(ValueError, lambda: from_csv(path, fmt=fmt), f"format {fmt!r}")
    else:
        lines = FILES["hro"].splitlines()
        if kind == "cut":
            del lines[i]
        else:
            lines[i] = ",".join(["abc"] + lines[i].split(",")[1:])
            if i in (1, 3, 5):  # labels carry no data
                return
        write("\n".join(lines) + "\n")
        raises(Exception, lambda: from_csv(path), f"table file with line {i} broken")
    ctx.step()


@R.scenario(lambda t: [[f, m, o] for f in ("orc", "opencpn") for m in range(64) for o in range(6)])
def foreign_gaps(ctx, case):
    """Every pattern of missing boat speeds, the angles in every order."""
    fmt, mask, order = case
    sep = ";" if fmt == "orc" else ","
    rows = list(itertools.permutations([0, 1, 2]))[order]
    was, wss = [38.5, 52.0, 120.0], [6.0, 9.5]
    bsp = [[0.0 if mask >> (2 * i + j) & 1 else 1.25 + i + j / 8 for j in range(2)] for i in range(3)]
    text = sep.join(["twa/tws" if fmt == "orc" else "TWA\\TWS", "6", "9.5"]) + "\n"
    if fmt == "orc":
        text += "0;0;0\n"
    for i in rows:
        text += sep.join([str(was[i]) + ("°" if i == 1 and fmt == "orc" else "")]
                         + ["" if mask >> (2 * i + j) & 1 else str(bsp[i][j]) for j in range(2)]) + "\n"
    path = os.path.join(fresh_dir(), "f.csv")
    with open(path, "w", newline="", encoding="utf-8") as fh:
        fh.write(text)
    got = content(from_csv(path, fmt=fmt))
    check(got == ["table", wss, was, bsp], "read %s from %r", got, text)
    ctx.step()


@R.scenario([[k, n] for k in ("hro", "orc", "opencpn", "array", "cloud", "sails", "names") for n in (11, 64, 101, 257)]
            + [["cloud", 1003], ["cloud", 2500]] + [[k, -n] for k in ("hro", "orc", "opencpn", "array") for n in (300, 600, 1300, 2700)])
def large_diagrams(ctx, case):
    """Diagrams of any size are saved completely and in full precision."""
    kind, n = case
    path = os.path.join(fresh_dir(), "big.csv")
    if kind in ("cloud",):
        pd = PolarDiagramPointcloud([[2 + i / 7, (i * 137.5077) % 360, 10 * np.sin(i)] for i in range(n)])
    elif kind == "sails":
        pd = PolarDiagramMultiSails([PolarDiagramTable([6.0 + i / 3], [45.0], [[i / 7]]) for i in range(min(n, 101))])
    elif kind == "names":
        pd = PolarDiagramMultiSails([sail("t")], ["n" * n])
    else:
        n, m = (n, 73) if n > 0 else (3, -n)  # wide or tall
        ws = [2 + i / 3 for i in range(n)]
        wa = [(360 / m) * i for i in range(m)]
        pd = PolarDiagramTable(ws, wa, [[10 * np.sin(i + 3 * j) for j in range(n)] for i in range(m)])
    if kind in ("orc", "opencpn", "array"):
        pd.to_csv(path, fmt=kind)
        back = from_csv(path, fmt=kind)
    else:
        pd.to_csv(path)
        back = from_csv(path)
    check(content(back) == content(pd), "a %s diagram of size %d comes back different", kind, n)
    ctx.step()
