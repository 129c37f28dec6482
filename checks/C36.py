"""C36: the text form of diagrams, recorded data and directions shows their values."""
import itertools
import re

import numpy as np

from hrosailing.core.data import Data
from hrosailing.cruising import Direction, convex_direction
from hrosailing.polardiagram import (
    PolarDiagramMultiSails,
    PolarDiagramPointcloud,
    PolarDiagramTable,
)
from vf.core import Registry, check

ID = "C36"
ASSUMPTIONS = [
    "the text is read as columns of numbers; padding, rulers and wording around the numbers are not compared",
    "tables of more than 15 wind speeds show the first and the last five, records of at least 10 entries the first and last five",
]
R = Registry()
WSS = {
    "small": lambda n: [float(2 * i + 2) for i in range(n)],
    "fractions": lambda n: [0.5 + 1.75 * i for i in range(n)],
    "wide": lambda n: [0.25 + 12.5 * i for i in range(n)],
}
WAS = [[0.0], [45.0, 90.0], [0.0, 52.25, 110.5, 359.75], [30.0, 60.0, 120.0, 180.0, 181.5]]


def near(shown, value, digits):
    return re.fullmatch(r"-?\d+\.\d{%d}" % digits, shown) is not None and abs(float(shown) - value) <= 0.5 * 10 ** -digits + 1e-9


def bsp(i, j, kind):
    v = ((7 * i + 3 * j + i * j * j) % 23) * 1.37 + 0.004 * j
    return v * {"plain": 1, "tiny": 0.01, "large": 9.0, "signed": (-1) ** (i + j)}[kind]


def shown_columns(n):
    return list(range(n)) if n <= 15 else list(range(5)) + list(range(n - 5, n))


def read_table(text, ws, was, values, label):
    """Compare the printed table with the given values; return its lines."""
    lines = text.split("\n")
    check(lines[-1] == "", "%s: no line end after the last row", label)
    lines = lines[:-1]
    check(len(lines) == len(was) + 2, "%s: %s lines for %s angles", label, len(lines), len(was))
    cols = shown_columns(len(ws))
    cut = len(cols) < len(ws)

    def split(line, skip):
        parts = line.split()[skip:]
        if cut:
            check(len(parts) > 5 and parts[5] == "...", "%s: no gap in %s", label, line)
            del parts[5]
        check(len(parts) == len(cols), "%s: %s entries in %s", label, len(parts), line)
        check("..." not in parts, "%s: gap in %s", label, line)
        return parts

    check(lines[0].split()[:3] == ["TWA", "/", "TWS"], "%s: header %s", label, lines[0])
    for text_, c in zip(split(lines[0], 3), cols):
        check(near(text_, ws[c], 1), "%s: wind speed %s shown as %s", label, ws[c], text_)
    check(set(lines[1]) <= set("+ "), "%s: ruler %s", label, lines[1])
    ends = [[m.end() for m in re.finditer(r"\S+", line)][-len(cols):] for line in [lines[0]] + lines[2:]]
    check(all(e == ends[0] for e in ends), "%s: columns not below one another: %s", label, ends)
    for line, wa, row in zip(lines[2:], was, values):
        check(near(line.split()[0], wa, 1), "%s: wind angle %s in %s", label, wa, line)
        for text_, c in zip(split(line, 1), cols):
            check(near(text_, row[c], 2), "%s: boat speed %s at (%s, %s) shown as %s", label, row[c], ws[c], wa, text_)


def read_cloud(text, pts, label):
    lines = text.split("\n")
    check(lines[0].split() == ["TWS", "TWA", "BSP"] and lines[-1] == "", "%s: header %s", label, lines[0])
    check(len(lines) == len(pts) + 3, "%s: %s lines for %s points", label, len(lines), len(pts))
    for line, pt in zip(lines[2:], pts):
        parts = line.split()
        check(len(parts) == 3 and all(near(a, b, 2) for a, b in zip(parts, pt)), "%s: point %s shown as %s", label, pt, line)


@R.scenario(lambda t: [[n, k, w, b] for n in [*range(1, 80 if t == "thorough" else 44), 50, 64, 99, 100, 101, 150, 257] for k in range(len(WAS)) for w in WSS for b in ("plain", "tiny", "large", "signed")])
def table(ctx, case):
    """Tables of every width."""
    n, k, w, b = case
    ws, was = WSS[w](n), WAS[k]
    values = [[bsp(i, j, b) for j in range(n)] for i in range(len(was))]
    pd = PolarDiagramTable(ws, was, values)
    read_table(str(pd), ws, was, values, case)
    ctx.step()
    values[0][-1] = 5.55
    pd.change_entries(5.55, ws=ws[-1], wa=was[0])
    read_table(str(pd), ws, was, values, f"{case} after a change")
    ctx.step()
    return str(pd)[:60]


CLOUD = [[0.0, 0.0, 0.0], [5.123, 45.678, 3.999], [10.0, 359.99, 12.345], [99.99, 180.0, 100.5], [0.004, 7.5, 0.006], [6.0, 300.0, -0.75]]


@R.scenario(lambda t: [[list(p)] for r in range(0, 5 if t == "quick" else 6) for p in itertools.permutations(range(len(CLOUD)), r)])
def cloud(ctx, case):
    pts = [CLOUD[i] for i in case[0]]
    pd = PolarDiagramPointcloud(pts) if pts else PolarDiagramPointcloud(np.empty((0, 3)))
    read_cloud(str(pd), pts, case)
    pd.add_points([[3.25, 33.5, 3.75]])
    read_cloud(str(pd), pts + [[3.25, 33.5, 3.75]], f"{case} after a point was added")
    ctx.step(2)
    return case


PARTS = {"short": lambda: (WSS["small"](3), WAS[1]), "fractions": lambda: (WSS["fractions"](2), WAS[2]), "long": lambda: (WSS["wide"](17), WAS[1])}


@R.scenario(lambda t: [[list(p), named] for r in (1, 2, 3) for p in itertools.product(PARTS, repeat=r) for named in (0, 1, 2)])
def multi(ctx, case):
    """Each sail's name heads its own table."""
    parts, named = case
    tables = []
    for s, name in enumerate(parts):
        ws, was = PARTS[name]()
        tables.append((ws, was, [[bsp(i + s, j, "plain") for j in range(len(ws))] for i in range(len(was))]))
    names = [["Genoa", "storm jib", "Spi 2"][i] for i in range(len(parts))]
    pds = [PolarDiagramTable(*t) for t in tables]
    pd = PolarDiagramMultiSails(pds, names) if named == 1 else PolarDiagramMultiSails(pds, names[:1]) if named == 2 else PolarDiagramMultiSails(pds)
    expected = names if named == 1 else [names[0]] + [None] * (len(parts) - 1) if named == 2 else [None] * len(parts)
    rest = str(pd)
    for s, (want, t) in enumerate(zip(expected, tables)):
        head, rest = rest.split("\n", 1)
        check(head == str(pd.sails[s]) and (want is None or head == want), "%s: sail %s headed %s", case, s, head)
        lines = rest.split("\n")
        body = "\n".join(lines[:len(t[1]) + 2]) + "\n"
        read_table(body, *t, f"{case}: sail {s}")
        rest = "\n".join(lines[len(t[1]) + 2:]).lstrip("\n")
        ctx.step()
    check(rest == "", "%s: more text %s", case, rest)
    return case


@R.scenario(lambda t: [[n, m] for n in range(0, 60 if t == "quick" else 200) for m in (0, 1, 3)])
def data(ctx, case):
    """Records list their fields, types and entries."""
    n, m = case
    d = Data()
    fields = {"BSP": [0.5 + 1.25 * i for i in range(n)], "name": [f"n{i}" for i in range(max(n - m, 0))], "count": list(range(100, 100 + n))}
    fields = {k: v for k, v in fields.items() if v}
    d.update({k: list(v) for k, v in fields.items()})
    longest = max([len(v) for v in fields.values()], default=0)
    text = str(d)
    heads = [line for line in text.split("\n") if line.startswith("Data field")]
    check(len(heads) == len(fields), "%s: %s fields shown", case, len(heads))
    blocks = dict(zip(fields, re.split(r"Data field[^\n]*\n", text)[1:]))
    for (k, v), head in zip(fields.items(), heads):
        check(k in head and type(v[0]).__name__ in head, "%s: field %s headed %s", case, k, head)
        want = [str(x) for x in v] + ["None"] * (longest - len(v))
        got = [x.strip(" '[]\t\n") for x in blocks[k].replace("...", ",...").split(",")]
        got = [x for x in got if x]
        if longest >= 10:
            want = want[:5] + ["..."] + want[-5:]
        check(got == want, "%s: field %s shown as %s", case, k, got)
        ctx.step()
    return case


@R.scenario([[a, p, s] for a in (0, 45, 52.5, 180.0, 315.25) for p in (0.0, 0.25, 0.5, 1) for s in (None, "Genoa", "Spi 2")])
def direction(ctx, case):
    """A direction's text tells its angle, its share of the time and its sail."""
    a, p, s = case
    text = str(Direction(a, p, s))
    numbers = [float(x) for x in re.findall(r"\d+(?:\.\d+)?", text.replace(s or "Spi 2", ""))]
    check(numbers == [float(a), 100.0 * p], "%s: %s", case, text)
    check(("Genoa" in text) == (s == "Genoa") and ("Spi 2" in text) == (s == "Spi 2") and "None" not in text, "%s: %s", case, text)
    ctx.step()
    return text


@R.scenario([[d] for d in range(0, 360, 15)])
def recommended(ctx, case):
    """The texts of computed recommendations agree with them."""
    ws, was = [10.0], [0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0]
    one = PolarDiagramTable(ws, was, [[v] for v in (0, 5, 6, 5.5, 4, 5.5, 6, 5)])
    other = PolarDiagramTable(ws, was, [[v] for v in (0, 3, 5, 7, 6, 7, 5, 3)])
    for pd in (one, PolarDiagramMultiSails([one, other], ["jib", "spi"])):
        for step in convex_direction(pd, 10.0, case[0]):
            text = str(step)
            numbers = [float(x) for x in re.findall(r"\d+(?:\.\d+)?(?:e-?\d+)?", text)]
            check(len(numbers) == 2 and abs(numbers[0] - step.angle) < 1e-9 and abs(numbers[1] - 100 * step.proportion) < 1e-9, "%s: %s for %s", case, text, repr(step))
            check((step.sail in text) if step.sail else "hissing" not in text, "%s: %s for %s", case, text, repr(step))
            ctx.step()
    return case


LONG = ["Genoa, reefed twice in the last hour", "x" * 13, "entry number one hundred", "y" * 200, "", "é", "n" * 12, "0123456789012345678901234567890"]


@R.scenario([[n, k, f] for n in (1, 9, 10, 11, 40, 1500) for k in ("text", "float", "int", "time", "field") for f in range(4)])
def long_entries(ctx, case):
    """Entries and names of any length are shown completely."""
    from datetime import datetime, timedelta

    n, kind, off = case
    vals = {
        "text": [LONG[(i + off) % len(LONG)] for i in range(n)],
        "float": [((-1) ** i) * (1 / 3 + i) * 10.0 ** ((i + off) % 23 - 11) for i in range(n)],
        "int": [(i + 1) * 10 ** ((i + off) % 20) for i in range(n)],
        "time": [datetime(2020, 1, 1, 12, 30, 15, 123456) + timedelta(seconds=i * 7.25 + off) for i in range(n)],
        "field": [1.5] * n,
    }[kind]
    name = "a field with a rather long name, number %d" % off if kind == "field" else "f"
    text = str(Data.from_dict({name: list(vals), "z": [1] * n}))
    check(f"'{name}'" in text.split("\n")[0], "name shown as %s", text[:60])
    line = text.split("\n")[1]
    if n < 10:
        want = str(vals)
        check(line.strip() == want, "%s: shown as %s", case, line)
    else:
        for v in vals[:5] + vals[-5:]:
            check(line.count(str(v)) >= [str(x) for x in vals[:5] + vals[-5:]].count(str(v)), "%s: entry %s not shown in %s", case, v, line)
    ctx.step()


@R.scenario([[n, d, w] for n in (1, 15, 16, 40, 100, 300) for d in (1, 30, 120) for w in (0, 1, 2)])
def wide_tables(ctx, case):
    """Tables of many angles and of numbers of any size."""
    n, m, w = case
    ws = [[0.1 * (i + 1), 5.0 + 30 * i, 0.04 + 1.5 * i][w] for i in range(n)]
    was = [(360 / m) * i for i in range(m)]
    values = [[((i * 31 + j * 7) % 60) * [0.001, 1.2345, 12.345678][(i + j) % 3] for j in range(n)] for i in range(m)]
    read_table(str(PolarDiagramTable(ws, was, values)), ws, was, values, case)
    pts = [[ws[i % n], was[i % m], values[i % m][i % n]] for i in range(max(n, m))]
    read_cloud(str(PolarDiagramPointcloud(pts)), pts, case)
    ctx.step(2)
