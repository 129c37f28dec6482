"""C28: data handlers keep every recorded value in order."""
import importlib
import itertools
import os
import sys
from datetime import date, datetime, time, timedelta

import numpy as np
import pandas as pd

from hrosailing.core.data import Data
from hrosailing.processing.datahandler import ArrayHandler, CsvFileHandler, NMEAFileHandler
from vf.core import Registry, check, close, raises

ID = "C28"
ASSUMPTIONS = [
    "files consist of well-formed NMEA sentences of types pynmea2 knows; fields may be empty",
    "csv columns hold numbers or dates in the given format; names are distinct",
    "the time zone of a time of day is not compared",
    "a row with date but no time (or vice versa) has no datetime (C02)",
]
R = Registry()


def import_without_pandas():
    """The handlers as they are imported where pandas is not installed."""
    kept = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "hrosailing" or m.startswith("hrosailing.")}
    pandas = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "pandas" or m.startswith("pandas.")}
    try:
        sys.modules["pandas"] = None
        handlers = importlib.import_module("hrosailing.processing.datahandler")
        data = importlib.import_module("hrosailing.core.data")
        return handlers.CsvFileHandler, handlers.ArrayHandler, data.Data
    finally:
        for m in [m for m in sys.modules if m == "hrosailing" or m.startswith("hrosailing.") or m == "pandas"]:
            del sys.modules[m]
        sys.modules.update(kept)
        sys.modules.update(pandas)


PlainCsvFileHandler, PlainArrayHandler, PlainData = import_without_pandas()
FLOATS = (float, date, time, datetime)


def aligned(d, n, what):
    check(isinstance(d, (Data, PlainData)), f"{what}: result is {type(d)}")
    check(d.n_rows == n, f"{what}: {d.n_rows} rows, expected {n}")
    for k in d.keys():
        check(len(d[k]) == n, f"{what}: column {k} has {len(d[k])} entries, expected {n}")


def eq(g, w):
    if w is None or g is None:
        return g is None and w is None
    if isinstance(w, (int, float)) and not isinstance(w, bool):
        return isinstance(g, float) and close(g, float(w), rtol=1e-12, atol=0)
    if isinstance(w, time):
        return isinstance(g, time) and g.replace(tzinfo=None) == w
    if isinstance(w, datetime):
        return isinstance(g, datetime) and g.replace(tzinfo=None) == w
    return g == w


def column(d, k, want, what):
    check(k in d, f"{what}: column {k} missing, there are {d.keys()}")
    got = list(d[k])
    check(len(got) == len(want) and all(map(eq, got, want)), f"{what}: {k} is {got}, recorded {want}")


# ---- NMEA --------------------------------------------------------------------
def dm(v, w):
    """Degrees as NMEA (d)ddmm.mmmm text."""
    m = round((v - int(v)) * 60, 5)
    return f"{int(v):0{w}d}{m:08.5f}"


def hms(t):
    return t.strftime("%H%M%S") + (f".{t.microsecond // 10000:02d}" if t.microsecond else "")


def sentence(kind, i):
    """Text of a sentence and its fields [(NMEA attribute, value)]."""
    a, s = 10.0 + 7 * i, 3.5 + i / 2
    lat, lon = 40 + i + 15.12345 / 60, 100 + 2 * i + (30.5 - 0.00007 * i) / 60
    t, d = time(5 + i, 2 * i, 3 * i), date(2021, 3, 4 + i)
    if kind[:3] == "MWV":
        ref, angle = kind[3], a if len(kind) < 5 else None
        body = f"IIMWV,{'' if angle is None else angle},{ref},{s},N,A"
        return body, [("Wind angle", angle), ("Reference", ref), ("Wind speed", s), ("Wind speed units", "N"), ("Status", "A")]
    if kind[:3] == "GLL":
        ns, ew = kind[3], kind[4]
        sig = (-1 if ns == "S" else 1) * lat, (-1 if ew == "W" else 1) * lon
        if kind[5:] == "0":
            body, sig, ns, ew = f"GPGLL,,,,,{hms(t)},V,N", (None, None), None, None
            return body, [("Latitude", None), ("Latitude Direction", None), ("Longitude", None), ("Longitude Direction", None), ("Timestamp", t), ("Status", "V"), ("FAA mode indicator", "N")]
        body = f"GPGLL,{dm(lat, 2)},{ns},{dm(lon, 3)},{ew},{hms(t)},A,A"
        return body, [("Latitude", sig[0]), ("Latitude Direction", ns), ("Longitude", sig[1]), ("Longitude Direction", ew), ("Timestamp", t), ("Status", "A"), ("FAA mode indicator", "A")]
    if kind == "RMC":
        body = f"GPRMC,{hms(t)},A,{dm(lat, 2)},S,{dm(lon, 3)},E,{s},{a},{d.strftime('%d%m%y')},,,A"
        return body, [("Timestamp", t), ("Status", "A"), ("Latitude", -lat), ("Latitude Direction", "S"), ("Longitude", lon), ("Longitude Direction", "E"),
                      ("Speed Over Ground", s), ("True Course", a), ("Datestamp", d), ("Magnetic Variation", None), ("Magnetic Variation Direction", None), ("Mode Indicator", "A"), ("Navigational Status", None)]
    if kind in ("GGA", "GGA60"):
        text, t = hms(t) + ".25", t.replace(microsecond=250000)
        if kind == "GGA60":
            text = f"{5 + i:02d}5960.50"
            t = time(6 + i, 0, 0, 500000)
        body = f"GPGGA,{text},{dm(lat, 2)},N,{dm(lon, 3)},W,1,08,0.9,12.5,M,46.9,M,,"
        return body, [("Timestamp", t), ("Latitude", lat), ("Latitude Direction", "N"), ("Longitude", -lon), ("Longitude Direction", "W"), ("GPS Quality Indicator", 1.0),
                      ("Number of Satellites in use", "08"), ("Horizontal Dilution of Precision", "0.9"), ("Antenna Alt above sea level (mean)", 12.5), ("Units of altitude (meters)", "M"),
                      ("Geoidal Separation", "46.9"), ("Units of Geoidal Separation (meters)", "M"), ("Age of Differential GPS Data (secs)", None), ("Differential Reference Station ID", None)]
    if kind == "VHW":
        body = f"IIVHW,{a},T,{a + 1},M,{s},N,{s * 2},K"
        return body, [("Heading true degrees", a), ("heading true", "T"), ("Heading Magnetic degrees", a + 1), ("Magnetic", "M"), ("Water speed knots", s), ("Knots", "N"), ("Water speed kilometers", s * 2), ("Kilometers", "K")]
    if kind == "MWD":
        body = f"IIMWD,{a},T,{a + 1},M,{s},N,{s / 2},M"
        return body, [("Wind direction true", a), ("True", "T"), ("Wind direction magnetic", a + 1), ("Magnetic", "M"), ("Wind speed knots", s), ("Knots", "N"), ("Wind speed meters/second", s / 2), ("Wind speed", "M")]
    if kind == "VHW0":
        body = f"IIVHW,,T,{a},M,,N,,K"
        return body, [("Heading true degrees", None), ("heading true", "T"), ("Heading Magnetic degrees", a), ("Magnetic", "M"), ("Water speed knots", None), ("Knots", "N"), ("Water speed kilometers", None), ("Kilometers", "K")]
    if kind == "HDT":
        return f"GPHDT,{a},T", [("Heading", a), ("True", "T")]
    raise AssertionError(kind)


KINDS = ("MWVT", "MWVR", "MWVR0", "GLLNE", "GLLSW", "GLLNE0", "RMC", "GGA", "GGA60", "VHW", "VHW0", "MWD", "HDT")
NAMES = {"Timestamp": "time", "Datestamp": "date", "Speed Over Ground": "SOG", "Water speed knots": "BSP", "Latitude": "lat", "Longitude": "lon"}
HRO = {"TWS": ("Wind speed", "Reference"), "AWS": ("Wind speed", "Reference"), "TWA": ("Wind angle", "Reference"), "AWA": ("Wind angle", "Reference"),
       "lat": ("Latitude",), "lon": ("Longitude",), "SOG": ("Speed Over Ground",), "date": ("Datestamp",), "time": ("Timestamp",)}


def records(seq, attr):
    """Rows: consecutive sentences until an attribute repeats."""
    rows = []
    for fields in seq:
        rec = {}
        fields = [(n, v) for n, v in fields if attr(n)]
        ref = dict(fields).get("Reference")
        has_ref = any(n == "Reference" for n, _ in fields)
        for n, v in fields:
            if n == "Reference":
                continue
            if has_ref and n in ("Wind angle", "Wind speed"):
                n = {"R": "A", "T": "T"}[ref] + {"Wind angle": "WA", "Wind speed": "WS"}[n]
            rec[NAMES.get(n, n)] = v
        if not rec:
            continue
        if rows and all(rows[-1].get(k) is None for k in rec):
            rows[-1].update(rec)
        else:
            rows.append(dict(rec))
    return rows


def columns(rows):
    keys = list(dict.fromkeys(k for r in rows for k in r))
    cols = {k: [r.get(k) for r in rows] for k in keys}
    if "date" in cols and "time" in cols:
        cols["datetime"] = [datetime.combine(d, t) if d and t else None for d, t in zip(cols.pop("date"), cols.pop("time"))]
    return cols


def write(name, seq, checksums, end):
    lines = []
    for body, _ in seq:
        c = 0
        for ch in body:
            c ^= ord(ch)
        lines.append("$" + body + (f"*{c:02X}" if checksums else ""))
    with open(name, "w", newline="") as fh:
        fh.write("".join(x + end for x in lines[:-1]) + (lines[-1] + (end if checksums else "") if lines else ""))


def nmea_check(out, seq, attr, types, what):
    rows = records([f for _, f in seq], attr)
    cols = columns(rows)
    aligned(out, len(rows), what)
    strings = ("T", "M", "N", "K")
    want = {}
    for k, v in cols.items():
        kind = next((type(x) for x in v if x is not None), None)
        if kind is str:
            try:
                v = [None if x is None else float(x) for x in v]
                kind = float
            except ValueError:
                pass
        if types and kind not in types:
            continue
        want[k] = v
    numeric = {k: v for k, v in want.items() if not any(isinstance(x, str) for x in v) and any(x is not None for x in v)}
    for k, v in numeric.items():
        column(out, k, v, what)
    for k in out.keys():
        if k in numeric:
            continue
        check(not any(isinstance(x, (float, date, time)) for x in out[k]), f"{what}: unexpected column {k} = {out[k]}")
        if types and str not in types:
            check(False, f"{what}: column {k} = {out[k]} in spite of the types {types}")
    if not types or str in types:
        for k, v in want.items():
            if any(isinstance(x, str) for x in v) and k not in ("True", "Wind speed"):
                column(out, k, v, what)
    return sorted(numeric), len(rows)


def time_cases(tier):
    for h in (0, 5, 12, 23):
        for m in (0, 9, 30, 59):
            for sec in range(62):
                for frac in ("", "0", "5", "25", "04", "375", "999", "123456", "000001", "1234567"):
                    yield [h, m, sec, frac]


@R.scenario(time_cases)
def nmea_times(ctx, case):
    """Times of day with leap seconds and fractions."""
    h, m, sec, frac = case
    micro = int(frac[:6].ljust(6, "0")) if frac else 0
    want = (datetime(2020, 1, 1) + timedelta(hours=h, minutes=m, seconds=sec)).time().replace(microsecond=micro)
    text = f"{h:02d}{m:02d}{sec:02d}" + (f".{frac}" if frac else "")
    for body in (f"GPGGA,{text},{dm(50.25, 2)},N,{dm(1.5, 3)},W,1,08,0.9,12.5,M,46.9,M,,", f"GPGLL,{dm(50.25, 2)},S,{dm(1.5, 3)},E,{text},A,A"):
        write("t.nmea", [(body, None)] * 2, True, "\r\n")
        out = NMEAFileHandler(wanted_attributes=["time"]).handle("t.nmea")
        column(out, "time", [want] * 2, f"{case} in {body[:5]}")
        ctx.step()
    return want.isoformat()


def sequences(tier):
    yield from itertools.chain.from_iterable(itertools.product(KINDS, repeat=n) for n in range(1, 5))
    yield from itertools.product(("MWVT", "MWVR", "GLLSW", "RMC", "GGA60", "VHW"), repeat=5)
    if tier == "thorough":
        yield from itertools.product(("MWVT", "MWVR", "GLLSW", "RMC", "GGA60", "VHW", "VHW0"), repeat=6)
    yield ("MWVT", "GLLSW", "VHW", "MWVR", "RMC", "MWVT", "HDT", "GGA", "VHW", "MWD", "GGA60", "MWVR0")
    yield ("MWVT", "MWVR", "VHW", "GLLSW") * 4


@R.scenario(lambda t: [[list(s)] for s in sequences(t)])
def nmea_sequences(ctx, case):
    """Every sequence of sentences."""
    seq = [sentence(k, i) for i, k in enumerate(case[0])]
    write("log.nmea", seq, True, "\n")
    h = NMEAFileHandler()
    out = h.handle("log.nmea")
    got = nmea_check(out, seq, lambda n: True, FLOATS, f"{case}")
    st = h.get_latest_statistics()
    check(st["n_rows"] == out.n_rows and st["n_cols"] == out.n_cols == len(out.keys()), f"{case}: statistics {st}")
    ctx.step(len(seq))
    return got


LOGS = [["MWVT", "GLLSW", "VHW", "MWVR", "RMC"], ["MWVR", "MWVT"], ["RMC", "RMC", "GLLNE", "MWVR0"], ["GGA60", "HDT", "VHW", "GGA", "MWVT", "MWVT"], ["GLLNE0", "VHW0", "GLLSW", "MWVR"], ["HDT", "GGA", "GGA60", "HDT"]]
CONFIGS = {
    "wanted MWV": dict(wanted_sentences=["MWV"]),
    "wanted RMC,VHW": dict(wanted_sentences=("RMC", "VHW")),
    "with talker": dict(wanted_sentences=["GPRMC", "$IIMWV", "GLL"]),
    "without talker": dict(unwanted_sentences=("GPGLL", "IIMWV")),
    "unwanted MWV": dict(unwanted_sentences=["MWV"]),
    "both": dict(wanted_sentences=["MWV", "GLL"], unwanted_sentences=["MWV"]),
    "tws": dict(wanted_attributes=["TWS"]),
    "twa,aws": dict(wanted_attributes=("TWA", "AWS")),
    "lat,time": dict(wanted_attributes=["lat", "time"]),
    "lon,date,time,SOG": dict(wanted_attributes=["lon", "date", "time", "SOG"]),
    "nmea": dict(wanted_attributes=["Water speed knots", "Heading"]),
    "unwanted": dict(unwanted_attributes=["Latitude", "Wind speed units", "Status", "Timestamp"]),
    "both attributes": dict(wanted_attributes=["lat", "Heading"], unwanted_attributes=["Latitude"]),
    "mixed": dict(wanted_sentences=["MWV", "GLL", "VHW"], unwanted_attributes=["Longitude", "Status"]),
    "all types": dict(post_filter_types=False),
    "float": dict(post_filter_types=(float,)),
    "str": dict(post_filter_types=[str, float, time]),
    "times": dict(post_filter_types=(time, datetime)),
}


def filters(cfg):
    def sentence_ok(body):
        if "wanted_sentences" in cfg:
            return any(named(w, body) for w in cfg["wanted_sentences"])
        return not any(named(w, body) for w in cfg.get("unwanted_sentences", ()))

    def named(name, body):  # a sentence type with or without its talker
        return name.lstrip("$") in (body[2:5], body[:5])

    def attr_ok(n):
        if "wanted_attributes" in cfg:
            return any(n in HRO.get(w, (w,)) for w in cfg["wanted_attributes"])
        return n not in cfg.get("unwanted_attributes", ())
    return sentence_ok, attr_ok


@R.scenario([[i, c, f] for i in range(len(LOGS)) for c in CONFIGS for f in ("unix", "dos", "plain")])
def nmea_configurations(ctx, case):
    """Selections of sentences, attributes and types; file formats."""
    i, c, f = case
    cfg = CONFIGS[c]
    seq = [sentence(k, j) for j, k in enumerate(LOGS[i])]
    write("log.nmea", seq, f != "plain", "\r\n" if f == "dos" else "\n")
    sent, attr = filters(cfg)
    h = NMEAFileHandler(**cfg)
    for turn in range(2):
        out = h.handle("log.nmea")
        got = nmea_check(out, [s for s in seq if sent(s[0])], attr, cfg.get("post_filter_types", FLOATS), f"{case} turn {turn}")
        ctx.step(len(seq))
    return got


@R.scenario([[list(o), c] for o in itertools.product(range(len(LOGS)), repeat=3) for c in ("lat,time", "tws", "all types", "str")])
def nmea_reuse(ctx, case):
    """One handler reads several logs; earlier results stay."""
    order, c = case
    h = NMEAFileHandler(**CONFIGS[c])
    sent, attr = filters(CONFIGS[c])
    outs = []
    for k in order:
        seq = [sentence(s, j) for j, s in enumerate(LOGS[k])]
        write("log.nmea", seq, True, "\n")
        outs.append((h.handle("log.nmea"), seq))
        for out, q in outs:
            nmea_check(out, q, attr, CONFIGS[c].get("post_filter_types", FLOATS), f"{case}")
        ctx.step(len(seq))
    return case


# ---- csv and arrays ----------------------------------------------------------
D0 = datetime(2021, 5, 6, 7, 8, 9, 250000)
COLS = {
    "float": ("boat speed", "BSP", [1.5, -2.25, 0.0, 1e-3, 12345.678]),
    "int": ("TWS", "TWS", [7, 0, -3, 12, 100000]),
    "date": ("Date Time", "datetime", [D0 + timedelta(days=i, seconds=i) for i in range(5)]),
    "plain": ("depth", "depth", [3.25, 4.5, 0.125, 9.0, 10.5]),
    "digits": ("heel", "heel", [1.2345678901234567, 2.5e-17, -123456789012.34567, 1e22, 0.30000000000000004]),
}


def patterns(tier):
    for n in (1, 2, 3):
        for cols in (("float", "int"), ("int", "date"), ("date", "plain", "float"), ("plain", "int", "float")):
            if n * len(cols) > (12 if tier == "thorough" else 9):
                continue
            for miss in itertools.product((0, 1), repeat=n * len(cols)):
                yield [list(cols), n, list(miss)]
    for n in (3, 5):
        for cols in itertools.permutations(COLS, 4):
            yield [list(cols), n, [0] * (n * 4)]
            yield [list(cols), n, [int(i % 3 == 1) for i in range(n * 4)]]
    for n in (1, 2, 5):
        for cols in (("digits",), ("digits", "int")):
            yield [list(cols), n, [0] * (n * len(cols))]
            if len(cols) > 1:  # an empty line is no row of a single column
                yield [list(cols), n, [int(i == 1) for i in range(n * len(cols))]]


def table(cols, n, miss):
    m = len(cols)
    return {k: [None if miss[i * m + j] else COLS[k][2][i] for i in range(n)] for j, k in enumerate(cols)}


@R.scenario(patterns)
def csv(ctx, case):
    """Every pattern of missing values in csv files."""
    return read_csv(ctx, case, CsvFileHandler)


@R.scenario(patterns)
def csv_without_pandas(ctx, case):
    """The same if pandas is not installed."""
    return read_csv(ctx, case, PlainCsvFileHandler)


def read_csv(ctx, case, kind):
    cols, n, miss = case
    tab = table(*case)
    for fmt, short in (("%Y-%m-%d %H:%M:%S.%f", False), ("%d.%m.%Y %H/%M/%S:%f", False), ("%Y-%m-%d %H:%M:%S.%f", True)):
        if fmt[1] == "d" and "date" not in cols:
            continue
        if short and not any(miss[i * len(cols) - 1] for i in range(1, n + 1)):
            continue

        def text(v):
            if v is None:
                return ""
            return v.strftime(fmt) if isinstance(v, datetime) else repr(v)
        with open("t.csv", "w") as fh:
            fh.write(",".join(COLS[k][0] for k in cols) + "\n")
            for i in range(n):
                row = [text(tab[k][i]) for k in cols]
                while short and not row[-1] and any(row):  # entries missing at the end may be left out
                    row.pop()
                fh.write(",".join(row) + "\n")
        h = kind() if fmt[1] == "Y" else kind(date_format=fmt)
        for turn in range(2):
            out = h.handle("t.csv")
            aligned(out, n, f"{case}")
            check(sorted(out.keys()) == sorted(COLS[k][1] for k in cols), f"{case}: columns {out.keys()}")
            for k in cols:
                column(out, COLS[k][1], tab[k], f"{case}")
            check(h.get_latest_statistics() == {"n_rows": n, "n_cols": len(cols)}, f"{case}: statistics {h.get_latest_statistics()}")
        ctx.step(2)
    return sum(miss), n


@R.scenario(lambda t: [[c, kind] for c in patterns(t) for kind in ("frame", "objects", "rows", "indexed", "floats", "rows without pandas", "objects without pandas", "floats without pandas")
                       if not (kind.startswith("floats") and ("date" in c[0] or any(c[2]))) and (len(c[2]) < 7 or sum(c[2]) % 3 == 0)])
def arrays(ctx, case):
    """Every pattern of missing values in data frames and arrays."""
    (cols, n, miss), kind = case
    tab = table(cols, n, miss)
    names = [COLS[k][0] for k in cols]
    h = ArrayHandler() if "without" not in kind else PlainArrayHandler()
    kind = kind.split()[0]
    rows = [[tab[k][i] for k in cols] for i in range(n)]
    keep = [list(r) for r in rows]
    for turn in range(2):
        if kind in ("frame", "indexed"):
            data = pd.DataFrame({m: pd.Series(tab[k], index=[f"r{i}" for i in range(n)][::-1] if kind == "indexed" else None) for m, k in zip(names, cols)})
            copy = data.copy(deep=True)
        elif kind == "rows" and not any(isinstance(x, datetime) for r in rows for x in r):
            data = (rows, names)
        elif kind == "floats":
            data = (np.array(rows, dtype=float), tuple(names))
        else:
            data = (np.array(rows, dtype=object), tuple(names))
        out = h.handle(data)
        aligned(out, n, f"{case}")
        check(sorted(out.keys()) == sorted(COLS[k][1] for k in cols), f"{case}: columns {out.keys()}")
        for k in cols:
            column(out, COLS[k][1], tab[k], f"{case}")
        check(h.get_latest_statistics() == {"n_rows": n, "n_cols": len(cols)}, f"{case}: statistics")
        check(rows == keep, f"{case}: input changed")
        if kind in ("frame", "indexed"):
            check(data.equals(copy), f"{case}: data frame changed")
        ctx.step()
    return sum(miss), n


@R.scenario([[n, m, kind] for n in (1, 2, 3) for m in range(0, 5) for kind in ("array", "list")])
def wrong_number_of_keys(ctx, case):
    n, m, kind = case
    arr = np.arange(2.0 * n).reshape(2, n)
    data = (arr if kind == "array" else arr.tolist(), [f"c{i}" for i in range(m)])
    if m == n:
        out = ArrayHandler().handle(data)
        for i in range(n):
            column(out, f"c{i}", [float(i), float(n + i)], f"{case}")
    else:
        raises(ValueError, lambda: ArrayHandler().handle(data), f"{case}: {m} keys for {n} columns")
    ctx.step()
    return case


@R.scenario([[list(o), kind] for o in itertools.product(range(4), repeat=2) for kind in ("csv", "array")])
def table_reuse(ctx, case):
    """One handler reads several tables; earlier results stay."""
    order, kind = case
    tabs = [(["float", "int"], 2, [0, 1, 0, 0]), (["int", "plain", "float"], 3, [0] * 9), (["plain", "int"], 1, [1, 0]), (["float", "plain"], 5, [0, 0, 1, 0, 0, 0, 0, 1, 0, 0])]
    h = CsvFileHandler() if kind == "csv" else ArrayHandler()
    outs = []
    for k in order:
        cols, n, miss = tabs[k]
        tab = table(cols, n, miss)
        frame = pd.DataFrame({COLS[c][0]: tab[c] for c in cols})
        if kind == "csv":
            frame.to_csv("t.csv", index=False)
            out = h.handle("t.csv")
        else:
            out = h.handle(frame)
        outs.append((out, cols, n, tab))
        for o, c, m, t in outs:
            aligned(o, m, f"{case}")
            for key in c:
                column(o, COLS[key][1], t[key], f"{case}")
        ctx.step()
    return case


@R.scenario([[n, kind, miss] for n in (60, 300, 1500) for kind in ("csv", "plain csv", "frame", "objects") for miss in (0, 2, 7, 51)])
def many_records(ctx, case):
    """Tables of up to 1500 rows; where the first or the last entries are missing."""
    n, kind, miss = case
    tab = {
        "TWS": [None if miss and i % miss == 1 else i / 7 for i in range(n)],
        "TWA": [float(i * 37 % 360) if i >= miss % (n - 1) else None for i in range(n)],
        "depth": [1e5 * i + 0.1 if i < n - miss % (n - 1) else None for i in range(n)],
        "datetime": [D0 + timedelta(seconds=i) for i in range(n)],
    }
    names = list(tab)
    if "csv" in kind:
        with open("t.csv", "w") as fh:
            fh.write(",".join(names) + "\n")
            for i in range(n):
                fh.write(",".join("" if tab[k][i] is None else (tab[k][i].strftime("%Y-%m-%d %H:%M:%S.%f") if k == "datetime" else repr(tab[k][i])) for k in names) + "\n")
        out = (CsvFileHandler if kind == "csv" else PlainCsvFileHandler)().handle("t.csv")
    elif kind == "frame":
        out = ArrayHandler().handle(pd.DataFrame(tab))
    else:
        arr = np.empty((n, 4), dtype=object)
        for j, k in enumerate(names):
            arr[:, j] = tab[k]
        out = ArrayHandler().handle((arr, names))
    aligned(out, n, f"{case}")
    for k in names:
        column(out, k, tab[k], f"{case}")
    ctx.step()
    return case


@R.scenario([[n] for n in (40, 200, 700)])
def long_logs(ctx, case):
    """Logs of hundreds of sentences, every rarely sent one included."""
    n, = case
    order = ["MWVT", "VHW", "GLLSW", "MWVR", "RMC", "HDT"]
    seq = []
    for i in range(n):
        k = order[(i * i + i // 3) % 6] if i != n - 2 else "GGA"
        body, fields = sentence(k, i % 18)
        seq.append((body, fields))
    write("log.nmea", seq, True, "\n")
    out = NMEAFileHandler().handle("log.nmea")
    got = nmea_check(out, seq, lambda a: True, FLOATS, f"{case}")
    ctx.step(n)
    return got
