"""C02: bringing data into the standard format keeps every value."""
import itertools
from datetime import date, datetime, time
from decimal import Decimal

import numpy as np

from hrosailing.core.data import Data
from vf.core import Registry, check

ID = "C02"
ASSUMPTIONS = ["the synonym list documented at the pinned commit is the reference"]
R = Registry()

SYN = {}
for std, names in {
    "TWS": "wind|wind speed|true|true wind|true wind speed|ws|tws|wspd",
    "AWS": "apparent wind speed|apparent wind|apparent|aws",
    "TWA": "angle|wind angle|true angle|true wind angle|wa|twa",
    "AWA": "apparent wind angle|apparent angle|awa",
    "BSP": "speed|boat speed|boat speed knots|vessel speed|vessel speed knots|sp|bsp|bsps|water speed|water speed knots|wsp",
    "SOG": "speed over ground|speed over ground knots|og|sog|spd over grnd",
    "date": "date|datestamp|date stamp",
    "time": "time|timestamp|time stamp",
    "datetime": "datetime|date time",
    "lat": "lat|latitude",
    "lon": "lon|long|longitude",
    "temp": "temp|temperature",
    "dewpoint": "dewpoint|dewpt|dwpt|dwpoint",
    "humidity": "rel humidity|relative humidity|rel hum|relative hum|rhum|relhum|hum|humidity",
    "WD": "wd|wdir|winddir",
    "gust": "wpgt",
    "air pressure": "pres",
    "total sunshine": "tsun",
}.items():
    for n in names.split("|"):
        SYN[n] = std
SEPS = " ,;_-+&\n\t"


def norm(name):
    low = name.lower()
    for s in SEPS:
        low = low.replace(s, " ")
    return low.strip()


def standard(name):
    low = norm(name)
    if low in SYN:
        return SYN[low]
    if low.endswith("s") and low[:-1] in SYN:
        return SYN[low[:-1]]
    return name


def expected_names(names):
    """Old name -> new name, with control-value names for collisions."""
    cur = list(names)
    out = {}
    for name in names:
        std = standard(name)
        if std == name:
            out[name] = name
            continue
        new, i = std, 0
        while new in cur:
            i += 1
            new = f"{std}(Control value {i})"
        cur.remove(name)
        cur.append(new)
        out[name] = new
    return out


VARIANTS = ("plain", "upper", "title", "plural", "padded", "surrounded", "mixed")


def variant(name, sep, kind):
    n = name.replace(" ", sep)
    return {"plain": n, "upper": n.upper(), "title": n.title(), "plural": n + "s",
            "padded": f"  {n} ", "surrounded": f"{sep}{n}{sep}",
            "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(n + "S"))}[kind]


def name_cases(tier):
    for name in SYN:
        yield [name]


@R.scenario(name_cases)
def every_spelling_of_every_synonym(ctx, case):
    """Every synonym in every separator, case and plural variant."""
    seen = []
    for sep in SEPS:
        for kind in VARIANTS:
            key = variant(case[0], sep, kind)
            d = Data.from_dict({key: [1.5, None, 2.5], "other": ["p", "q", None]})
            d.hrosailing_standard_format()
            ctx.step()
            want = standard(key)
            if kind not in ("plural", "mixed"):
                assert want == SYN[case[0]]
            check(sorted(d.keys()) == sorted([want, "other"]),
                  "column %r became %s, expected %r", key, d.keys(), want)
            check(d[want] == [1.5, None, 2.5] and d["other"] == ["p", "q", None],
                  "values of %r changed to %s", key, d.data)
            check(d.n_rows == 3 and d.type(want) is float, "rows or type changed")
            seen.append(want)
    return sorted(set(seen))


UNKNOWN = ["heading", "HDG", "Foo Bar", "TWS speed", "wind  speed", "windspeed", "s", "", "-",
           "sail", "course", "twd", "Control value", "lats x", "TWS(Control value 1)", "1"]


@R.scenario([[u, v] for u in UNKNOWN for v in UNKNOWN if u != v])
def unknown_names_are_kept(ctx, case):
    d = Data.from_dict({k: [float(i), None] for i, k in enumerate(case)})
    d.hrosailing_standard_format()
    ctx.step()
    check(sorted(d.keys()) == sorted(case), "names became %s", d.keys())
    for i, k in enumerate(case):
        check(d[k] == [float(i), None], "values of %r became %s", k, d[k])


COLL = ["TWS", "wind speed", "WS", "True_Wind", "BSP", "boat speed", "Speeds", "heading",
        "TWS(Control value 1)", "angle", "TWA", "sog", "lat", "Latitude"]


def collision_cases(tier):
    n = 5 if tier == "thorough" else 4
    for k in range(1, n + 1):
        names = COLL if k < 4 else COLL[:9]
        for p in itertools.permutations(names, k):
            yield list(p)


@R.scenario(collision_cases)
def every_ordered_selection_of_colliding_names(ctx, case):
    """No column or value is lost when several names mean the same quantity."""
    d = Data.from_dict({k: [10.0 * i, None, i + 0.25] for i, k in enumerate(case)})
    d.hrosailing_standard_format()
    ctx.step()
    exp = expected_names(case)
    check(sorted(d.keys()) == sorted(exp.values()), "%s became %s, expected %s",
          case, d.keys(), list(exp.values()))
    for i, k in enumerate(case):
        check(d[exp[k]] == [10.0 * i, None, i + 0.25], "%s -> %s holds %s", k, exp[k], d[exp[k]])
    once = {k: list(v) for k, v in d.data.items()}
    d.hrosailing_standard_format()
    ctx.step()
    check(d.data == once, "a second run changed %s to %s", once, d.data)
    return sorted(d.keys())


COLUMNS = {
    "int": [1, -2, None, 0],
    "float": [1.5, None, -0.25, 1e9],
    "numstr": ["1.5", "-2", None, " 3e2 "],
    "mixstr": ["1.5", "abc", None, "2"],
    "laststr": ["1", "2", "3", "x"],
    "dec": [Decimal("1.25"), None, Decimal("-3"), Decimal("0.5")],
    "npint": [np.int64(3), np.int64(4), None, np.int64(-5)],
    "npint32": [np.int32(3), np.int32(4), None, np.int32(-5)],
    "npfloat": [np.float64(3.5), np.float64(4), None, np.float64(-5)],
    "npfloat32": [np.float32(3.5), np.float32(4), None, np.float32(-5)],
    "npstr": ["7", "8", "9", "10"],
    "tinystr": ["1e-9", "-2.5E-300", None, "0.1"],
    "longstr": ["123456789.123456789", "-0.30000000000000004", "1e+22", "007"],
    "longdec": [Decimal("1E-12"), Decimal("0.1234567890123456789"), None, Decimal("-98765432109876543210")],
    "long": [2**53 + 1, -(10**15), None, 123456789012345678],
    "small": [1e-9, 5e-324, -1.0000000000000002, None],
    "bool": [True, False, None, True],
    "none": [None, None, None, None],
    "tuple": [(1, 2), (3, 4), None, (5, 6)],
    "dt": [datetime(2020, 1, 1), None, datetime(2020, 1, 2), datetime(2020, 1, 3)],
}
CASTS = {"tinystr", "longstr", "longdec", "long", "int", "float", "numstr", "dec", "npint", "npint32", "npfloat", "npfloat32", "npstr"}


@R.scenario([[a, b] for a in COLUMNS for b in COLUMNS if a != b])
def every_pair_of_column_types(ctx, case):
    """Numbers become floats, everything else stays as recorded."""
    d = Data.from_dict({f"col {k}": list(COLUMNS[k]) for k in case})
    d.hrosailing_standard_format()
    ctx.step()
    for k in case:
        got, want = d[f"col {k}"], COLUMNS[k]
        if k in CASTS:
            want = [None if v is None else float(v) for v in want]
            check(d.type(f"col {k}") is float, "type of %s column is %s", k, d.type(f"col {k}"))
            check(all(v is None or type(v) is float or k == "npfloat" for v in got),
                  "%s column holds %s", k, got)
            keys, arr = d.numerical
            check(f"col {k}" in keys, "%s column missing in the numerical view", k)
        else:
            check([type(v) for v in got] == [type(v) for v in want], "types of %s changed", k)
        check(got == want, "%s column became %s", k, got)


DATES = [date(2021, 3, 4), date(2020, 12, 31), None, date(2022, 1, 1)]
TIMES = [time(1, 2, 3), None, time(23, 59, 59, 999), time(0, 0, 0)]


def dt_cases(tier):
    n = 5 if tier == "thorough" else 4
    for a in itertools.product([0, 1], repeat=n):
        for b in itertools.product([0, 1], repeat=n):
            for extra in ("none", "datetime", "lone", "first"):
                yield [list(a), list(b), extra]


@R.scenario(dt_cases)
def every_none_pattern_of_date_and_time(ctx, case):
    """Date and time are combined row by row."""
    a, b, extra = case
    ds = [date(2021, 1 + i, 4) if x else None for i, x in enumerate(a)]
    ts = [time(10 + i, 2, 3, i) if x else None for i, x in enumerate(b)]
    n = len(a)
    cols = {"Datestamp": list(ds), "TIME": list(ts), "x": [float(i) for i in range(n)]}
    own = [datetime(1999, 1, 1 + i) for i in range(n)]
    if extra == "datetime":
        cols["datetime"] = list(own)
    elif extra == "first":
        cols = {"date time": list(own), **cols}
    elif extra == "lone":
        del cols["Datestamp"]
    d = Data.from_dict(cols)
    d.hrosailing_standard_format()
    ctx.step()
    both = [datetime.combine(p, q) if p is not None and q is not None else None
            for p, q in zip(ds, ts)]
    check(d.n_rows == n, "row count became %s", d.n_rows)
    check(all(len(d[k]) == n for k in d.keys()), "columns have lengths %s",
          {k: len(d[k]) for k in d.keys()})
    check(d["x"] == [float(i) for i in range(n)], "other column changed")
    if extra == "lone":
        check(sorted(d.keys()) == ["time", "x"] and d["time"] == ts,
              "a lone time column became %s", d.data)
        return
    check("date" not in d and "time" not in d, "date/time left over: %s", d.keys())
    dts = [d[k] for k in d.keys() if k.startswith("datetime")]
    check("datetime" in d, "no datetime column: %s", d.keys())
    if extra in ("datetime", "first"):
        check(d["datetime"] == own, "recorded datetime became %s", d["datetime"])
        check(both in dts and len(dts) == 2, "combined datetime lost: %s", d.data)
    else:
        check(dts == [both], "datetime is %s, expected %s", dts, both)
    once = d.data
    d.hrosailing_standard_format()
    check(d.data == once, "a second run changed the data")


@R.scenario([list(p) for p in itertools.permutations(range(6), 3)])
def every_kind_of_time(ctx, case):
    """Fractions of seconds and time zones stay in the combined column."""
    from datetime import timedelta, timezone
    kinds = [time(3, 4, 5, 678901), time(0, 0, 0, 1), time(23, 59, 59, 999999), time(12, 0, tzinfo=timezone.utc),
             time(1, 30, 0, 500000, tzinfo=timezone(timedelta(hours=-3, minutes=-30))), time(2, 30, fold=1)]
    ds = [date(2024, 2, 29), date(1969, 12, 31), date(2021, 10, 31)]
    ts = [kinds[i] for i in case]
    d = Data.from_dict({"time": list(ts), "date": list(ds)})
    d.hrosailing_standard_format()
    got = d["datetime"]
    for g, p, q in zip(got, ds, ts):
        check((g.date(), g.timetz(), g.fold) == (p, q, q.fold), "%s and %s became %r", p, q, g)
    ctx.step()


@R.scenario([[n, k, r] for n in (2, 7, 25, 40) for k in ("same", "two", "kinds") for r in (False, True)])
def tables_of_many_columns(ctx, case):
    """Each of many columns is renamed and converted like a column of its own."""
    n, kind, turned = case
    spell = [variant("wind speed true" if "wind speed true" in SYN else sorted(SYN)[0], s, v)
             for s in SEPS for v in VARIANTS if v != "padded"]
    spell = list(dict.fromkeys(spell))
    names = sorted(COLUMNS)
    if kind == "same":
        cols = {spell[i % len(spell)] + " " * (i // len(spell)): [str(i + 0.5), None] for i in range(n)}
    elif kind == "two":
        cols = {}
        for i in range(n):
            k = spell[i // 2 % len(spell)] + " " * (i // 2 // len(spell)) if i % 2 else f"heading {i}"
            cols[k] = [str(i + 0.5), None]
    else:
        cols = {f"col {i}": list(COLUMNS[names[i % len(names)]]) for i in range(n)}
    if turned:
        cols = dict(reversed(list(cols.items())))
    d = Data.from_dict(cols)
    d.hrosailing_standard_format()
    ctx.step()
    exp = expected_names(list(cols))
    check(sorted(d.keys()) == sorted(exp.values()), "columns became %s, expected %s", d.keys(), sorted(exp.values()))
    for j, (k, v) in enumerate(cols.items()):
        if kind == "kinds":
            i = n - 1 - j if turned else j
            cast = names[i % len(names)] in CASTS
        else:
            cast = True
        want = [None if x is None else float(x) for x in v] if cast else v
        check(d[exp[k]] == want and (not cast or d.type(exp[k]) is float),
              "column %r of %d columns became %s", k, n, d[exp[k]])
    once = d.data
    d.hrosailing_standard_format()
    check(d.data == once, "a second run changed the data")


@R.scenario([[n, p, k] for n in (120, 1300) for p in (0, 1, 99, 100, 101, -1)
             for k in ("text", "none", "int", "time")])
def columns_of_many_rows(ctx, case):
    """Long columns are judged and converted by all of their entries."""
    n, pos, kind = case
    if kind == "time":
        from datetime import timedelta
        ds = [date(2020, 1, 1) + timedelta(days=i) for i in range(n)]
        ts = [time(i % 24, i % 60, 0, i) for i in range(n)]
        ts[pos] = None
        d = Data.from_dict({"date": list(ds), "time": list(ts)})
        d.hrosailing_standard_format()
        ctx.step()
        check(d["datetime"] == [None if q is None else datetime.combine(p, q) for p, q in zip(ds, ts)],
              "the combined times of %d rows are wrong", n)
        return
    col = [i for i in range(n)] if kind == "int" else [str(i + 0.25) for i in range(n)]
    if kind == "text":
        col[pos] = "calm"
    elif kind == "none":
        col[pos] = None
    d = Data.from_dict({"x": list(col), "tws": list(col)})
    d.hrosailing_standard_format()
    ctx.step()
    want = col if kind == "text" else [None if v is None else float(v) for v in col]
    check(d["x"] == want and d["TWS"] == want and d.type("x") is (str if kind == "text" else float),
          "a column of %d entries with %s at %d became %s of type %s", n, kind, pos,
          [v for v, w in zip(d["x"], want) if v != w][:3], d.type("x"))
