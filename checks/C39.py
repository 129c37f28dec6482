"""C39: queries made at the same time do not disturb one another."""
import sys
import threading

import numpy as np

import hrosailing
from checks.C33 import GRID, LATS, LONS, PDS, T0, TIMES, plain
from checks.C34 import COMP, arr, rounded
from hrosailing.core.computing import convert_apparent_wind_to_true, convert_true_wind_to_apparent
from hrosailing.core.data import Data
from hrosailing.cruising import convex_direction, cost_cruise, cruise, isochrone
from hrosailing.models import GriddedWeatherModel
from hrosailing.polardiagram import PolarDiagramCurve
from vf.core import Registry, check

ID = "C39"
ASSUMPTIONS = [
    "a switch between two requests happens between two lines of the library (between two bytecode instructions in the thorough tier)",
    "every line is interrupted at its first visits (two, of short requests three in the thorough tier, of very long ones one) per request",
    "fitting, the pipeline, curve extensions (which fit) and statistics are excepted: they record their outcome in the object by design",
    "components holding the same random generator, matplotlib and the caller's own buffers are outside",
]
R = Registry()
ROOT = hrosailing.__path__[0]
SKIP = {"ODRegressor", "LeastSquareRegressor", "regressors of several optima", "WindAngleCorrectingInfluenceModel fitted", "CurveExtension", "PolarPipeline"}
LARGE = {("FillLocalImputator", "6"), ("FillLocalImputator", "7"), ("RemoveOnlyImputator", "6"), ("RemoveOnlyImputator", "7"), ("AffineSmoother", "6"), ("LazySmoother", "6"), ("diagram sails", "('slices', None, {})"), ("diagram mixed", "('slices', None, {})")}
BUFFERS = ("buf1", "buf2", "pb", "pb2", "many", "many2")

WORLD = {}  # name -> (variants, calls)
for _n, (_vs, _cs) in COMP.items():
    if _n not in SKIP and _n != "cruising functions":
        WORLD[_n] = ({k: f for k, f in _vs.items() if (_n, k) != ("TableExtension", "")}, {k: f for k, f in _cs.items() if not any(b in str(k) for b in BUFFERS) and (_n, k) not in LARGE})

MORE = {f"call {w} {a}": (lambda d, w=w, a=a: float(d(w, a))) for w in (4.0, 8.0, 12.0) for a in (45.0, 90.0, 300.0)}
for _n in list(WORLD):
    if _n.startswith("diagram"):
        WORLD[_n] = (WORLD[_n][0], {**{k: f for k, f in MORE.items() if _n != "diagram mixed" or "8.0" in k}, **WORLD[_n][1]})


class Trip:
    """A diagram and weather shared by several routes."""

    def __init__(self, kind):
        self.pd = PDS[kind]()
        self.wm = GriddedWeatherModel(GRID, TIMES, LATS, LONS, ["TWS", "TWA"])


WORLD["cruising"] = ({k: (lambda k=k: Trip(k)) for k in ("table", "curve")}, {
    "cruise": lambda t: cruise(t.pd, (10.0, 54.0), (10.5, 54.2), (8.0, 30.0)),
    "cruise back": lambda t: cruise(t.pd, (10.0, 54.0), (9.5, 54.0), (12.0, 100.0)),
    "convex": lambda t: convex_direction(t.pd, 8.0, 80.0),
    "convex strong": lambda t: convex_direction(t.pd, 14.0, 35.0),
    "cost": lambda t: round(float(cost_cruise(t.pd, (54.0, 10.0), (54.05, 10.05), T0, t.wm)), 6),
    "cost back": lambda t: round(float(cost_cruise(t.pd, (54.2, 10.0), (54.15, 9.95), T0, t.wm)), 6),
    "isochrone": lambda t: [round(float(v), 6) for v in np.ravel(isochrone(t.pd, (54.0, 10.0), T0, 40.0, t.wm, total_time=0.1, min_nodes=8)[0])],
    "slices": lambda t: t.pd.get_slices([4.0, 12.0], n_steps=1),
})
SHARED = Data.from_dict({"TWS": [8.0, 9.0, 10.0], "TWA": [40.0, 50.0, 300.0], "name": list("abc")})
WORLD["wind"] = ({"": lambda: None}, {
    "true": lambda c: convert_apparent_wind_to_true(arr("a")), "apparent": lambda c: convert_true_wind_to_apparent(arr("a")), "other": lambda c: convert_apparent_wind_to_true(arr("b")), "one": lambda c: convert_true_wind_to_apparent(arr("one")),
})
WORLD["measurements"] = ({"": lambda: Data.from_dict({k: list(SHARED[k]) for k in SHARED.keys()})}, {
    "rows": lambda d: list(d), "dicts": lambda d: list(d.rows()), "lists": lambda d: list(d.rows(return_type=list)), "some": lambda d: list(d.rows(keys=["name", "TWS"], return_type=tuple)),
    "mask": lambda d: d[[True, False, True]], "slice": lambda d: d[["TWA"]], "text": str, "numerical": lambda d: d.numerical, "types": lambda d: [d.get_by_type(t) for t in (float, str)], "join": lambda d: Data.concatenate([d, d]),
})


def result(fn, comp):
    try:
        return rounded(plain(fn(comp)))
    except Exception as e:  # noqa: BLE001  also a refusal is an answer
        return ["raised", type(e).__name__]


def traced(run, on_event, opcodes=False):
    """Runs and reports every line (or instruction) of the library reached."""
    def local(frame, event, _):
        if event == ("opcode" if opcodes else "line"):
            on_event(frame)
        return local if sys.gettrace() else None

    def enter(frame, event, _):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if opcodes:
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
        return local

    old = sys.gettrace()
    sys.settrace(enter)
    try:
        return run()
    finally:
        sys.settrace(old)


def switch_points(run, visits, opcodes=False):
    """The numbers of the events at which each place is reached the first times."""
    seen, points, n = {}, [], [0]

    def event(frame):
        place = (frame.f_code, frame.f_lasti if opcodes else frame.f_lineno)
        seen[place] = seen.get(place, 0) + 1
        if seen[place] <= visits:
            points.append(n[0])
        n[0] += 1

    traced(run, event, opcodes)
    return points, n[0]


def interrupted(run, at, other, opcodes=False):
    """Runs up to the given event, then the other to its end, then the rest."""
    n, got = [0], []

    def event(frame):
        if n[0] == at:
            got.append(other())
            sys.settrace(None)
        n[0] += 1

    return traced(run, event, opcodes), got[0] if got else other()


def interleaved(run, at, other, other_at):
    """run up to `at`, other up to `other_at`, the rest of run, the rest of other."""
    out = [None, None]
    turn = [threading.Semaphore(1), threading.Semaphore(0)]

    def thread(me, fn, stop):
        n = [0]

        def event(frame):
            if n[0] == stop:
                turn[1 - me].release()
                turn[me].acquire()
            n[0] += 1

        turn[me].acquire()
        out[me] = traced(fn, event)
        turn[1 - me].release()
        if n[0] <= stop:
            turn[1 - me].release()

    ts = [threading.Thread(target=thread, args=a) for a in ((0, run, at), (1, other, other_at))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


ALONE = {}


def alone(name, v, call):
    if (name, v, call) not in ALONE:
        vs, cs = WORLD[name]
        ALONE[name, v, call] = result(cs[call], vs[v]())
    return ALONE[name, v, call]


def partners(name, a, n):
    labels = list(WORLD[name][1])
    i = labels.index(a)
    return (labels[i + 1:] + labels[:i])[:n]


@R.scenario(lambda tier: [[n, v, a] for n, (vs, cs) in WORLD.items() for v in vs for a in cs])
def one_interruption(ctx, case):
    """Each request, interrupted at every place by another one on the same or a second object."""
    name, v, a = case
    vs, cs = WORLD[name]
    fresh = lambda: result(cs[a], vs[v]())
    points, n = switch_points(fresh, 3 if ctx.thorough else 2)
    if n > (300 if ctx.thorough else 2500):
        points, n = switch_points(fresh, 2 if ctx.thorough and n < 2500 else 1)
    plans = [(points, False)]
    if ctx.thorough:
        plans.append((switch_points(fresh, 1, True)[0][:: 1 if n < 200 else 4 if n < 1000 else 20], True))
    for b in partners(name, a, (99 if n < 80 else 4 if n < 200 else 2 if n < 600 else 1) if ctx.thorough else 99 if n < 60 else 4 if n < 200 else 2 if n < 500 else 1):
        for pts, opcodes in plans:
            for i, at in enumerate(pts):
                for same in (True, False):
                    if not same and (opcodes or i % 3):
                        continue
                    one = vs[v]()
                    two = one if same else vs[v]()
                    got, other = interrupted(lambda: result(cs[a], one), at, lambda: result(cs[b], two), opcodes)
                    ctx.step()
                    check(got == alone(name, v, a), lambda: f"{name}({v}): {a} interrupted at step {at} by {b} answers {str(got)[:400]}, alone {str(alone(name, v, a))[:400]}")
                    check(other == alone(name, v, b), lambda: f"{name}({v}): {b} made at step {at} of {a} answers {str(other)[:400]}, alone {str(alone(name, v, b))[:400]}")
    return case


@R.scenario(lambda tier: [[n, v, a] for n, (vs, cs) in WORLD.items() for v in list(vs)[:1 if tier == "quick" else 9] for a in list(cs)[:1 if tier == "quick" else 4]])
def two_interruptions(ctx, case):
    """Two requests in threads of their own, each stopped once on the way, at every pair of places."""
    name, v, a = case
    vs, cs = WORLD[name]
    b = partners(name, a, 1)[0]
    mine, n = switch_points(lambda: result(cs[a], vs[v]()), 1)
    other, m = switch_points(lambda: result(cs[b], vs[v]()), 1)
    if n > 600 or m > 600:
        mine, other = mine[::1 + n // 600], other[::1 + m // 600]
    cap = 40 if ctx.thorough else 12
    mine, other = mine[::1 + len(mine) // cap], other[::1 + len(other) // cap]
    for at in mine:
        for other_at in other:
            comp = vs[v]()
            got = interleaved(lambda: result(cs[a], comp), at, lambda: result(cs[b], comp), other_at)
            ctx.step()
            check(got == [alone(name, v, a), alone(name, v, b)], lambda: f"{name}({v}): {a} stopped at {at} and {b} stopped at {other_at} answer {str(got)[:600]}, alone {str([alone(name, v, a), alone(name, v, b)])[:600]}")
    return case
