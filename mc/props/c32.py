"""C32: refused scenarios leave the model as it was"""
import datetime as dt
import itertools
import os

import numpy as np
import pandas as pd

from ..world import (
    DEFAULTS, all_same, build, canon_frame, drive, expect, forcing, observe, q, require, row, run_of, same, same_frames, months, years,
)
from ._scen import frozen
from .c08 import spec_of

RULE = (
    "33 kinds of scenarios which run_scenarios refuses before running anything (no driver data, gaps, irregular or unsupported time "
    "axes, series with different timesteps, containers which hold no scenarios) x 8 points of a model's life x base points x timesteps; all ordered "
    "pairs of refusals at 3 points: afterwards every reading, the drivers, the results and the whole rest of the model's life are "
    "those of a twin which saw no refusal"
)
BOUNDS = {
    "quick": "33 refusals x 8 points x 3 base points x 2 timesteps, both models; pairs of 14 refusals at 3 points",
    "thorough": "4 timesteps, pairs of all refusals at 4 points, triples of 8 refusals",
}
CONFORMANCE = "every enumerated refusal is executed on the real model and compared with a twin that saw none"
ASSUMPTIONS = ["scenarios refused while they are run (wrong units) are not covered: the timestep was chosen by then"]

nan = np.nan
F = [3.74, 3.74, -2.5, 1.0, 6.0]
POINTS = ("new", "driven", "reset", "step1", "step3", "run", "over", "scenarios")
STEPS = ([10.0, "day"], [2.0, "yr"], [40000.0, "s"], [0.5, "month"])


def axis(*days):
    return [dt.datetime(*d) for d in days]


Y, M = years(2001, 6), months(2001, 6, 11)
FULL = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0]


def many(ts):
    return run_of([row(FULL[: len(ts)], "a")], ts)


NI = (NotImplementedError,)
BAD = {
    "no region": (lambda: run_of([row(FULL, "a", region="R5ASIA")], Y), {}, (ValueError,)),
    "no variable": (lambda: run_of([row(FULL, "a", variable="Emissions|CO2")], Y), {}, (ValueError,)),
    "other driver_var": (lambda: run_of([row(FULL, "a")], Y), {"driver_var": "Radiative Forcing"}, (ValueError,)),
    "other driver_var monthly": (lambda: run_of([row(FULL, "a")], M), {"driver_var": "ERF"}, (ValueError,)),
    "gap": (lambda: run_of([row([1.0, nan, 3.0, 4.0, 5.0, 6.0], "a")], Y), {}, NI),
    "gap second": (lambda: run_of([row(FULL, "a"), row([1.0, 2.0, nan, 4.0, 5.0, 6.0], "b")], Y), {}, NI),
    "gap monthly": (lambda: run_of([row(FULL, "a"), row([1.0, 2.0, nan, 4.0, 5.0, 6.0], "b")], M), {}, NI),
    "gap and ends": (lambda: run_of([row([nan, 2.0, nan, nan, 5.0, nan], "b")], Y), {}, NI),
    "daily": (lambda: many([dt.datetime(2001, 1, 1 + i) for i in range(6)]), {}, NI),
    "weekly": (lambda: many([dt.datetime(2001, 1, 1) + dt.timedelta(7 * i) for i in range(6)]), {}, NI),
    "seasonal": (lambda: many(months(2001, 16)[::3]), {}, NI),
    "half-yearly": (lambda: many(months(2001, 31)[::6]), {}, NI),
    "decadal": (lambda: many(years(1900, 51)[::10]), {}, NI),
    "two years": (lambda: many(years(1900, 11)[::2]), {}, NI),
    "a year missing": (lambda: many(years(2001, 3) + years(2005, 3)), {}, NI),
    "a month missing": (lambda: many(months(2001, 3) + months(2001, 3, 5)), {}, NI),
    "yearly then monthly": (lambda: many(years(2001, 3) + months(2003, 3, 2)), {}, NI),
    "monthly then yearly": (lambda: many(months(2001, 3) + years(2003, 3)), {}, NI),
    "late in the year": (lambda: many(axis((2001, 12, 30), (2002, 1, 2), (2003, 1, 2))), {}, NI),
    "steps differ": (lambda: run_of([row(FULL + [nan] * 6, "a"), row([nan] * 6 + FULL, "b")], Y + months(2031, 6)), {}, NI),
    "steps differ monthly first": (lambda: run_of([row(FULL + [nan] * 6, "a"), row([nan] * 6 + FULL, "b")], M + years(2031, 6)), {}, NI),
    "None": (lambda: None, {}, (Exception,)),
    "number": (lambda: 5.0, {}, (Exception,)),
    "no file": (lambda: os.path.join(os.sep, "does", "not", "exist.csv"), {}, (Exception,)),
    "empty frame": (pd.DataFrame, {}, (Exception,)),
    "frame without labels": (lambda: pd.DataFrame({"x": [1.0, 2.0], "y": [2.0, 3.0]}), {}, (Exception,)),
    "no region, many": (lambda: run_of([row(FULL, "s{}".format(i), region="R5ASIA") for i in range(8)], Y), {}, (ValueError,)),
    "gap, 12th": (lambda: run_of([row(FULL, "s{}".format(i)) for i in range(11)] + [row([1.0, 2.0, nan, 4.0, 5.0, 6.0], "z")], Y), {}, NI),
    "gap monthly, 1st of 7": (lambda: run_of([row([1.0, nan, 3.0, 4.0, 5.0, 6.0], "a")] + [row(FULL, "s{}".format(i)) for i in range(6)], M), {}, NI),
    "gaps everywhere": (lambda: run_of([row([1.0, 2.0, nan, 4.0, 5.0, 6.0], "s{}".format(i)) for i in range(70)], Y), {}, NI),
    "daily, many": (lambda: run_of([row(FULL, "s{}".format(i)) for i in range(6)], [dt.datetime(2001, 1, 1 + i) for i in range(6)]), {}, NI),
    "steps differ, many": (lambda: run_of([row(FULL + [nan] * 6, "s{}".format(i)) for i in range(9)] + [row([nan] * 6 + FULL, "z")], Y + months(2031, 6)), {}, NI),
    "gap, 140th": (lambda: run_of([row(FULL, "s{}".format(i)) for i in range(139)] + [row([1.0, 2.0, nan, 4.0, 5.0, 6.0], "z")], Y), {}, NI),
    "gap, long": (lambda: run_of([row([2.0] * 150 + [nan] + [1.0] * 99, "a")], years(1800, 250)), {}, NI),
}
CORE = ("no region", "other driver_var monthly", "gap", "gap monthly", "daily", "seasonal", "decadal", "a month missing", "yearly then monthly",
        "steps differ", "steps differ monthly first", "None", "gap, 12th", "steps differ, many")
FEW = ("no region", "gap", "gap monthly", "daily", "decadal", "steps differ", "steps differ monthly first", "number")
GOOD = {"yearly": Y, "monthly": M}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for b in range(3):
            for s in range(4 if deep else 2):
                for p in POINTS:
                    out.append({"kind": kind, "base": b, "step": s, "point": p, "n": 1})
        for p in ("driven", "step3", "run") + (("scenarios",) if deep else ()):
            for first in (BAD if deep else CORE):
                out.append({"kind": kind, "base": 1, "step": 0, "point": p, "n": 2, "first": first})
        if deep:
            for first in FEW:
                out.append({"kind": kind, "base": 0, "step": 1, "point": "step1", "n": 3, "first": first})
    return out


def advance(kind, spec, point):
    m = build(kind, spec)
    if point == "new":
        return m
    if point == "scenarios":
        m.run_scenarios(run_of([row([2.0, -1.0, 4.0], "x")], M[:3] if spec["delta_t"][1] != "month" else Y[:3]), progress=False)
        return m
    m.set_drivers(forcing(F, "W/m^2"))
    if point == "driven":
        return m
    m.reset()
    if point == "step1":
        m.step()
    elif point == "step3":
        for _ in range(3):
            m.step()
    elif point in ("run", "over"):
        m.run()
        if point == "over":
            try:
                m.step()
            except IndexError:
                pass
    return m


REMAINING = {"reset": 5, "step1": 4, "step3": 2}


def look(kind, m):
    """Every reading"""
    out = {}
    for n in list(DEFAULTS[kind]) + (["heat_capacity_upper", "heat_capacity_lower"] if kind == "tl" else []):
        v = getattr(m, n)
        out[n] = (float(v.magnitude), str(v.units))
    e = m.erf
    out["erf"] = (np.array(getattr(e, "magnitude", e), float).tobytes(), str(getattr(e, "units", None)))
    return out


def rest(kind, m, point):
    """The rest of the model's life"""
    out = []
    if point in REMAINING:
        for _ in range(REMAINING[point]):
            m.step()
            out += observe(kind, m)
    elif point in ("run", "over", "scenarios"):
        try:
            m.step()
            out.append(np.array([1.0]))
        except IndexError:
            out.append(np.array([0.0]))
        out += observe(kind, m)
    if point != "new":
        m.reset()
        m.run()
        out += observe(kind, m)
    drive(m, F[::-1])
    return out + observe(kind, m)


_GOOD = {}


def good_output(kind, spec, name):
    key = (kind, repr(sorted(spec.items())), name)
    if key not in _GOOD:
        _GOOD[key] = canon_frame(build(kind, spec).run_scenarios(run_of([row(FULL, "a"), row([nan] + FULL[1:], "b")], GOOD[name]), progress=False))
    return _GOOD[key]


def run(case, ctx):
    kind, point = case["kind"], case["point"]
    spec = dict(spec_of(kind, case["base"]), delta_t=list(STEPS[case["step"]]))
    twin = advance(kind, spec, point)
    r0, o0 = look(kind, twin), observe(kind, twin)
    want = rest(kind, twin, point)
    if case["n"] == 1:
        words = [(b,) for b in BAD]
    else:
        pool = {2: tuple(BAD) if ctx.tier == "thorough" else CORE, 3: FEW}[case["n"]]
        words = [(case["first"],) + w for w in itertools.product(pool, repeat=case["n"] - 1)]
    for k, w in enumerate(words):
        m = advance(kind, spec, point)
        objs = {n: getattr(m, n) for n in DEFAULTS[kind]}
        for name in w:
            make, kw, exc = BAD[name]
            data = make()
            f0 = frozen(data) if hasattr(data, "timeseries") else None
            ctx.at({"kind": kind, "spec": spec, "point": point, "refused": w})
            expect(exc, lambda: m.run_scenarios(data, progress=False, **kw), ctx, "scenarios: {}".format(name))
            ctx.step()
            r1 = look(kind, m)
            require(r1 == r0, "refused scenarios changed a reading", refused=name, point=point,
                    changed=[n for n in r0 if r0[n] != r1[n]], before=str(r0), after=str(r1))
            require(all_same(observe(kind, m), o0), "refused scenarios changed results", refused=name, point=point)
            if f0 is not None:
                require(frozen(data) == f0, "refused scenarios were changed", refused=name)
        for n, o in objs.items():
            now = getattr(m, n)
            require(now == o and now.units == o.units, "reading changed", parameter=n)
        require(all_same(rest(kind, m, point), want), "refused scenarios changed the rest of the model's life", refused=w, point=point)
        ctx.state(kind, case["base"], case["step"], point, w)
        ctx.outcome(kind, point, w, *(x.tobytes() for x in want))
        ctx.trace()
        ctx.evaluate(4)
        if (k + case["base"]) % 3 == 0 or case["n"] == 1:
            name = ("yearly", "monthly")[(k + case["step"]) % 2]
            got = canon_frame(m.run_scenarios(run_of([row(FULL, "a"), row([nan] + FULL[1:], "b")], GOOD[name]), progress=False))
            require(same_frames(got, good_output(kind, spec, name)), "scenarios after refused ones differ", refused=w, scenarios=name)
    ctx.sample({"kind": kind, "point": point, "refused": w})
