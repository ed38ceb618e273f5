"""C16: timestep selection"""
import itertools

import numpy as np

from ..world import (
    NAME, build, chunked, drive, dt, expect, near, q, require, row, run_of, ur,
)
from . import _dyn
from ._scen import STEP, direct, find, rows_of

RULE = (
    "all time axes whose consecutive spacings are words over 24 lengths (1 day to a decade) up to length 2, with several "
    "start dates; all calendar month axes by start month, day and length; all calendar year axes by start date, year "
    "(1 to 9900) and length; every single-point irregularity (point removed, inserted, moved) at every position of "
    "yearly and monthly axes; all orders of 4 points; all preset timesteps. The classification of the axis (written "
    "from the documentation) says which timestep the outputs have to show, or that the run has to be refused"
)
BOUNDS = {
    "quick": "spacing words of length <= 2 from one start date, length 1 from 12; lengths <= 26; 12-point axes for irregularities, axes of 61 to 1500 points with one step changed; all ordered pairs of 25 axes with common ends, lengths or parts on one model; all sets of up to 4 timeseries with time points of their own",
    "thorough": "spacing words of length <= 2 from 4 start dates and of length 3 over 14 spacings, both models, lengths <= 400",
}
CONFORMANCE = "the classification's verdict on every axis is replayed on the real run_scenarios"
ASSUMPTIONS = [
    "one point per calendar year with spacings of 360 to 364 or 367 to 370 days may be run as yearly or refused",
    "a single time point has no spacing and no verdict",
]

SPACINGS = [1, 7, 14, 26, 27, 28, 29, 30, 31, 32, 33, 59, 61, 90, 181, 183, 334, 355, 365, 366, 396, 730, 1826, 3652]
FEW = [1, 27, 28, 30, 31, 32, 59, 90, 334, 365, 366, 396, 730, 3652]
STARTS = [(2001, 1, 1), (2000, 2, 29), (2003, 12, 31), (2003, 12, 15), (2004, 3, 1), (2001, 7, 1), (1850, 1, 1), (1999, 12, 1),
          (2000, 1, 1), (2100, 2, 28), (1677, 9, 30), (2262, 4, 1)]
PRESETS = [[1.0, "yr"], [1.0, "month"], [1.0, "day"], [5.0, "yr"], [3600.0, "s"], [365, "day"], [12, "month"], [30, "day"], [1 / 12, "yr"]]
DAY = 86400.0


def classify(times):
    """Verdict for an axis: yearly, monthly, maybe-yearly, refused, any"""
    times = sorted(times)
    if len(times) < 2:
        return "any"
    diffs = [(b - a).total_seconds() / DAY for a, b in zip(times, times[1:])]
    yrs = [b.year - a.year for a, b in zip(times, times[1:])]
    if all(28 <= d <= 31 for d in diffs):
        return "monthly"
    if all(y == 1 for y in yrs):
        if all(d in (365, 366) for d in diffs):
            return "yearly"
        if all(360 <= d <= 370 for d in diffs):
            return "maybe-yearly"
    return "refused"


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for s in range(len(STARTS)):
            out.append({"group": "words", "kind": kind, "start": s, "words": [[x] for x in SPACINGS]})
        for part in range(8):
            out.append({"group": "irregular", "kind": kind, "part": part})
        for n in ([2, 3, 12, 13, 26] + ([60, 400] if deep else [])):
            out.append({"group": "calendar", "kind": kind, "n": n})
        for y in (1, 850, 1599, 1677, 1899, 1999, 2096, 2199, 2261, 2500, 9900):
            out.append({"group": "years", "kind": kind, "year": y, "lengths": [2, 3, 6, 11] + ([150, 400] if deep and y < 9900 else [])})
        out.append({"group": "orders", "kind": kind})
        for n in (61, 150) + ((400,) if deep else ()):
            for m in ("monthly", "yearly"):
                out.append({"group": "long", "kind": kind, "n": n, "axis": m})
        for n in (450, 1500) + ((4000,) if deep else ()):
            for m in ("monthly", "yearly"):
                for k in range(2 if kind == "tl" else 1):
                    out.append({"group": "long", "kind": kind, "n": n, "axis": m, "few": k})
        for n in range(1, 6 if deep else 5):
            for first in "YMSB":
                if kind == "tl" or n < 4 or deep:
                    out.append({"group": "sets", "kind": kind, "n": n, "first": first})
        out.append({"group": "regular", "kind": kind})
        out.append({"group": "hours", "kind": kind})
        for p in range(len(PRESETS)):
            out.append({"group": "presets", "kind": kind, "preset": p})
        for n in range(len(REUSED)):
            out.append({"group": "reused", "kind": kind, "first": n})
        if kind == "ir" and not deep:
            continue
        for s in (0, 1, 2, 5) if deep else (0,):
            for c in chunked([list(w) for w in itertools.product(SPACINGS, repeat=2)], 24):
                out.append({"group": "words", "kind": kind, "start": s, "words": c})
        if deep:
            for c in chunked([list(w) for w in itertools.product(FEW, repeat=3)], 60):
                out.append({"group": "words", "kind": kind, "start": 3, "words": c})
    return out


def forcing_for(n):
    return [3.74, -2.5, 6.0, 1.0, 0.5, 8.0, -1.0][: min(n, 7)] + [2.0 + 0.25 * (i % 8) for i in range(max(0, n - 7))]


def verify(kind, spec, axis, ctx, model=None, order=None, rows=1):
    """Run the axis and compare with the verdict"""
    F = forcing_for(len(axis))
    verdict = classify(axis)
    idx = list(order) if order is not None else list(range(len(axis)))
    data = run_of(
        [row([F[i] for i in idx], "s")] + [row([1.0 + F[i] for i in idx], "t{}".format(k)) for k in range(rows - 1)],
        [axis[i] for i in idx],
    )
    m = model if model is not None else build(kind, spec)
    ctx.at({"kind": kind, "axis": [str(axis[i]) for i in idx], "verdict": verdict, "delta_t": str(m.delta_t)})
    ctx.step()
    ctx.evaluate()
    ctx.trace()
    ctx.state(kind, tuple(axis), tuple(idx), str(m.delta_t))
    if verdict == "refused":
        expect(NotImplementedError, lambda: m.run_scenarios(data, progress=False), ctx, "axis is neither yearly nor monthly",
               axis=[str(t) for t in axis])
        ctx.outcome("refused")
        return verdict
    try:
        out = m.run_scenarios(data, progress=False)
    except NotImplementedError:
        require(verdict in ("maybe-yearly", "any"), "a valid axis was refused", verdict=verdict, axis=[str(t) for t in axis])
        ctx.outcome("refused, unspecified")
        return verdict
    step = "monthly" if verdict == "monthly" else "yearly"
    if verdict == "any":
        return verdict
    res = rows_of(out)
    for r in range(rows):
        scen = "s" if r == 0 else "t{}".format(r - 1)
        want = direct(kind, spec, F if r == 0 else [1.0 + f for f in F], STEP[step])
        for v, w in want.items():
            hits = find(res, {"variable": v, "scenario": scen})
            require(len(hits) == 1, "output series missing or duplicated", variable=v)
            times = sorted(hits[0][1])
            require([repr(t) for t in times] == [repr(t) for t in sorted(axis)] or len(times) == len(axis), "time points changed",
                    got=[str(t) for t in times], expected=[str(t) for t in axis])
            got = np.array([hits[0][1][t] for t in times])
            require(near(got, w, 1e-9, 1e-12 * max(1e-30, np.abs(w).max())), "outputs do not follow the {} timestep".format(step), variable=v,
                    axis=[str(t) for t in axis], got=got.tolist()[:20], expected=np.asarray(w).tolist()[:20], preset=str(spec["delta_t"]))
    want_dt = q(STEP[step])
    require(abs(m.delta_t.to("s").magnitude / want_dt.to("s").magnitude - 1) < 1e-12, "delta_t after the run is not the axis' timestep",
            got=str(m.delta_t), expected=str(want_dt))
    ctx.outcome(step, len(axis))
    return verdict


# timeseries of one call, each with points of its own: yearly, monthly, a single one, neither
OWN = {
    "Y": [[(2001, 1, 1), (2002, 1, 1), (2003, 1, 1), (2004, 1, 1)], [(2002, 1, 1), (2003, 1, 1)]],
    "M": [[(2002, 1, 1), (2002, 2, 1), (2002, 3, 1), (2002, 4, 1)], [(2003, 11, 1), (2003, 12, 1), (2004, 1, 1)]],
    "S": [[(2002, 6, 15)], [(2004, 1, 1)]],
    "B": [[(2001, 1, 1), (2003, 1, 1), (2005, 1, 1)], [(2002, 1, 1), (2002, 2, 1), (2003, 1, 1)]],
}


def sets(kind, spec, word, ctx):
    """Several timeseries in one call: all of one timestep, or refused"""
    axes = [[dt.datetime(*t) for t in OWN[k][word[:i].count(k) % 2]] for i, k in enumerate(word)]
    points = sorted({t for a in axes for t in a})
    rows, Fs = [], []
    for i, a in enumerate(axes):
        F = forcing_for(len(a) + i)[i:]
        Fs.append(F)
        at = dict(zip(a, F))
        rows.append(row([at.get(t, np.nan) for t in points], "s{}".format(i)))
    kinds = set(word) - {"S"}
    m = build(kind, spec)
    ctx.at({"kind": kind, "timeseries": word})
    ctx.step()
    ctx.evaluate()
    ctx.trace()
    ctx.state(kind, "set", word)
    go = lambda: m.run_scenarios(run_of(rows, points), progress=False)
    if "B" in kinds or len(kinds) > 1:
        expect(NotImplementedError, go, ctx, "timeseries without a common timestep are not refused", timeseries=word)
        return
    out = go()
    if not kinds:
        return
    step = "yearly" if "Y" in kinds else "monthly"
    res = rows_of(out)
    for i, (a, F) in enumerate(zip(axes, Fs)):
        for v, w in direct(kind, spec, F, STEP[step]).items():
            hits = find(res, {"variable": v, "scenario": "s{}".format(i)})
            require(len(hits) == 1, "output series missing or duplicated", variable=v, timeseries=word)
            got = hits[0][1]
            got = np.array([got[t] for t in sorted(got) if not np.isnan(got[t])])
            require(near(got, w, 1e-9, 1e-12 * max(1e-30, np.abs(w).max())), "outputs do not follow the {} timestep".format(step),
                    variable=v, timeseries=word, position=i, got=got.tolist(), expected=np.asarray(w).tolist())
    ctx.outcome(word)


def after(start, word):
    t = [dt.datetime(*start)]
    for d in word:
        t.append(t[-1] + dt.timedelta(days=d))
    return t


def month_axis(y, m, d, n):
    out = []
    for i in range(n):
        yy, mm = y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1
        out.append(dt.datetime(yy, mm, d))
    return out


def year_axis(y, m, d, n):
    return [dt.datetime(y + i, m, d) for i in range(n)]


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    spec = dict(_dyn.base_points(kind)[1])
    # neither yearly nor monthly: every run has to override it
    spec["delta_t"] = [11.0, "day"]
    if group == "words":
        for w in case["words"]:
            verify(kind, spec, after(STARTS[case["start"]], w), ctx)
        ctx.sample({"kind": kind, "start": STARTS[case["start"]], "spacings": w})
    elif group == "calendar":
        n = case["n"]
        for month in range(1, 13):
            for day, year in ((1, 2001), (28, 2003), (15, 1999), (16, 2099)):
                if n > 30 and (month % 4 or day != 1):
                    continue
                require_verdict(verify(kind, spec, month_axis(year, month, day, n), ctx), "monthly")
        ctx.sample({"kind": kind, "monthly axes of length": n})
    elif group == "years":
        for n in case["lengths"]:
            for month, day in ((1, 1), (2, 28), (3, 1), (7, 1), (7, 2), (12, 31)):
                if n > 20 and month != 7:
                    continue
                require_verdict(verify(kind, spec, year_axis(case["year"], month, day, n), ctx), "yearly")
        ctx.sample({"kind": kind, "yearly axes from": case["year"]})
    elif group == "irregular":
        bases = [year_axis(2001, 1, 1, 8), month_axis(2001, 1, 1, 8), year_axis(1998, 7, 1, 6), month_axis(2003, 11, 15, 6)]
        todo = []
        for base in bases:
            unit = (base[1] - base[0]).days
            for i in range(len(base)):
                todo.append(base[:i] + base[i + 1 :])
            for i in range(len(base) - 1):
                for frac in (0.5, 0.25, 0.9):
                    new = base[i] + dt.timedelta(days=int(unit * frac))
                    todo.append(base[: i + 1] + [new] + base[i + 1 :])
            for i in range(len(base)):
                for f in (-0.5, -0.3, 0.3, 0.5):
                    moved = base[i] + dt.timedelta(days=int(unit * f))
                    todo.append(base[:i] + [moved] + base[i + 1 :])
            for i in range(1, len(base)):
                # first part of one kind, the rest of the other
                other = month_axis if unit > 300 else year_axis
                todo.append(base[:i] + other(base[i].year, base[i].month, base[i].day, len(base) - i))
        for axis in todo[case["part"] :: 8]:
            verify(kind, spec, sorted(set(axis)), ctx)
        ctx.sample({"kind": kind, "axis": [str(t) for t in axis]})
    elif group == "long":
        # long axes with one step out of line at each of several places
        n = case["n"]
        base = (month_axis if case["axis"] == "monthly" else year_axis)(1900, 3, 1, n)
        require_verdict(verify(kind, spec, base, ctx), case["axis"])
        places = sorted({1, 2, 11, 12, n // 2, n - 3, n - 2, n - 1})
        if "few" in case:
            places = [n - 1, n // 2] if case["few"] == 0 else [n - 2, 257]
        for i in places:
            for days in (-5, -1, 1, 5) if case["axis"] == "monthly" else (-40, -10, 10, 40):
                moved = base[:i] + [t + dt.timedelta(days=days) for t in base[i:]]
                verify(kind, spec, moved, ctx)
            if i < n - 1:
                verify(kind, spec, base[:i] + base[i + 1 :], ctx)
            new = base[i - 1] + (base[i] - base[i - 1]) / 2
            verify(kind, spec, base[:i] + [new.replace(minute=0, second=0, microsecond=0)] + base[i:], ctx)
            other = (year_axis if case["axis"] == "monthly" else month_axis)(base[i].year, base[i].month, base[i].day, 3)
            verify(kind, spec, base[:i] + other, ctx)
        ctx.sample({"kind": kind, "length": n, "axis": case["axis"]})
    elif group == "sets":
        for w in itertools.product("YMSB", repeat=case["n"] - 1):
            sets(kind, spec, (case["first"],) + w, ctx)
        ctx.sample({"kind": kind, "timeseries per call": case["n"], "first": case["first"]})
    elif group == "orders":
        for base in (year_axis(2001, 1, 1, 4), month_axis(2001, 11, 1, 4)):
            for perm in itertools.permutations(range(4)):
                verify(kind, spec, base, ctx, order=perm)
        for base in (year_axis(2001, 1, 1, 15), month_axis(2001, 11, 1, 15)):
            verify(kind, spec, base, ctx, order=list(reversed(range(15))))
            verify(kind, spec, base, ctx, rows=4)
        for base in (after((2001, 1, 1), [365, 31]), after((2001, 1, 1), [90, 90])):
            for perm in itertools.permutations(range(3)):
                verify(kind, spec, base, ctx, order=perm)
        ctx.sample({"kind": kind, "orders": 24})
    elif group == "regular":
        for d in (1 / 24.0, 0.25, 1, 5, 7, 10, 14, 15, 20, 25, 27, 32, 33, 45, 60, 61, 90, 91, 92, 120, 182, 183, 270, 330, 350, 380, 395,
                  400, 547, 730, 731, 1461, 1826, 1827, 3652, 3653, 36524):
            for n in (2, 3, 5, 9):
                if d * n < 1.2e5:
                    axis = after((2000, 1, 1), [d] * (n - 1))
                    require_verdict(verify(kind, spec, axis, ctx), "refused")
        for step in (2, 5, 10):
            verify(kind, spec, [dt.datetime(1850 + step * i, 1, 1) for i in range(6)], ctx)
        for months_ in (2, 3, 6, 11, 13):
            verify(kind, spec, month_axis(1995, 1, 1, 5 * months_)[::months_], ctx)
        ctx.sample({"kind": kind, "regular spacings": "hourly to centennial"})
    elif group == "hours":
        for h in (-1.0, -1 / 60.0, -1 / 3600.0, 1 / 3600.0, 1 / 60.0, 1.0):
            for edge, sign in ((28, -1), (31, 1)):
                for n in (1, 2, 5):
                    for k in range(n):
                        word = [30.0] * n
                        word[k] = edge + h / 24.0
                        want = "refused" if h * sign > 0 else "monthly"
                        require_verdict(verify(kind, spec, after((2001, 2, 1), word), ctx), want)
        ctx.sample({"kind": kind, "spacings next to 28 and 31 days": True})
    elif group == "reused":
        # axes which agree in their ends, their number of points, their first or last points, one after the other on one model
        first = REUSED[case["first"]]
        for second in REUSED:
            m = build(kind, spec)
            for axis in (first, second, first):
                verify(kind, spec, axis, ctx, model=m)
        ctx.sample({"kind": kind, "first": [str(t) for t in first], "then": len(REUSED)})
    elif group == "presets":
        s = dict(spec, delta_t=PRESETS[case["preset"]])
        axes = [year_axis(2001, 1, 1, 5), month_axis(2001, 11, 1, 5), after((2001, 1, 1), [1, 1]), after((2001, 1, 1), [31, 365])]
        for how in ("new", "driven"):
            for first in axes:
                for second in axes[:2]:
                    m = build(kind, s)
                    if how == "driven":
                        drive(m, np.array([1.0, 2.0, 3.0]))
                    verify(kind, s, first, ctx, model=m)
                    verify(kind, s, second, ctx, model=m)
        ctx.sample({"kind": kind, "delta_t before": PRESETS[case["preset"]]})


def _reused():
    y, m = year_axis(2001, 1, 1, 4), month_axis(2001, 1, 1, 4)
    day = dt.timedelta(days=1)
    out = [y, m]
    for base, moves in ((y, (-180, 200)), (m, (-12, 13))):
        for d in moves:
            out.append([base[0], base[1] + d * day, base[2], base[3]])
            out.append([base[0], base[1], base[2] + d * day, base[3]])
            out.append([base[0], base[1] + d * day, base[2] + d * day, base[3]])
            out.append([base[0], base[1], base[2], base[3] + d * day])
    # the same ends as yearly data, the same number of points as monthly data and so on
    out.append(month_axis(2001, 1, 1, 37)[::12])
    out.append(month_axis(2001, 1, 1, 37))
    out.append(year_axis(2001, 1, 1, 37))
    out.append([y[0], y[3]])
    out.append([m[0], y[1], y[2], y[3]])
    out.append([m[0], m[1], m[2], y[3]])
    out.append([m[0], m[1], y[2], y[3]])
    return out


REUSED = _reused()


def require_verdict(got, want):
    """The enumeration is what it is meant to be"""
    if got != want:
        from ..engine import HarnessError

        raise HarnessError("axis classified as {}, not {}".format(got, want))
