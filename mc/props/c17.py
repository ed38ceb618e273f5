"""C17: missing data"""
import itertools

import numpy as np

from ..world import CLS, build, chunked, dt, expect, near, require, row, run_of, same
from . import _dyn
from ._scen import STEP, axis_of, direct, find, frozen, rows_of, verify_row

RULE = (
    "all patterns of missing values of one timeseries (2^n masks, every n) and all pairs of patterns of two timeseries, "
    "on yearly and monthly axes, with and without other data on the same axis: contiguous data have to give the direct run "
    "over just those values at just those times, data with a value missing in between have to be refused"
)
BOUNDS = {
    "quick": "n <= 6 for one timeseries and n = 4 for pairs; triples n = 3; eight timeseries n = 5; axes of 130 to 480 points with 1 to n-3 values missing at the ends; both models; n = 6 with 11 sets of zero, constant, tiny, huge and fill-like values",
    "thorough": "n <= 9 for one timeseries, n = 5 for pairs; triples n = 3; two parameter sets",
}
CONFORMANCE = "every mask's verdict and trimmed reference run are compared with the real run_scenarios"
ASSUMPTIONS = ["timeseries without any value are not part of the space (scmdata decides)"]

nan = np.nan
# values which invite a clean-up at the ends of the data
ODD = [[0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0, 0.0], [-0.0, 1.0, 1.0, 1.0, -0.0], [1.0, 1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 3.0, 0.0, 0.0],
       [-999.0, 1.0, 2.0, 3.0, -999.0], [1e-12, 1e-13, 1e-14, 1e-15, 1e-16], [2.0, 1.0, 3.0, 1.0, float("inf")], [2.0, 1.0, 3.0, 1.0, float("-inf")],
       [9.97e36, 1e20, 1e20, 1e20, 1e36], [-1.0, -1.0, -1.0, 0.0, 0.0]]
VALS = [[3.74, -2.5, 6.0, 1.0, 0.5, 8.0, -1.0, 2.5, 4.0], [1.0, 0.25, -4.0, 2.0, 7.0, 3.0, 2.0, 1.5, 0.75], [0.5, 5.0, 2.0]]


def masks(n):
    """All non-empty presence patterns, simplest first"""
    out = [m for m in itertools.product((1, 0), repeat=n) if any(m)]
    out.sort(key=lambda m: -sum(m))
    return [list(m) for m in out]


def contiguous(mask):
    """No missing value between two values"""
    on = [i for i, x in enumerate(mask) if x]
    return on[-1] - on[0] + 1 == len(on)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for b in (1, 0) if deep else (1,):
            for axis in ("yearly", "monthly"):
                for n in range(1, 10 if deep else 7):
                    for c in chunked(masks(n), 16):
                        out.append({"group": "one", "kind": kind, "base": b, "axis": axis, "masks": c})
                n = 5 if deep else 4
                if kind == "ir" and not deep:
                    n = 3
                for m1 in masks(n):
                    out.append({"group": "pairs", "kind": kind, "base": b, "axis": axis, "first": m1})
        for m1 in masks(3):
            if kind == "tl" or deep:
                out.append({"group": "triples", "kind": kind, "base": 1, "axis": "yearly", "first": m1})
        for axis in ("yearly", "monthly"):
            for n in (130, 300, 480) if kind == "tl" or deep else (300,):
                out.append({"group": "far", "kind": kind, "base": 1, "axis": axis, "n": n})
            out.append({"group": "long", "kind": kind, "base": 1, "axis": axis})
            if kind == "tl" or deep:
                out.append({"group": "hundreds", "kind": kind, "base": 1, "axis": axis, "n": 140})
            for k in (1, 2, 4, 7):
                out.append({"group": "many", "kind": kind, "base": 1, "axis": axis, "stride": k})
            for v in range(len(ODD)) if kind == "tl" or deep else (0, 1, 3, 7):
                out.append({"group": "odd", "kind": kind, "base": 1, "axis": axis, "values": v})
    return out


def put(vals, mask):
    return [v if m else nan for v, m in zip(vals, mask)]


def check(kind, spec, axis_name, axis, rows, extra, ctx, masks_):
    """Run rows and compare with the verdict"""
    data = run_of(rows + extra, axis)
    before = frozen(data)
    m = build(kind, spec)
    good = all(contiguous(x) for x in masks_)
    # a gap may make evenly spaced data of another kind, which C16 decides
    ctx.at({"kind": kind, "masks": masks_, "axis": axis_name, "other data": bool(extra)})
    ctx.step()
    ctx.state(kind, axis_name, masks_, bool(extra))
    if not good:
        expect(NotImplementedError, lambda: m.run_scenarios(data, progress=False), ctx, "value missing between two values", masks=masks_,
               axis=axis_name)
        require(frozen(data) == before, "input changed")
        ctx.outcome("refused")
        ctx.trace()
        return
    out = m.run_scenarios(data, progress=False)
    res = rows_of(out)
    require(len(res) == len(rows) * (4 if kind == "tl" else 5), "number of series", got=len(res))
    step = STEP[axis_name]
    single = all(sum(x) < 2 for x in masks_)
    for r in rows:
        verify_row(kind, spec, res, r, axis, step, ctx)
    # the same as this scenario alone on its own period
    for r, mask in zip(rows, masks_):
        have = [i for i, x in enumerate(mask) if x]
        alone = build(kind, spec).run_scenarios(
            run_of([dict(r, values=[r["values"][i] for i in have])], [axis[i] for i in have]), progress=False
        )
        ares = rows_of(alone)
        for meta, vals in ares:
            hits = find(res, {k: meta[k] for k in ("scenario", "variable", "unit")})
            require(len(hits) == 1 and [repr(t) for t in hits[0][1]] == [repr(t) for t in vals], "not the same as alone on its own period")
            require(same(list(hits[0][1].values()), list(vals.values())) or single, "not the same as alone on its own period", meta=meta)
    ctx.outcome(kind, axis_name, masks_)


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    spec = dict(_dyn.base_points(kind)[case["base"]])
    name = case["axis"]
    if group == "one":
        for mask in case["masks"]:
            n = len(mask)
            axis = axis_of(name, n)
            rows = [row(put(VALS[0], mask), "a")]
            full = [row(VALS[1][:n], "x", variable="Emissions|CO2", unit="GtC/yr"), row(VALS[1][:n], "a", region="R5ASIA")]
            for extra in ([], full):
                if not extra and not all(mask):
                    # a time point without any data at all on the axis
                    pass
                check(kind, spec, name, axis, rows, extra, ctx, [mask])
            ctx.sample({"kind": kind, "axis": name, "mask": mask})
    elif group == "odd":
        vals = ODD[case["values"]]
        for mask in masks(6):
            if sum(mask) > 5 or (not contiguous(mask) and sum(mask) < 5):
                continue
            # the last values, so that an infinite one comes last
            it = iter(vals[5 - sum(mask) :])
            put_ = [next(it) if m else nan for m in mask]
            if np.isinf(vals[-1]) and not contiguous(mask):
                continue
            for extra in ([], [row(VALS[1][:6], "x", variable="Emissions|CO2", unit="GtC/yr")]):
                check(kind, spec, name, axis_of(name, 6), [row(put_, "a")], extra, ctx, [mask])
            if not np.isinf(vals[-1]):
                check(kind, spec, name, axis_of(name, 6), [row(put_, "a"), row(put(VALS[0], [1] * 6), "b")], [], ctx, [mask, [1] * 6])
        ctx.sample({"kind": kind, "axis": name, "values": [repr(v) for v in vals]})
    elif group == "pairs":
        m1 = case["first"]
        n = len(m1)
        for m2 in masks(n):
            rows = [row(put(VALS[0], m1), "a"), row(put(VALS[1], m2), "b")]
            check(kind, spec, name, axis_of(name, n), rows, [], ctx, [m1, m2])
        ctx.sample({"kind": kind, "axis": name, "masks": [m1, m2]})
    elif group == "hundreds":
        # missing values at the ends of each of many timeseries
        ms = ([1, 1, 1, 1, 0], [0, 1, 1, 1, 1], [1, 1, 1, 1, 1], [0, 1, 1, 1, 0], [1, 1, 1, 0, 0])
        ms = [ms[i % 5] for i in range(case["n"])]
        rows = [row(put([((i * 37 + 11 * k) % 101) / 10.0 - 3.0 for k in range(5)], m), "s{}".format(i)) for i, m in enumerate(ms)]
        check(kind, spec, name, axis_of(name, 5), rows, [], ctx, ms)
        ctx.sample({"kind": kind, "axis": name, "timeseries": case["n"]})
    elif group == "many":
        # eight timeseries, each with missing values of its own; then with one which has a gap
        good = [m for m in masks(5) if contiguous(m)]
        for shift in range(len(good)):
            ms = [good[(shift + i * case["stride"]) % len(good)] for i in range(8)]
            vals = [[((i * 37 + 11 * k) % 101) / 10.0 - 3.0 for k in range(5)] for i in range(8)]
            rows = [row(put(v, m), "s{}".format(i)) for i, (v, m) in enumerate(zip(vals, ms))]
            check(kind, spec, name, axis_of(name, 5), rows, [], ctx, ms)
            at = shift % 8
            gap = [1, 0, 1, 1, 1] if shift % 2 else [1, 1, 1, 0, 1]
            bad = rows[:at] + [row(put(vals[at], gap), "s{}".format(at))] + rows[at + 1 :]
            check(kind, spec, name, axis_of(name, 5), bad, [], ctx, ms[:at] + [gap] + ms[at + 1 :])
        ctx.sample({"kind": kind, "axis": name, "masks": ms})
    elif group == "triples":
        m1 = case["first"]
        for m2 in masks(3):
            for m3 in masks(3):
                if sum(m1) + sum(m2) + sum(m3) < 5:
                    continue
                rows = [row(put(VALS[0], m1), "a"), row(put(VALS[1], m2), "b", unit="mW/m^2"), row(put(VALS[2], m3), "c")]
                check(kind, spec, name, axis_of(name, 3), rows, [], ctx, [m1, m2, m3])
        ctx.sample({"kind": kind, "axis": name, "masks": [m1, m2, m3]})
    elif group == "far":
        # little data on a long axis, and the other way round
        n = case["n"]
        vals = [3.0 + ((7 * i) % 11) / 4.0 for i in range(n)]
        axis = axis_of(name, n, 1750)  # times beyond 2262 are of another type
        for off in (1, 20, n // 2, n - 3) if ctx.tier == "quick" else (1, 3, 20, 100, n // 2, n - 21, n - 3, n - 2):
            tail = [1 if i < n - off else 0 for i in range(n)]
            head = [1 if i >= off else 0 for i in range(n)]
            both = [1 if off // 2 <= i < n - (off + 1) // 2 else 0 for i in range(n)]
            for ms in ([tail], [head], [both], [tail, [1] * n], [[1] * n, head], [both, tail, head]):
                rows = [row(put(vals, x), "s{}".format(i)) for i, x in enumerate(ms)]
                check(kind, spec, name, axis, rows, [], ctx, ms)
            gap = list(both)
            gap[n // 2] = 0
            if not contiguous(gap):
                check(kind, spec, name, axis, [row(put(vals, gap), "s0"), row(vals, "s1")], [], ctx, [gap, [1] * n])
        ctx.sample({"kind": kind, "axis": name, "length": n})
    else:
        # every single gap and every trimming of a longer timeseries
        n = 24
        vals = [3.0 + ((7 * i) % 11) / 4.0 for i in range(n)]
        other = [1.0 + ((5 * i) % 7) / 3.0 for i in range(n)]
        axis = axis_of(name, n)
        for k in range(0, n, 1 if ctx.tier == "thorough" else 3):
            for width in (1, 2, 6):
                mask = [0 if k <= i < k + width else 1 for i in range(n)]
                if any(mask):
                    check(kind, spec, name, axis, [row(put(vals, mask), "a"), row(other, "b")], [], ctx, [mask, [1] * n])
            tail = [1 if i <= k else 0 for i in range(n)]
            head = [1 if i >= k else 0 for i in range(n)]
            check(kind, spec, name, axis, [row(put(vals, tail), "a"), row(put(other, head), "b")], [], ctx, [tail, head])
        ctx.sample({"kind": kind, "axis": name, "length": n})
