"""C18: scenarios of one call are independent"""
import itertools

import numpy as np

from ..world import build, canon_frame, chunked, near, require, row, run_of, same
from . import _dyn
from ._scen import STEP, axis_of, direct, eq_meta, find, rows_of, verify_row

RULE = (
    "all ordered selections (every subset in every order) of a pool of 8 scenarios which differ in forcing, units, length, "
    "or only in one metadata column; every pair/triple of extreme forcings (overflow, huge, zero); many scenarios in "
    "several orders. The output of each has to equal a direct run of a new model with that forcing"
)
BOUNDS = {
    "quick": "all ordered selections of size <= 3 of 8 and all 24 orders of 4; 2 axes, 2 models; all ordered pairs of 19 related forcings; all arrangements of 2 to 5 yearly and monthly scenarios; 12 and 120 scenarios",
    "thorough": "all ordered selections of size <= 4 of 8, all 720 orders of 6; 3 parameter sets; all ordered triples of 19 related forcings; 12, 120 and 600 scenarios",
}
CONFORMANCE = "the reference (a direct run per scenario, itself bound to the transition system by C01-C03) is compared exactly"
ASSUMPTIONS = ["forcing in other units: the conversion may be done before or after (1e-12)"]

nan = np.nan
N = 5
POOL = [
    row([3.74, -2.5, 6.0, 1.0, 0.5], "a", member=1),
    row([1.0, 2.0, 3.0, 4.0, 5.0], "b", member=1),
    row([3.74, -2.5, 6.0, 1.0, 0.5], "a", member=2),
    row([2500.0, -1e3, 0.0, 4e3, 1e3], "c", member=1, unit="mW/m^2"),
    row([0.0, 0.0, 9.0, nan, nan], "d", member=1),
    row([nan, nan, 9.0, 1.0, 2.0], "a", member=3),
    row([7.0, 6.0, 5.0, 4.0, 3.0], "a", member=1, model="other"),
    row([1e-3, 2e-3, 5e-3, 0.0, -1e-3], "e", member=nan, unit="kW/m^2"),
]
EXTREME = [
    row([3.74, -2.5, 6.0, 1.0, 0.5], "a", member=1),
    row([1e200, -1e200, 1e250, 0.0, 1e300], "b", member=1),
    row([0.0] * 5, "c", member=1),
    row([1e-300, 0.0, 5e-320, 0.0, 1e-310], "d", member=1),
    row([4.0, 4.0, 4.0, nan, nan], "e", member=1),
    row([-1e150, 1e154, 1e155, 1e156, 1.0], "f", member=1, unit="kW/m^2"),
]
# forcings that are related to each other: what is carried over from one to the next would look right for an unrelated one
_R = [1.0, 2.0, -3.0, 4.0, 2.0]
RELATED = [
    row(_R, "same"),
    row([-x for x in _R], "opposite"),
    row([abs(x) for x in _R], "absolute"),
    row([2 * x for x in _R], "double"),
    row([x + 1e-9 for x in _R], "nearly"),
    row([x + 1.0 for x in _R], "offset"),
    row(_R[::-1], "reversed"),
    row(sorted(_R), "sorted"),
    row(_R[:3] + [nan, nan], "prefix"),
    row([nan, nan] + _R[:3], "shifted"),
    row([nan] + _R[1:], "suffix"),
    row(_R[:4] + [9.0], "last differs"),
    row([7.0] + _R[1:], "first differs"),
    row(_R, "same number", unit="mW/m^2"),
    row([x / 1e3 for x in _R], "same forcing", unit="kW/m^2"),
    row([0.0] * 5, "zero"),
    row([nan, nan, 2.0, nan, nan], "single"),
    row([5.0, nan, nan, nan, nan], "first only"),
    row([nan, nan, nan, nan, 2.0], "last only"),
]
IDENT = ("model", "scenario", "member")


def selections(size):
    return [list(p) for p in itertools.permutations(range(len(POOL)), size)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for b in (1, 0, 2) if deep else (1,):
            for axis in ("yearly", "monthly"):
                sel = selections(1) + selections(2)
                if deep or (kind == "tl" and axis == "yearly"):
                    sel = sel + selections(3)
                if deep:
                    sel += selections(4)
                elif kind == "tl" and axis == "monthly":
                    sel += [list(p) for p in itertools.permutations((0, 2, 3, 4))]
                for c in chunked(sel, 24):
                    out.append({"group": "select", "kind": kind, "base": b, "axis": axis, "orders": c})
        for n in (12, 120) + ((600,) if deep else ()):
            for order in ("forward", "backward", "interleaved"):
                out.append({"group": "many", "kind": kind, "n": n, "order": order})
        for c in chunked([list(p) for r in (1, 2, 3) for p in itertools.permutations(range(len(EXTREME)), r)], 26 if not deep else 13):
            if kind == "tl" or deep or len(c[0]) < 3:
                out.append({"group": "extreme", "kind": kind, "orders": c})
        out.append({"group": "columns", "kind": kind})
        for n in (2, 3, 4, 5) + ((6, 7) if deep else ()):
            out.append({"group": "mixed", "kind": kind, "n": n})
        rel = [list(p) for p in itertools.permutations(range(len(RELATED)), 2)]
        if deep:
            rel += [list(p) for p in itertools.permutations(range(len(RELATED)), 3)]
        for c in chunked(rel, 24):
            out.append({"group": "related", "kind": kind, "orders": c})
        if deep:
            for c in chunked([list(p) for p in itertools.permutations(range(6))], 24):
                out.append({"group": "select", "kind": kind, "base": 1, "axis": "yearly", "orders": c})
    return out


def check(kind, spec, axis, step, rows, ctx, ident=IDENT, keep=None):
    """Run the rows together; each has to equal its direct run"""
    out = build(kind, spec).run_scenarios(run_of(rows, axis), progress=False)
    res = rows_of(out) if keep is None else keep(out)
    require(len(res) == len(rows) * (4 if kind == "tl" else 5), "number of series", got=len(res), scenarios=len(rows))
    for r in rows:
        verify_row(kind, spec, res, r, axis, step, ctx, ident=ident)
    return out


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    spec = dict(_dyn.base_points(kind)[case.get("base", 1)])
    if group == "select":
        axis = axis_of(case["axis"], N)
        for order in case["orders"]:
            rows = [POOL[i] for i in order]
            ctx.at({"kind": kind, "axis": case["axis"], "scenarios": order})
            check(kind, spec, axis, STEP[case["axis"]], rows, ctx)
            ctx.state(kind, case["axis"], order)
        ctx.outcome(kind, case["axis"], tuple(order))
        ctx.sample({"kind": kind, "axis": case["axis"], "scenarios": order})
    elif group == "related":
        axis = axis_of("yearly", N)
        for order in case["orders"]:
            ctx.at({"kind": kind, "related scenarios": [RELATED[i]["scenario"] for i in order]})
            rows = [RELATED[i] for i in order]
            # the implementation sorts by metadata: names decide the order in which they are run
            for flip in (False, True):
                named = [dict(r, scenario="{} {}".format(len(rows) - k if flip else k, r["scenario"])) for k, r in enumerate(rows)]
                check(kind, spec, axis, STEP["yearly"], named, ctx, ident=("model", "scenario"))
            ctx.state(kind, "related", order)
        ctx.outcome(kind, "related", tuple(order))
        ctx.sample({"kind": kind, "related scenarios": [r["scenario"] for r in rows]})
    elif group == "extreme":
        axis = axis_of("yearly", N)
        for order in case["orders"]:
            ctx.at({"kind": kind, "extreme forcings": order})
            out = build(kind, spec).run_scenarios(run_of([EXTREME[i] for i in order], axis), progress=False)
            ts = out.timeseries()
            for i in order:
                r = EXTREME[i]
                vals = np.array(r["values"], float)
                have = ~np.isnan(vals)
                want = direct(kind, spec, vals[have], STEP["yearly"], r["unit"])
                for v, w in want.items():
                    sel = ts.xs((r["scenario"], v), level=("scenario", "variable"))
                    require(len(sel) == 1, "series missing or duplicated", scenario=r["scenario"], variable=v, found=len(sel))
                    got = sel.values.astype(float)[0][: have.sum()]
                    ok = same(got, w)
                    if not ok:
                        fin = np.isfinite(w) & (np.abs(w) < 1e290)
                        scale = max([1e-300] + [abs(x) for x in w[fin]])
                        ok = near(got[fin], w[fin], 1e-11, 1e-12 * scale)
                    require(ok, "outputs of a scenario depend on the others", scenario=r["scenario"], variable=v, got=got.tolist(),
                            expected=w.tolist(), order=order)
                    ctx.step(len(w))
            ctx.state(kind, order)
            ctx.trace(len(order))
        ctx.outcome(kind, "extreme", tuple(order))
        ctx.sample({"kind": kind, "extreme forcings": order})
    elif group == "many":
        n = case["n"]
        axis = axis_of("yearly", 6)
        rows = []
        for i in range(n):
            vals = [((i * 37 + 11 * k) % 101) / 10.0 - 3.0 for k in range(6)]
            if i % 10 == 3:
                vals[4:] = [nan, nan]
            if i % 10 == 7:
                vals[:2] = [nan, nan]
            rows.append(row(vals, "s{}".format(i % (n // 3)), member=i // (n // 3), unit=("W/m^2", "mW/m^2", "kW/m^2")[i % 3] if i % 4 else "W/m^2"))
        if case["order"] == "backward":
            rows.reverse()
        elif case["order"] == "interleaved":
            rows = rows[::2] + rows[1::2]
        ctx.at({"kind": kind, "n": n, "order": case["order"]})
        out = check(kind, spec, axis, STEP["yearly"], rows, ctx)
        idx = {}
        for meta, _ in rows_of(out):
            idx.setdefault(meta["run_idx"], set()).add((meta["scenario"], meta["member"]))
        require(len(idx) == n and all(len(v) == 1 for v in idx.values()), "run_idx does not identify the scenarios", distinct=len(idx), n=n)
        ctx.outcome(kind, n, case["order"])
        ctx.sample({"kind": kind, "scenarios": n, "order": case["order"]})
    elif group == "mixed":
        mixed(kind, spec, case["n"], ctx)
    else:
        columns(kind, spec, ctx)


def mixed(kind, spec, n, ctx):
    """Yearly and monthly scenarios in one call, in all arrangements: refused, or each one has its own timestep"""
    yearly, monthly = axis_of("yearly", 4, 2001), [t for t in axis_of("monthly", 6, 2005)]
    axis = yearly + monthly
    for word in itertools.product("ym", repeat=n):
        rows = []
        for k, w in enumerate(word):
            vals = [((k * 37 + 11 * i) % 101) / 10.0 - 3.0 for i in range(10)]
            rows.append(row([v if (i < 4) == (w == "y") else nan for i, v in enumerate(vals)], "s{}".format(k)))
        ctx.at({"kind": kind, "timesteps of the scenarios": "".join(word)})
        ctx.step()
        ctx.state(kind, "mixed", word)
        have = [i for i in range(10) if any(not np.isnan(r["values"][i]) for r in rows)]
        try:
            out = build(kind, spec).run_scenarios(
                run_of([dict(r, values=[r["values"][i] for i in have]) for r in rows], [axis[i] for i in have]), progress=False
            )
        except NotImplementedError:
            require(len(set(word)) > 1, "scenarios with one timestep refused", word=word)
            ctx.outcome("refused")
            continue
        res = rows_of(out)
        for r, w in zip(rows, word):
            verify_row(kind, spec, res, r, axis, STEP["yearly" if w == "y" else "monthly"], ctx)
        ctx.outcome("run", word)
    ctx.sample({"kind": kind, "timesteps of the scenarios": "".join(word)})


def columns(kind, spec, ctx):
    """Scenarios which differ in one metadata column only, whichever it is"""
    axis = axis_of("yearly", 4)
    base = {"model": "m", "scenario": "s", "note": "x", "member": 1, "weight": 0.5, "climate_model": "c", "flag": "no"}
    other = {"model": "m2", "scenario": "s2", "note": "", "member": 2, "weight": 0.25, "climate_model": "c2", "flag": "yes"}
    for col in base:
        for same_values in (True, False):
            for third in (False, True):
                a = row([3.0, 1.0, -2.0, 4.0], **base)
                b = row([3.0, 1.0, -2.0, 4.0] if same_values else [0.0, 5.0, 1.0, 2.0], **dict(base, **{col: other[col]}))
                rows = [a, b]
                if third:
                    rows.append(row([9.0, 8.0, nan, nan], **dict(base, scenario="third")))
                if col == "climate_model":
                    # replaced by the model's own name: without another difference these are not two series
                    rows[1] = dict(rows[1], note="y")
                ctx.at({"kind": kind, "column": col, "same values": same_values, "third": third})
                ident = tuple(c for c in base if c != "climate_model")
                check(kind, spec, axis, STEP["yearly"], rows, ctx, ident=ident)
                ctx.state(kind, col, same_values, third)
                ctx.outcome(col, same_values)
    # only the unit differs: the driver series tells which run is which
    for units in (("W/m^2", "mW/m^2"), ("kW/m^2", "W/m^2"), ("W/m^2", "mW/m^2", "kW/m^2")):
        for perm in itertools.permutations(units):
            rows = [row([3.0, 1.0, -2.0, 4.0], "s", unit=u) for u in perm]
            ctx.at({"kind": kind, "units": perm})
            res = rows_of(build(kind, spec).run_scenarios(run_of(rows, axis), progress=False))
            for r in rows:
                mine = find(res, {"variable": r["variable"], "unit": r["unit"]})
                require(len(mine) == 1, "driver series missing or duplicated", unit=r["unit"], found=len(mine))
                part = find(res, {"run_idx": mine[0][0]["run_idx"]})
                require(len(part) == (4 if kind == "tl" else 5), "number of series", got=len(part))
                verify_row(kind, spec, part, r, axis, STEP["yearly"], ctx)
            ctx.state(kind, "unit", perm)
    ctx.sample({"kind": kind, "columns": list(base)})
