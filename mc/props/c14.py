"""C14: purity and determinism"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from scmdata.run import ScmRun

from .. import spaces
from ..world import (
    CLS, DEFAULTS, DRIVER, PARAMS, all_same, build, canon_frame, chunked, drive, forcing, near, observe, q, require, row,
    run_of, same, same_frames, ur, years, months,
)
from . import _dyn
from ._scen import axis_of, frame_frozen, frozen

RULE = (
    "all combinations of scenario set (15, incl. missing data, single points, zeros, extra metadata, other variables, other units, unsorted time) x "
    "container (ScmRun and a subclass, DataFrames in 6 forms, CSV file) x progress bar x model x first/second call: input unchanged, output equal "
    "to the first one, and unaffected by later changes of the input; all array forms of drivers and "
    "parameter objects for direct runs"
)
BOUNDS = {"quick": "15 sets x 9 containers x 2 options x 2 models x 2 axes", "thorough": "the same with 3 parameter sets"}
CONFORMANCE = "self-composition on real executions"
ASSUMPTIONS = ["CSV text round trip of floats allowed 1e-12 relative"]

nan = np.nan


def scenario_sets(axis):
    """Named row lists"""
    a, b, c = [3.74, -2.5, 6.0, 1.0], [1.0, 2.0, 3.0, 4.0], [0.0, 0.0, 8.0, -1.0]
    return {
        "one": [row(a, "a")],
        "three": [row(a, "a"), row(b, "b"), row(c, "c")],
        "reversed": [row(a, "z"), row(b, "m"), row(c, "a")],
        "units": [row(a, "a", unit="mW/m^2"), row(b, "b", unit="kW/m^2"), row(c, "c")],
        "trailing": [row(a, "a"), row([1.0, 2.0, nan, nan], "b")],
        "leading": [row([nan, nan, 1.0, 2.0], "a"), row(b, "b")],
        "meta": [row(a, "a", member=1, note="x"), row(b, "a", member=2, note="y")],
        "nanmeta": [row(a, "a", member=1.5), row(b, "b")],
        "variables": [row(a, "a"), row(b, "a", variable="Emissions|CO2", unit="GtC/yr"), row(c, "a", region="World|Northern Hemisphere")],
        "climate_model": [row(a, "a", climate_model="other"), row(b, "b", climate_model="unspecified")],
        "clash": [row(a, "a", run_idx=7), row(b, "b", run_idx=3)],
        "single": [row([nan, -3.0, nan, nan], "a"), row([0.0, nan, nan, nan], "b"), row(c, "c")],
        "alone": [row([5.0, nan, nan, nan], "a")],
        "zeros": [row([0.0] * 4, "a"), row([-0.0] * 4, "b")],
        "integers": [row([1, 2, 3, 4], "a"), row([4, 3, 2, 1], "b")],
    }


SETS = list(scenario_sets("yearly"))
CONTAINERS = ("ScmRun", "DataFrame", "flat frame", "year frame", "flat year frame", "long frame", "long year frame", "subclass", "csv")


class Scenarios(ScmRun):
    """A user's own kind of ScmRun"""


def frame_form(kind, df, yearly):
    """The DataFrame in another form (None: not possible)"""
    if "year" in kind:
        if not yearly:
            return None
        df = df.copy()
        df.columns = [t.year for t in df.columns]
    if kind == "DataFrame" or kind == "year frame":
        return df
    names = list(df.index.names)
    flat = df.reset_index()
    if "flat" in kind:
        return flat
    if any(flat[n].isna().any() for n in names):
        return None
    out = flat.melt(id_vars=names, var_name="year" if "year" in kind else "time", value_name="value")
    return out if out["value"].notna().all() else None


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in (1, 0, 2) if tier == "thorough" else (1,):
            for axis in ("yearly", "monthly"):
                for s in SETS:
                    out.append({"group": "scen", "kind": kind, "base": b, "axis": axis, "set": s})
            for b2 in range(3):
                out.append({"group": "direct", "kind": kind, "base": b2})
        out.append({"group": "shuffled", "kind": kind})
    return out


def container(kind, rows, axis, tmp):
    """(object to pass, function telling whether it is unchanged, mutator)"""
    run = run_of(rows, axis)
    if kind == "subclass":
        run = Scenarios(run.timeseries())
    if kind in ("ScmRun", "subclass"):
        f0 = frozen(run)

        def spoil():
            run["scenario"] = ["spoiled {}".format(i) for i in range(len(run.meta))]
            with contextlib.suppress(Exception):
                run._df.iloc[:, :] = -999.0  # pylint: disable=protected-access

        return run, lambda: frozen(run) == f0, spoil
    df = run.timeseries()
    if "rame" in kind:
        df = frame_form(kind, df, axis[1].year - axis[0].year == 1)
        if df is None:
            return None, None, None
        f0 = frame_frozen(df)

        def spoil():
            for i in range(df.shape[1]):
                if df.iloc[:, i].dtype == float:
                    df.iloc[:, i] = -999.0

        return df, lambda: frame_frozen(df) == f0, spoil
    path = os.path.join(tmp, "scenarios.csv")
    df.to_csv(path)
    text = open(path, "rb").read()
    names = sorted(os.listdir(tmp))

    def spoil():
        with open(path, "w") as fh:
            fh.write("spoiled")

    return path, lambda: open(path, "rb").read() == text and sorted(os.listdir(tmp)) == names, spoil


def frame_values(out):
    return canon_frame(out)


def bits(x, y):
    """Equal frames, down to the sign of zero"""
    if not same_frames(x, y):
        return False
    a, b = x.values.astype(float), y.values.astype(float)
    ok = ~np.isnan(a)
    return np.array_equal(np.signbit(a[ok]), np.signbit(b[ok]))


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "direct":
        direct(kind, case["base"], ctx)
        return
    if case["group"] == "shuffled":
        shuffled(kind, ctx)
        return
    spec = _dyn.base_points(kind)[case["base"]]
    axis = axis_of(case["axis"], 4)
    rows = scenario_sets(case["axis"])[case["set"]]
    tmp = tempfile.mkdtemp(prefix="mc-c14-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        base = None
        for cont in CONTAINERS:
            for progress in (False, True):
                obj, intact, spoil = container(cont, rows, axis, tmp)
                if obj is None:
                    continue
                m = build(kind, spec)
                pobjs = {n: getattr(m, n) for n in PARAMS[kind]}
                before = {n: (v.magnitude, str(v.units)) for n, v in pobjs.items()}
                ctx.at({"kind": kind, "set": case["set"], "container": cont, "progress": progress, "axis": case["axis"]})
                outs = []
                for _ in range(2):
                    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                        out = m.run_scenarios(obj, progress=progress)
                    ctx.step()
                    require(intact(), "run_scenarios changed its input", container=cont, set=case["set"])
                    require(isinstance(out, ScmRun), "result is no ScmRun", got=type(out).__name__)
                    outs.append(out)
                f1, f2 = frame_values(outs[0]), frame_values(outs[1])
                require(bits(f1, f2), "same call, different result", container=cont, set=case["set"])
                if base is None:
                    base = f1
                elif cont != "csv":
                    want = base
                    if "long" in cont:
                        # scmdata orders the series of a long table by their metadata
                        want = frame_values(build(kind, spec).run_scenarios(ScmRun(obj.copy()), progress=False))
                    require(bits(f1, want), "result depends on container or progress bar", container=cont, progress=progress,
                            set=case["set"], got=lambda: str(f1), expected=lambda: str(want))
                else:
                    require(f1.shape == base.shape and near(f1.values, base.values, 1e-11, 1e-18), "result depends on container",
                            container=cont, set=case["set"])
                    require(labels(f1) == labels(base), "labels depend on container", container=cont, set=case["set"],
                            got=labels(f1), expected=labels(base))
                # later changes of the input do not reach the output, nor the other way round
                copy = f1.copy(deep=True)
                outs[1]["scenario"] = ["renamed {}".format(i) for i in range(len(outs[1].meta))]
                with contextlib.suppress(Exception):
                    outs[1]._df.iloc[:, :] = 1e9  # pylint: disable=protected-access
                require(intact(), "changing the output changed the input", container=cont, set=case["set"])
                require(same_frames(frame_values(outs[0]), copy), "outputs of two calls are connected", container=cont)
                spoil()
                require(same_frames(frame_values(outs[0]), copy), "changing the input changed an earlier output", container=cont)
                require(all(getattr(m, n) is v or getattr(m, n) == v for n, v in pobjs.items())
                        and before == {n: (v.magnitude, str(v.units)) for n, v in pobjs.items()}, "parameter objects changed")
                ctx.state(kind, case["set"], cont, progress, case["axis"])
                ctx.trace(2)
                ctx.evaluate(6)
                ctx.outcome(f1.values.tobytes())
                if cont == "csv":
                    os.unlink(os.path.join(tmp, "scenarios.csv"))
                require(not os.listdir(tmp), "run_scenarios left files behind", files=os.listdir(tmp))
        ctx.sample({"kind": kind, "set": case["set"], "axis": case["axis"], "containers": CONTAINERS})
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def labels(df):
    """Labels with numbers by value"""
    def norm(x):
        if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
            return "{:.12g}".format(float(x))
        return str(x)

    return (list(df.index.names), sorted(tuple(norm(v) for v in t) for t in df.index), [str(c) for c in df.columns])


def shuffled(kind, ctx):
    """All orders of four time points and three scenarios give the same result"""
    spec = _dyn.base_points(kind)[1]
    base = None
    ax, rows = years(2001, 4), scenario_sets("yearly")["three"]
    for perm in itertools.permutations(range(4)):
        for rperm in itertools.permutations(range(3)) if perm == (0, 1, 2, 3) or perm == (3, 1, 0, 2) else [(0, 1, 2)]:
            rs = [dict(rows[i], values=[rows[i]["values"][p] for p in perm]) for i in rperm]
            data = run_of(rs, [ax[p] for p in perm])
            f0 = frozen(data)
            ctx.at({"kind": kind, "time order": perm, "row order": rperm})
            out = canon_frame(build(kind, spec).run_scenarios(data, progress=False), drop=("run_idx",))
            require(frozen(data) == f0, "run_scenarios changed its input")
            base = out if base is None else base
            require(same_frames(out, base), "result depends on the order of points or rows", time_order=perm, row_order=rperm)
            ctx.step()
            ctx.state(kind, perm, rperm)
            ctx.trace()
    ctx.sample({"kind": kind, "orders": 24})


def special_values():
    """Values which invite a clean-up, and other lengths"""
    inf = float("inf")
    out = [("inf", np.array([1.0, inf, 2.0, -inf, 3.0])), ("inf last", np.array([1.0, 2.0, -2.0, inf])), ("huge", np.array([1e308, -1e308, 1e300, 0.0])),
           ("tiny", np.array([5e-324, 1e-310, -1e-300, 0.0, -0.0])), ("one", np.array([2.0])), ("two", np.array([-0.0, 1.0])),
           ("sixty", np.sin(np.arange(60.0))), ("many", np.cos(np.arange(700.0))), ("noise", 1.0 + 1e-16 * np.arange(9.0))]
    mixed = np.arange(24.0).reshape(4, 6)
    out.append(("row of a matrix", mixed[2]))
    out.append(("column of a matrix", mixed[:, 3]))
    return out


def direct(kind, b, ctx):
    spec = _dyn.base_points(kind)[b]
    for name, arr in spaces.dtypes() + special_values():
        for wrap in ("array", "copy"):
            data = arr if wrap == "array" else arr.copy()
            before = data.tobytes()
            fq = ur.Quantity(data, "W/m^2")
            for unit in ("W/m^2", "mW/m^2"):
                fq = ur.Quantity(data, unit)
                params = {k: q(v) for k, v in spec.items()}
                snap = {k: (v.magnitude, str(v.units), id(v)) for k, v in params.items()}
                m = CLS[kind](**params)
                ctx.at({"kind": kind, "drivers": name, "unit": unit})
                res = []
                for _ in range(3):
                    m.set_drivers(fq)
                    m.reset()
                    m.run()
                    res.append(observe(kind, m))
                    ctx.step(len(data))
                    require(data.tobytes() == before and fq.magnitude.tobytes() == before and str(fq.units) == str(ur.Quantity(1, unit).units),
                            "run changed its drivers", dtype=name)
                    for o in observe_raw(kind, m):
                        require(not np.shares_memory(o, data), "results share memory with drivers", dtype=name)
                require(all_same(res[0], res[1]) and all_same(res[0], res[2]), "same run, different results", dtype=name)
                require(snap == {k: (v.magnitude, str(v.units), id(v)) for k, v in params.items()}, "parameter objects changed")
                ctx.trace(3)
                ctx.outcome(kind, b, name, unit, res[0][0].tobytes())
            ctx.state(kind, b, name, wrap)
    # conversions leave everything alone
    s = dict(spec)
    if kind == "tl":
        s["a"] = [0.0, s["a"][1]]
    params = {k: q(v) for k, v in s.items()}
    m = CLS[kind](**params)
    conv = []
    for _ in range(3):
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
        conv.append({k: repr(v) for k, v in p.items()})
        p.clear()
    require(conv[0] == conv[1] == conv[2], "conversion not repeatable", got=conv)
    require(all(getattr(m, k) == v and params[k].magnitude == s[k][0] for k, v in params.items()), "conversion changed the model")
    ctx.sample({"kind": kind, "driver forms": [n for n, _ in spaces.dtypes()]})


def observe_raw(kind, m):
    from ..world import OUT

    return [getattr(m, n) for n in OUT[kind]]
