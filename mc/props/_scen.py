"""Shared helpers for the run_scenarios checks"""
import numpy as np
import pandas as pd

from .. import ref
from ..world import (
    CLS, DEFAULTS, DRIVER, NAME, PARAMS, VARS, all_same, build, canon_frame, drive, forcing, isnan, near, observe, q,
    require, row, run_of, same, same_frames, ur, years, months,
)

STEP = {"yearly": [1.0, "yr"], "monthly": [1.0, "month"]}


def axis_of(name, n, start=2001):
    """Time axis by name"""
    return years(start, n) if name == "yearly" else months(start, n, 11)


_DIRECT = {}


def direct(kind, spec, F, step, unit="W/m^2"):
    """Outputs of a new model driven directly with F, as {variable: values}"""
    key = (kind, repr(sorted(spec.items())), repr([float(f) for f in F]), tuple(step), unit)
    if key not in _DIRECT:
        if len(_DIRECT) > 3000:
            _DIRECT.clear()
        s = dict(spec, delta_t=list(step))
        m = build(kind, s)
        drive(m, np.array(F, float), unit=unit)
        x, y, n = observe(kind, m)
        names = list(VARS[kind])
        out = {names[0]: x, names[1]: y, "Heat Uptake": n}
        if kind == "ir":
            out["Surface Temperature"] = x + y
        _DIRECT[key] = out
    return _DIRECT[key]


def rows_of(out):
    """[(meta dict, {time: value})] of every series with its available values"""
    ts = out.timeseries()
    res = []
    for label, r in ts.iterrows():
        meta = dict(zip(ts.index.names, label))
        res.append((meta, {t: float(v) for t, v in zip(ts.columns, r.values) if not np.isnan(v)}))
    return res


def eq_meta(a, b):
    """Metadata values equal (NaN equal to NaN)"""
    if isnan(a) and isnan(b):
        return True
    try:
        return bool(a == b)
    except Exception:  # pylint: disable=broad-except
        return False


def find(res, wanted):
    """Series of the output with the wanted metadata"""
    return [
        (m, v)
        for m, v in res
        if all(k in m and eq_meta(m[k], w) for k, w in wanted.items())
    ]


def verify_row(kind, spec, res, r, axis, step, ctx, ident=("model", "scenario"), rtol=None):
    """
    The output holds exactly this driver row and the model's series for it

    r["values"] may have missing values at its ends.
    """
    vals = np.array(r["values"], float)
    have = ~np.isnan(vals)
    times = [t for t, h in zip(axis, have) if h]
    want = dict(direct(kind, spec, vals[have], step, r.get("unit", "W/m^2")))
    want[r["variable"]] = vals[have]
    key = {k: r[k] for k in ident}
    for v, w in want.items():
        hits = find(res, dict(key, variable=v))
        require(len(hits) == 1, "output has not exactly one series", variable=v, identified_by=key, found=len(hits))
        got = hits[0][1]
        require([t for t in got] == times, "output does not have values exactly where the driver has", variable=v,
                identified_by=key, got=[str(t) for t in got], expected=[str(t) for t in times])
        g = np.array(list(got.values()))
        ok = same(g, w) if rtol is None else near(g, w, rtol, rtol * max([1e-30] + [abs(x) for x in w]))
        require(ok or near(g, w, 1e-12, 1e-13 * max([1e-30] + [abs(x) for x in w])),
                "output differs from a direct run", variable=v, identified_by=key, got=g.tolist(), expected=np.asarray(w).tolist())
        ctx.step(len(w))
    ctx.evaluate(len(want))
    ctx.trace()


def frozen(run):
    """Everything the caller can see of a ScmRun"""
    ts = run.timeseries()
    return (
        list(ts.index.names),
        [tuple(map(repr, t)) for t in ts.index],
        [repr(c) for c in ts.columns],
        ts.values.astype(float).tobytes(),
        [repr(t) for t in run["time"]],
        sorted(run.meta.columns),
        repr(sorted(run.metadata.items(), key=repr)),
    )


def frame_frozen(df):
    """Everything the caller can see of a DataFrame"""
    return (
        list(df.index.names),
        [tuple(map(repr, t)) if isinstance(t, tuple) else repr(t) for t in df.index],
        [repr(c) for c in df.columns],
        [str(t) for t in df.dtypes],
        [[repr(v) for v in r] for r in df.values],
    )


def physical(kind, m):
    """Readings of the physical parameters"""
    return {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in PARAMS[kind]}
