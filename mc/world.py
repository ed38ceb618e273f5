"""
Driving and observing the implementation in /repo
"""
import datetime as dt
import logging
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from openscm_units import unit_registry as ur  # noqa: E402
from scmdata.run import ScmRun  # noqa: E402

import openscm_twolayermodel as pkg  # noqa: E402
from openscm_twolayermodel import ImpulseResponseModel, TwoLayerModel  # noqa: E402
from openscm_twolayermodel.errors import ModelStateError, UnitError  # noqa: E402,F401

from . import ref  # noqa: E402
from .engine import HarnessError, Violation  # noqa: E402

PKG_DIR = os.path.dirname(os.path.abspath(pkg.__file__))
REPO = os.environ.get("MC_REPO", "/repo")
if not PKG_DIR.startswith(os.path.join(REPO, "src")):
    sys.stderr.write("package under test is {}, not in {}\n".format(PKG_DIR, REPO))
    os._exit(2)

CLS = {"tl": TwoLayerModel, "ir": ImpulseResponseModel}
REF = {"tl": ref.TL, "ir": ref.IR}
PARAMS = {
    "tl": ("du", "dl", "lambda0", "a", "efficacy", "eta"),
    "ir": ("q1", "q2", "d1", "d2", "efficacy"),
}
DEFAULTS = {
    "tl": {
        "du": [50, "m"],
        "dl": [1200, "m"],
        "lambda0": [3.74 / 3, "W/m^2/delta_degC"],
        "a": [0.0, "W/m^2/delta_degC^2"],
        "efficacy": [1.0, "dimensionless"],
        "eta": [0.8, "W/m^2/delta_degC"],
        "delta_t": [1.0, "yr"],
    },
    "ir": {
        "q1": [0.3, "delta_degC/(W/m^2)"],
        "q2": [0.4, "delta_degC/(W/m^2)"],
        "d1": [9.0, "yr"],
        "d2": [400.0, "yr"],
        "efficacy": [1.0, "dimensionless"],
        "delta_t": [1 / 12, "yr"],
    },
}
# private result arrays (their names are fixed by the repository's own tests)
OUT = {
    "tl": ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"),
    "ir": ("_temp1_mag", "_temp2_mag", "_rndt_mag"),
}
VARS = {
    "tl": {
        "Surface Temperature|Upper": "delta_degC",
        "Surface Temperature|Lower": "delta_degC",
        "Heat Uptake": "W/m^2",
    },
    "ir": {
        "Surface Temperature|Box 1": "delta_degC",
        "Surface Temperature|Box 2": "delta_degC",
        "Surface Temperature": "delta_degC",
        "Heat Uptake": "W/m^2",
    },
}
NAME = {"tl": "two_layer", "ir": "two_timescale_impulse_response"}
BASE_UNIT = {
    "length": "m",
    "time": "s",
    "flux": "W/m^2",
    "feedback": "W/m^2/delta_degC",
    "feedback2": "W/m^2/delta_degC^2",
    "ratio": "dimensionless",
    "sens": "delta_degC/(W/m^2)",
    "temperature": "delta_degC",
}
DRIVER = "Effective Radiative Forcing"


def q(spec):
    """[magnitude, unit] -> quantity"""
    mag, unit = spec
    if isinstance(mag, list):
        mag = np.array(mag, dtype=float)
    return ur.Quantity(mag, unit)


def spec_with(kind, **over):
    """Default parameter specification with changes"""
    out = dict(DEFAULTS[kind])
    for k, v in over.items():
        out[k] = v if isinstance(v, (list, tuple)) else [v, out[k][1]]
    return out


def in_unit(name, value, unit):
    """Spec for a base-unit value expressed in unit"""
    return [value / ref.UNITS[ref.KIND[name]][unit], unit]


def build(kind, spec, via="ctor"):
    """A model with the parameters of spec"""
    if via == "ctor":
        return CLS[kind](**{k: q(v) for k, v in spec.items()})
    if via == "setters":
        m = CLS[kind]()
        for k in spec:
            setattr(m, k, q(spec[k]))
        return m
    if via == "reverse":
        m = CLS[kind]()
        for k in reversed(list(spec)):
            setattr(m, k, q(spec[k]))
        return m
    if via == "reused":
        # used with other parameters and drivers before
        m = CLS[kind]()
        drive(m, np.array([7.0, -3.0, 2.0, 9.0]))
        for k in spec:
            setattr(m, k, q(spec[k]))
        return m
    if via == "alternating":
        m = CLS[kind](**{k: q(v) for k, v in spec.items()})
        for k in spec:
            other = [spec[k][0] * 1.5 + 0.25, spec[k][1]]
            setattr(m, k, q(other))
            setattr(m, k, q(spec[k]))
        return m
    raise HarnessError(via)


VIAS = ("ctor", "setters", "reverse", "reused", "alternating")


def forcing(F, unit="W/m^2"):
    """Driver quantity"""
    return ur.Quantity(F if isinstance(F, np.ndarray) else np.array(F, float), unit)


def drive(m, F, how="run", unit="W/m^2"):
    """set_drivers, reset and run (or step through) the model"""
    m.set_drivers(forcing(F, unit))
    m.reset()
    if how == "run":
        m.run()
    else:
        for _ in range(len(F)):
            m.step()
    return m


def observe(kind, m):
    """Copies of the three result arrays"""
    out = []
    for n in OUT[kind]:
        out.append(np.array(getattr(m, n), copy=True))
    return out


def same(x, y):
    """Bit-identical arrays (NaN equal)"""
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)


def all_same(xs, ys):
    """Bit-identical sequences of arrays"""
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def near(x, y, rtol=1e-9, atol=0.0):
    """Equal up to rounding, element by element, NaN/inf in the same places"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return False
    fx, fy = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(fx, fy):
        return False
    if not fx.all():
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        x, y = x[fx], y[fy]
    return bool((np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y))).all())


def series_near(x, y, rtol=1e-9, floor=0.0):
    """Equal up to rtol of the largest value of the series"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return False
    fin = np.isfinite(x)
    if not np.array_equal(fin, np.isfinite(y)):
        return False
    m = max([floor] + [abs(v) for v in x[fin]] + [abs(v) for v in y[fin]])
    return near(x, y, rtol=rtol, atol=rtol * m)


def params_of(kind, m, with_dt=True):
    """Parameter readings as [magnitude, unit]"""
    names = PARAMS[kind] + (("delta_t",) if with_dt else ())
    out = {}
    for n in names:
        v = getattr(m, n)
        out[n] = [v.magnitude, str(v.units)]
    return out


def frame_to_list(x):
    """Array as plain list for reports"""
    return [None if v != v else float(v) for v in np.asarray(x, float).ravel()]


def check_steps(kind, spec, m, F, ctx, what=("temp", "uptake"), rtol=1e-11, obs=None, specs=None):
    """
    Conformance of a whole run with the reference transition system

    Every transition of the implementation has to be the reference transition
    from the state the implementation was in; with the initial state checked,
    the whole trace conforms by induction. specs: parameters in force at each step, if they change
    """
    model = REF[kind](spec)
    x, y, n = obs if obs is not None else observe(kind, m)
    if not len(x) == len(y) == len(n) == len(F):
        raise Violation("number of values differs from number of drivers", spec=spec)
    if len(F) == 0:
        return
    if not (x[0] == 0 and y[0] == 0) and "temp" in what:
        raise Violation("first temperatures not zero", spec=spec, got=[x[0], y[0]])
    if not n[0] == 0 and "uptake" in what:
        raise Violation("first heat uptake not zero", spec=spec, got=n[0])
    for i in range(1, len(F)):
        f = float(F[i - 1])
        s = (float(x[i - 1]), float(y[i - 1]))
        if not ref.finite(s[0], s[1], f):
            ctx.step()
            if ref.finite(float(x[i])):
                raise Violation("finite value after non-finite", spec=spec, i=i)
            continue
        ctx.step()
        ctx.state(kind, s, f)
        if specs is not None:
            spec = specs[i]
            model = REF[kind](spec)
        try:
            want, scale = model.step(s, f)
            up, us, uy = model.uptake(s, f)
        except OverflowError:
            continue
        if not ref.finite(us, *scale) or max(us, *scale) > 1e280:
            continue  # overflow: order of operations decides
        if "temp" in what:
            for lab, got, w, sc in (
                ("first", x[i], want[0], scale[0]),
                ("second", y[i], want[1], scale[1]),
            ):
                if not abs(float(got) - w) <= rtol * sc + 1e-300:
                    raise Violation(
                        "{} temperature is not the model transition".format(lab),
                        model=kind,
                        spec=spec,
                        step=i,
                        previous=s,
                        forcing=f,
                        got=float(got),
                        expected=w,
                        scale=sc,
                    )
        if "uptake" in what:
            # storage form: temperature round-off enters multiplied by C/dt
            tol = max(rtol, 1e-11) * us + 64 * ref.EPS * uy * (rtol / 1e-11)
            if not abs(float(n[i]) - up) <= tol + 1e-300:
                raise Violation(
                    "heat uptake does not close the energy budget",
                    model=kind,
                    spec=spec,
                    step=i,
                    previous=s,
                    forcing=f,
                    got=float(n[i]),
                    expected=up,
                    tolerance=tol,
                )


# ---------------------------------------------------------------- scenarios


def years(start, n):
    """Yearly axis"""
    return [dt.datetime(start + i, 1, 1) for i in range(n)]


def months(start, n, month=1):
    """Monthly axis"""
    out = []
    y, mth = start, month
    for _ in range(n):
        out.append(dt.datetime(y, mth, 1))
        mth += 1
        if mth == 13:
            y, mth = y + 1, 1
    return out


def run_of(rows, index):
    """
    ScmRun of rows [{"values": [...], <meta>}]

    Missing metadata gets defaults.
    """
    names = []
    for r in rows:
        for k in r:
            if k not in names and k != "values":
                names.append(k)
    cols = {}
    for i, r in enumerate(rows):
        for k in names:
            cols.setdefault(k, []).append(r.get(k, np.nan))
    data = np.array([r["values"] for r in rows], float).T
    return ScmRun(data=data, index=index, columns=cols)


def row(values, scenario="s", **meta):
    """One driver row"""
    out = {
        "model": "m",
        "scenario": scenario,
        "region": "World",
        "variable": DRIVER,
        "unit": "W/m^2",
        "values": list(values),
    }
    out.update(meta)
    return out


def by_series(run, keys=("scenario", "variable")):
    """{labels: values} of an ScmRun, checking that labels are unique"""
    ts = run.timeseries()
    out = {}
    for label, r in ts.iterrows():
        meta = dict(zip(ts.index.names, label))
        k = tuple(meta.get(x) for x in keys)
        if k in out:
            raise Violation("series duplicated in output", key=k)
        out[k] = r.values.astype(float)
    return out


def snapshot(run):
    """Everything observable about an ScmRun"""
    ts = run.timeseries()
    meta = run.meta.copy()
    return (
        ts.copy(deep=True),
        meta,
        list(run["time"]) if "time" in dir(run) or True else None,
    )


def same_frames(x, y):
    """Exact equality of two timeseries frames (labels, order, values)"""
    if list(x.index.names) != list(y.index.names):
        return False
    if list(x.columns) != list(y.columns):
        return False
    lx = [tuple(map(repr, t)) for t in x.index]
    ly = [tuple(map(repr, t)) for t in y.index]
    if lx != ly:
        return False
    return same(x.values.astype(float), y.values.astype(float))


def same_output(x, y):
    """Exact equality of two outputs up to the order of metadata columns"""
    return same_frames(canon_frame(x), canon_frame(y))


def canon_frame(run, drop=()):
    """Timeseries with sorted metadata columns and rows"""
    ts = run.timeseries() if not isinstance(run, pd.DataFrame) else run
    names = sorted(n for n in ts.index.names if n not in drop)
    rest = [n for n in ts.index.names if n in drop]
    if rest:
        ts = ts.reset_index(rest, drop=True)
    if len(names) > 1:
        ts = ts.reorder_levels(names)
    order = sorted(range(len(ts)), key=lambda i: tuple(map(repr, ts.index[i])))
    return ts.iloc[order]


def expect(exc_types, func, ctx, what, **detail):
    """func must raise one of exc_types; return the exception"""
    ctx.evaluate()
    try:
        got = func()
    except exc_types as exc:
        return exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            "{}: raised {} ({}) instead of {}".format(
                what, type(exc).__name__, exc, exc_types
            ),
            **detail
        )
    raise Violation(
        "{}: accepted, expected {}".format(what, exc_types), got=repr(got)[:200], **detail
    )


def require(cond, message, /, **detail):
    """Raise a Violation unless cond (callable details are evaluated then)"""
    if not cond:
        raise Violation(message, **{k: v() if callable(v) else v for k, v in detail.items()})


def words(alphabet, n):
    """All words of length n"""
    if n == 0:
        yield ()
        return
    for w in words(alphabet, n - 1):
        for x in alphabet:
            yield w + (x,)


def chunked(seq, n):
    """Lists of n"""
    seq = list(seq)
    return [seq[i : i + n] for i in range(0, len(seq), n)]


def isnan(x):
    """NaN test for anything"""
    try:
        return math.isnan(x)
    except TypeError:
        return False
