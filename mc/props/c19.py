"""C19: structure and labels of the output"""
import itertools

import numpy as np

from .. import ref
from ..world import (
    CLS, DEFAULTS, DRIVER, NAME, PARAMS, VARS, build, dt, expect, in_unit, isnan, near, q, require, row, run_of, same, ur, years, months,
)
from . import _dyn
from ._scen import STEP, axis_of, direct, eq_meta, rows_of

RULE = (
    "all combinations of metadata set (23: extra, missing, numeric, clashing with columns the run adds) x parameter set (8: "
    "units, number types) x axis (4) x model: every series of the output is accounted for - its variable, unit, time points, "
    "values, metadata, climate_model, run_idx and parameter columns; outputs fed back as scenarios of either model"
)
BOUNDS = {
    "quick": "23 x 8 x 2 axes x 2 models, every parameter in every unit, 260 and 751 time points, calls with up to 300 scenarios, feedback chains of length 2",
    "thorough": "23 x 8 x 4 axes x 2 models, calls with up to 1100 scenarios, feedback chains of length 3",
}
CONFORMANCE = "the list of expected series is constructed from the scenarios and direct runs"
ASSUMPTIONS = ["the order of series and of metadata columns is free", "further columns are allowed"]

nan = np.nan
A, B, C = [3.74, -2.5, 6.0, 1.0], [1.0, 2.0, 3.0, 4.0], [0.0, 0.0, 8.0, -1.0]


def meta_sets():
    """Named row lists"""
    return {
        "one": [row(A, "a")],
        "two": [row(A, "a"), row(B, "b")],
        "descending": [row(A, "z"), row(B, "y"), row(C, "x")],
        "text": [row(A, "a", note="x", source="CMIP6 |*(?) [weird]"), row(B, "a", note="y", source="")],
        "numbers": [row(A, "a", member=1, weight=0.25), row(B, "a", member=2, weight=0.25), row(C, "a", member=10, weight=-1e-9)],
        "nan": [row(A, "a", member=1.5, note="x"), row(B, "b")],
        "models": [row(A, "a", model="m"), row(B, "a", model="n"), row(C, "a", model="unspecified")],
        "climate_model": [row(A, "a", climate_model="MAGICC7"), row(B, "b", climate_model="two_layer")],
        "run_idx": [row(A, "a", run_idx=17), row(B, "b", run_idx=4)],
        "run_idx same": [row(A, "a", run_idx=3), row(B, "b", run_idx=3), row(C, "c", run_idx=3)],
        "run_idx text": [row(A, "a", run_idx="x"), row(B, "b", run_idx="x")],
        "empty text": [row(A, "", comment="", model=""), row(B, "b", comment="", model=" "), row(C, "", comment=" ", model="")],
        "units": [row(A, "a"), row(B, "b", unit="mW/m^2"), row(C, "c", unit="W / m ** 2")],
        "lengths": [row(A, "a"), row([1.0, 2.0, nan, nan], "b"), row([nan, 0.0, 8.0, -1.0], "c")],
        "leading": [row([nan, nan, 5.0, 6.0], "a")],
        "params": [row(A, "a", **{"du (meter)": 3.0, "d1 (year)": 3.0}), row(B, "b", **{"du (meter)": 4.0, "d1 (year)": 4.0})],
        "others": [row(A, "a"), row(B, "a", variable="Emissions|CO2", unit="GtC/yr"), row(C, "a", region="R5ASIA"), row(C, "c")],
        "bools": [row(A, "a", flag=True), row(B, "b", flag=False)],
        "tiny": [row([1e-14, 1e-13, 3e-14, 1e-9], "a"), row([1e-300, -1e-300, 1e-290, 0.0], "b"), row([0.0] * 4, "c")],
        "huge": [row([1e14, -1e13, 3e14, 1e9], "a"), row([1e100, -1e100, 1e90, 0.0], "b", unit="kW/m^2")],
        "exact": [row([1 / 3, 0.1 + 0.2, 2 / 3, 1e-3 / 7], "a"), row([1.0000000000000002, 123456789.12345679, -1 / 7, 3.0], "b")],
        "names": [row(A, "a|b", model="m|n"), row(B, "a"), row(C, "A"), row(A, "a*"), row(B, " a "), row(C, "a|b|c"), row(A, "ssp5-8.5 (\u00fcn\u00efcode)"),
                  row(B, "World"), row(C, "x" * 300), row(A, "Effective Radiative Forcing"), row(B, "a/b.c:d;e,f"), row(C, "2020")],
        "same": [row(A, "a"), row(A, "b"), row(A, "c")],
    }


SPECS = {
    "tl": [
        {},
        {"du": [0.07, "km"], "dl": [640, "m"], "lambda0": [1100.0, "mW/m^2/K"], "eta": [0.7, "W/m^2/K"]},
        {"du": [55, "m"], "lambda0": [1, "W/m^2/delta_degC"], "a": [0.05, "W/m^2/K^2"], "efficacy": [1.2, "dimensionless"]},
        {"efficacy": [1300.0, "m/km"], "dl": [130000.0, "cm"], "a": [0, "W/m^2/delta_degC^2"]},
        {"efficacy": [2, "dimensionless"], "eta": [0.0, "W/m^2/delta_degC"]},
        {"a": [-20.0, "mW/m^2/K^2"], "lambda0": [0.9e-3, "kW/m^2/K"]},
        {"du": [1e-3, "m"], "dl": [1e15, "m"], "lambda0": [5.0, "W/m^2/delta_degC"]},
        {"du": [0.1 + 0.2, "m"], "lambda0": [3.74 / 3, "W/m^2/K"], "eta": [1 / 3, "W/m^2/K"], "efficacy": [1 / 1.3, "dimensionless"]},
    ],
    "ir": [
        {},
        {"d1": [30.0, "month"], "d2": [0.3, "kyr"], "q1": [330.0, "mK/(W/m^2)"], "q2": [0.41, "K/(W/m^2)"]},
        {"d1": [3, "yr"], "d2": [150, "yr"], "q1": [1, "delta_degC/(W/m^2)"], "efficacy": [1.2, "dimensionless"]},
        {"efficacy": [1300.0, "m/km"], "d2": [1e5, "day"]},
        {"efficacy": [2, "dimensionless"], "q1": [0.01, "delta_degC/(W/m^2)"]},
        {"q2": [0.0, "delta_degC/(W/m^2)"]},
        {"d1": [1e-3, "yr"], "d2": [1e6, "yr"]},
        {"d1": [0.1 + 0.2, "yr"], "q1": [1 / 3, "K*m^2/W"], "efficacy": [1 / 1.3, "dimensionless"]},
    ],
}
AXES = {
    "yearly": years(2001, 4),
    "monthly": months(1999, 4, 11),
    "old": years(1499, 4),
    "midmonth": [dt.datetime(2100, m, 16, 12) for m in (1, 2, 3, 4)],
}
SETS = list(meta_sets())


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for s in range(len(SPECS[kind])):
            for axis in AXES if deep else ("yearly", "monthly"):
                out.append({"group": "sets", "kind": kind, "spec": s, "axis": axis})
        for axis in AXES:
            out.append({"group": "sets", "kind": kind, "spec": 2, "axis": axis})
        for s in range(len(SPECS[kind])):
            out.append({"group": "chain", "kind": kind, "spec": s, "depth": 3 if deep else 2})
        for c in range(4):
            out.append({"group": "units", "kind": kind, "spec": 2, "part": c})
        for axis in ("yearly", "monthly"):
            out.append({"group": "long", "kind": kind, "spec": 2, "axis": axis})
            out.append({"group": "long", "kind": kind, "spec": 2, "axis": axis, "n": 751})
        for n in (33, 129, 300) + ((1100,) if deep else ()):
            out.append({"group": "many", "kind": kind, "spec": 2, "n": n})
    return out


def spec_of(kind, i):
    out = dict(DEFAULTS[kind])
    out.update(SPECS[kind][i])
    return out


def param_columns(kind, meta, m_spec):
    """Check the 'name (unit)' columns of one series"""
    for n in PARAMS[kind]:
        mag, unit = m_spec[n]
        want = ur.Quantity(mag, unit)
        label = "{} ({})".format(n, want.units)
        cols = [c for c in meta if str(c) == label]
        require(len(cols) == 1, "no column for parameter", parameter=n, expected=label, columns=[str(c) for c in meta])
        require(eq_meta(meta[cols[0]], mag), "parameter recorded with another value", parameter=n, got=meta[cols[0]], expected=mag)


def verify(kind, spec, m_spec, out, rows, axis, ctx, step):
    """Account for every series of the output"""
    res = rows_of(out)
    drivers = [r for r in rows if r["variable"] == DRIVER and r["region"] == "World"]
    names = list(VARS[kind])
    require(len(res) == len(drivers) * (1 + len(names)), "number of series", got=len(res), expected=len(drivers) * (1 + len(names)),
            series=[(m.get("scenario"), m.get("variable")) for m, _ in res][:40])
    seen = {}
    used = set()
    replaced = {"climate_model", "run_idx"} | {"{} ({})".format(n, ur.Quantity(1, m_spec[n][1]).units) for n in PARAMS[kind]}
    cols = []
    for r in drivers:
        for k in r:
            if k not in cols and k != "values":
                cols.append(k)
    for r in drivers:
        vals = np.array(r["values"], float)
        have = ~np.isnan(vals)
        want = dict(direct(kind, spec, vals[have], step, r["unit"]))
        expected = [(r["variable"], r["unit"], vals[have])] + [(v, VARS[kind][v], want[v]) for v in names]
        run_ids = set()
        for v, unit, values in expected:
            hits = []
            for i, (meta, got) in enumerate(res):
                if meta.get("variable") != v or meta.get("unit") != unit:
                    continue
                if all(c in meta and eq_meta(meta[c], r.get(c, nan)) for c in cols if c not in replaced | {"variable", "unit"}):
                    hits.append((i, meta, got))
            require(len(hits) == 1, "not exactly one output series with the driver's metadata", variable=v, unit=unit, found=len(hits),
                    scenario=r["scenario"], output=[{str(k): str(x) for k, x in m.items()} for m, _ in res][:6])
            i, meta, got = hits[0]
            require(i not in used, "one output series for two drivers", variable=v)
            used.add(i)
            times = [t for t, h in zip(axis, have) if h]
            require([str(t) for t in got] == [str(t) for t in times], "time points differ from the driver's", got=[str(t) for t in got],
                    expected=[str(t) for t in times], variable=v)
            g = np.array(list(got.values()))
            exact = v == r["variable"]
            require(same(g, values) or (not exact and near(g, values, 1e-12, 1e-13 * max([1e-30] + [abs(x) for x in values]))),
                    "values under a wrong label or changed", variable=v, got=g.tolist(), expected=np.asarray(values).tolist())
            require(meta.get("climate_model") == NAME[kind], "climate_model", got=meta.get("climate_model"), expected=NAME[kind], variable=v)
            require("run_idx" in meta and not isnan(meta["run_idx"]), "no run_idx", variable=v)
            run_ids.add(float(meta["run_idx"]))
            param_columns(kind, meta, m_spec)
            ctx.step()
        require(len(run_ids) == 1, "series of one scenario have different run_idx", got=sorted(run_ids))
        rid = run_ids.pop()
        require(rid not in seen, "two scenarios share a run_idx", run_idx=rid)
        seen[rid] = True
    require(len(used) == len(res), "output has series nobody asked for", extra=len(res) - len(used))
    ctx.evaluate(len(res))
    ctx.trace()


def many(kind, m_spec, n, ctx):
    """Many scenarios in one call: labels stay one-to-one"""
    axis = AXES["yearly"]
    rows = [row([k + 1.0, 0.5 * k, -k, 1.0], "s{}".format(k % 40), member=k // 40) for k in range(n)]
    ctx.at({"kind": kind, "scenarios": n})
    out = build(kind, dict(m_spec, delta_t=[1.0, "yr"])).run_scenarios(run_of(rows, axis), progress=False)
    res = rows_of(out)
    names = [DRIVER] + list(VARS[kind])
    require(len(res) == n * len(names), "number of series", got=len(res), expected=n * len(names))
    got = {}
    for meta, values in res:
        key = (meta["scenario"], int(meta["member"]), meta["variable"])
        require(key not in got, "series twice in the output", series=key)
        require(meta.get("climate_model") == NAME[kind] and len(values) == 4, "series mislabelled", series=key)
        got[key] = (meta, np.array(list(values.values())))
        ctx.step()
    ids = {}
    for k, r in enumerate(rows):
        want = dict(direct(kind, m_spec, r["values"], STEP["yearly"], "W/m^2"))
        want[DRIVER] = r["values"]
        for v in names:
            meta, g = got[(r["scenario"], r["member"], v)]
            require(near(g, want[v], 1e-12, 1e-12 * (k + 1)), "values under a wrong label", series=(r["scenario"], r["member"], v))
            rid = repr(float(meta["run_idx"]))
            require(ids.setdefault(rid, k) == k, "two scenarios share a run_idx", run_idx=rid, scenarios=(ids[rid], k))
        ctx.state(kind, "many", n, k)
    require(len(ids) == n, "not one run_idx per scenario", got=len(ids), expected=n)
    ctx.trace()
    ctx.sample({"kind": kind, "scenarios in one call": n})


def run(case, ctx):
    kind = case["kind"]
    m_spec = spec_of(kind, case["spec"])
    m_spec.pop("delta_t")
    if case["group"] == "many":
        many(kind, m_spec, case["n"], ctx)
        return
    if case["group"] == "long":
        n = case.get("n", 260)
        F = [(7 * i % 23) / 3.0 - 2.0 + 1 / 3 for i in range(n)]
        axis = axis_of(case["axis"], n)
        rows = [row(F, "a"), row(F[::-1], "b", unit="mW/m^2"), row([nan] * 100 + F[100:], "c"), row(F[:130] + [nan] * (n - 130), "d")]
        if n > 300:
            rows = rows[1:3]
        for s in range(len(SPECS[kind])) if kind == "tl" and n < 300 else (0, 2):
            ms = spec_of(kind, s)
            ms.pop("delta_t")
            if kind == "tl" and ms["du"][0] < 1 and ms["du"][1] == "m":
                continue  # unstable
            ctx.at({"kind": kind, "spec": ms, "set": "long", "axis": case["axis"]})
            m = build(kind, dict(ms, delta_t=[3.0, "day"]))
            out = m.run_scenarios(run_of(rows, axis), progress=False)
            verify(kind, ms, ms, out, rows, axis, ctx, STEP[case["axis"]])
            ctx.state(kind, "long", s, case["axis"])
        ctx.sample({"kind": kind, "points": n})
        return
    if case["group"] == "units":
        # every parameter in every unit
        todo = [(n, u) for n in PARAMS[kind] for u in ref.UNITS[ref.KIND[n]]]
        for n, u in todo[case["part"] :: 4]:
            ms = dict(m_spec, **{n: in_unit(n, ref.base(n, m_spec[n]), u)})
            ctx.at({"kind": kind, "spec": ms, "set": "two", "axis": "yearly"})
            rows = meta_sets()["two"]
            out = build(kind, dict(ms, delta_t=[3.0, "day"])).run_scenarios(run_of(rows, AXES["yearly"]), progress=False)
            verify(kind, ms, ms, out, rows, AXES["yearly"], ctx, STEP["yearly"])
            ctx.state(kind, "units", n, u)
        ctx.sample({"kind": kind, "parameter in unit": [n, u]})
        return
    if case["group"] == "sets":
        axis = AXES[case["axis"]]
        step = STEP["yearly" if case["axis"] in ("yearly", "old") else "monthly"]
        for name, rows in meta_sets().items():
            ctx.at({"kind": kind, "spec": m_spec, "set": name, "axis": case["axis"]})
            m = build(kind, dict(m_spec, delta_t=[3.0, "day"]))
            out = m.run_scenarios(run_of(rows, axis), progress=False)
            verify(kind, m_spec, m_spec, out, rows, axis, ctx, step)
            ctx.state(kind, case["spec"], name, case["axis"])
            ctx.outcome(kind, name, case["spec"], case["axis"])
        ctx.sample({"kind": kind, "params": m_spec, "axis": case["axis"], "metadata sets": SETS})
        return
    # outputs as scenarios of the next model
    rows = meta_sets()["numbers"]
    axis = AXES["yearly"]

    def chain(data, rows_, level, done):
        for k2 in ("tl", "ir"):
            for s2 in (0, 1, 7) if level == 1 else (1,):
                ms = spec_of(k2, s2)
                ms.pop("delta_t")
                ctx.at({"chain": done + [(k2, s2)]})
                out = build(k2, dict(ms, delta_t=[1.0, "yr"])).run_scenarios(data, progress=False)
                verify(k2, ms, ms, out, rows_, axis, ctx, STEP["yearly"])
                ctx.state("chain", done, k2, s2)
                if level + 1 < case["depth"]:
                    chain(out, kept(rows_, k2, ms), level + 1, done + [(k2, s2)])

    def kept(rows_, k, ms):
        """Rows with the columns the run added (whose values the next run keeps)"""
        add = {"{} ({})".format(n, ur.Quantity(1, ms[n][1]).units): ms[n][0] for n in PARAMS[k]}
        return [dict(r, **add) for r in rows_]

    m = build(kind, dict(m_spec, delta_t=[1.0, "yr"]))
    out = m.run_scenarios(run_of(rows, axis), progress=False)
    verify(kind, m_spec, m_spec, out, rows, axis, ctx, STEP["yearly"])
    chain(out, kept(rows, kind, m_spec), 1, [(kind, case["spec"])])
    ctx.sample({"first": kind, "params": m_spec, "then": "every model and parameter set with its output"})
