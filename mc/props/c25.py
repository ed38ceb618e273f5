"""C25: shipped reference results"""
import csv
import datetime as dtm
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import ref
from ..engine import HarnessError
from ..world import (
    CLS, DEFAULTS, DRIVER, NAME, PARAMS, REPO, VARS, build, drive, dt, forcing, in_unit, observe, q, require, row, run_of, ur, years, months,
)
from ._scen import rows_of

RULE = (
    "all reference files x all scenarios x all ways of running (together, rotations and reversal of the set, every ordered pair, each alone, "
    "direct run, direct steps, reused model after every other kind of use, parameters and forcing in other units, set through "
    "assignments, DataFrame and CSV input, every truncation of the period to a set of lengths): every value of every year "
    "and variable against the file"
)
BOUNDS = {"quick": "4 files x 11 scenarios x 751 years; 4 rotations, ordered pairs with one partner, 5 truncations", "thorough": "all rotations, all ordered pairs, 60 truncations"}
CONFORMANCE = "reference values come from the files in tests/test-data, the drivers from the same files"
ASSUMPTIONS = ["1e-10 of the largest value of a series; where state dependence makes a run diverge values beyond 1e3 to 1e-4 and beyond 1e100 any order of overflow"]

FILES = {
    "tl default": ("tl", "two-layer-output/test_twolayer_defaults.csv", {}),
    "tl efficacy": ("tl", "two-layer-output/test_twolayer_plus_efficacy.csv", {"efficacy": [1.2, "dimensionless"]}),
    "tl state dependence": ("tl", "two-layer-output/test_twolayer_plus_state_dependence.csv", {"a": [0.05, "W/m^2/delta_degC^2"]}),
    "ir default": ("ir", "impulse-response-output/test_impulse_response_defaults.csv", {}),
}
OTHER_UNITS = {
    "tl": {"du": "km", "dl": "cm", "lambda0": "mW/m^2/K", "a": "mW/m^2/K^2", "efficacy": "m/km", "eta": "kW/m^2/K", "delta_t": "day"},
    "ir": {"q1": "mK/(W/m^2)", "q2": "K*m^2/W", "d1": "month", "d2": "kyr", "efficacy": "m/km", "delta_t": "h"},
}
WAYS = ("alone", "run", "step", "reused", "units", "setters", "frame", "csv", "truncated", "pairs", "extended")
_DATA = {}


def parse(x):
    if x == "":
        return np.nan
    return float(x)


def load(name):
    """{scenario key: {variable: values}}, times, metadata per key"""
    if name in _DATA:
        return _DATA[name]
    path = os.path.join(REPO, "tests", "test-data", FILES[name][1])
    with open(path) as fh:
        rd = csv.reader(fh)
        head = next(rd)
        tcols = [i for i, h in enumerate(head) if h[:4].isdigit() and h[4:5] == "-"]
        times = [dtm.datetime.strptime(head[i], "%Y-%m-%d %H:%M:%S") for i in tcols]
        data, meta = {}, {}
        for line in rd:
            m = {h: line[i] for i, h in enumerate(head) if i not in tcols}
            key = (m["model"], m["scenario"])
            data.setdefault(key, {})[m["variable"]] = np.array([parse(line[i]) for i in tcols])
            meta.setdefault(key, {})[m["variable"]] = m
    if len(data) != 11:
        raise HarnessError("reference file {} has {} scenarios".format(path, len(data)))
    _DATA[name] = (data, times, meta)
    return _DATA[name]


def cases(tier):
    out = []
    for name in FILES:
        for r in range(11) if tier == "thorough" else (0, 1, 4, 10):
            out.append({"group": "set", "file": name, "rotate": r, "reverse": False})
        out.append({"group": "set", "file": name, "rotate": 0, "reverse": True})
        for s in range(11):
            out.append({"group": "one", "file": name, "scenario": s, "ways": list(WAYS)})
    return out


def close(name, got, want, ctx, **detail):
    """Values of one series against the file"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "number of values", got=got.shape, expected=want.shape, **detail)
    ctx.step(len(want))
    wild = "state" in name
    ok = np.isfinite(want)
    calm = ok & (np.abs(want) < 1e3) if wild else ok
    if wild and not calm.all():
        # from the first divergence on
        first = int(np.argmin(calm))
        mid = ok & (np.abs(want) < 1e100)
        mid[:first] = False
        if first + 1 < len(mid) and mid.any():
            idx = np.flatnonzero(mid)
            idx = idx[idx < first + int(np.argmin(np.append((np.abs(np.nan_to_num(want[first:], nan=1e200)) < 1e100), False)))]
            require(np.all(np.abs(got[idx] - want[idx]) <= 1e-4 * np.abs(want[idx])), "diverging values differ from the reference", **detail)
        calm[first:] = False
        # the run stays diverged
        tail = want[-1]
        require(np.isfinite(tail) or not np.isfinite(got[-1]), "divergence lost", **detail)
    scale = np.abs(want[calm]).max() if calm.any() else 0.0
    require(np.isfinite(got[calm]).all() and np.all(np.abs(got[calm] - want[calm]) <= 1e-10 * scale + 1e-15),
            "value differs from the shipped reference",
            years=lambda: [int(i) for i in np.flatnonzero(calm & ~(np.abs(got - want) <= 1e-10 * scale + 1e-15))[:5]],
            got=lambda: got[calm][:6].tolist(), expected=lambda: want[calm][:6].tolist(), **detail)


def check_run(name, out, keys, ctx, way, n=None, unit="W/m^2", labels=False):
    """A run_scenarios output against the file"""
    kind = FILES[name][0]
    data, times, meta = load(name)
    res = {}
    for m, v in rows_of_all(out, times[:n]):
        res.setdefault((m["model"], m["scenario"]), {})[m["variable"]] = (m, v)
    require(set(res) == set(keys), "scenarios of the output", got=sorted(map(str, res)), expected=sorted(map(str, keys)), way=way)
    for k in keys:
        require(set(res[k]) == set(data[k]), "variables of the output", got=sorted(res[k]), expected=sorted(data[k]), way=way)
        for v, want in data[k].items():
            m, vals = res[k][v]
            w = want if n is None else want[:n]
            if v == DRIVER and unit != "W/m^2":
                w = w * 1e3
            close(name, vals, w, ctx, file=name, scenario=k, variable=v, way=way)
            if labels:
                exp = meta[k][v]
                for c in ("region", "unit", "activity_id", "mip_era", "climate_model"):
                    require(str(m.get(c)) == exp[c], "label differs from the shipped reference", column=c, got=m.get(c), expected=exp[c], variable=v)
                for c, x in exp.items():
                    if " (" not in c:
                        continue
                    pname, punit = c[:-1].split(" (", 1)
                    mine = [z for z in m if str(z).startswith(pname + " (")]
                    require(len(mine) == 1 and float(m[mine[0]]) == float(x), "parameter column differs from the reference", column=c,
                            got=[(z, m[z]) for z in mine], expected=x)
                    mine_unit = ur.Quantity(1.0, mine[0][:-1].split(" (", 1)[1])
                    # the year was called "a" when the files were made
                    exp_unit = ur.Quantity(1.0, "yr" if punit == "a" else punit)
                    require(abs(mine_unit.to(exp_unit.units).magnitude - 1) < 1e-12, "parameter unit differs from the reference", column=c,
                            got=mine)
        ctx.outcome(name, k, way)
    if labels:
        ids = {}
        for k in keys:
            ids[k] = {float(res[k][v][0]["run_idx"]) for v in res[k]}
        require(all(len(x) == 1 for x in ids.values()) and len(set.union(*ids.values())) == len(keys), "run_idx", got=str(ids))
    ctx.trace()
    ctx.evaluate(len(keys))


def rows_of_all(out, times):
    """All values on the given time points, also those which are not numbers"""
    ts = out.timeseries()
    require(set(map(str, ts.columns)) <= set(map(str, times)), "time points nobody asked for")
    at = {str(t): i for i, t in enumerate(ts.columns)}
    cols = [at.get(str(t)) for t in times]
    return [
        (dict(zip(ts.index.names, label)), np.array([np.nan if c is None else r[c] for c in cols], float))
        for label, r in zip(ts.index, ts.values)
    ]


def drivers(name, keys, n=None, unit="W/m^2"):
    data, times, meta = load(name)
    rows = []
    for k in keys:
        m = meta[k][DRIVER]
        F = data[k][DRIVER][:n] * (1e3 if unit == "mW/m^2" else 1.0)
        rows.append(row(F, k[1], model=k[0], region=m["region"], activity_id=m["activity_id"], mip_era=m["mip_era"], unit=unit))
    return run_of(rows, times[:n])


def run(case, ctx):
    name = case["file"]
    kind, _, over = FILES[name]
    data, times, meta = load(name)
    keys = list(data)
    spec = dict(DEFAULTS[kind])
    spec.update(over)
    with np.errstate(all="ignore"):
        if case["group"] == "set":
            order = keys[case["rotate"] :] + keys[: case["rotate"]]
            if case["reverse"]:
                order = order[::-1]
            ctx.at({"file": name, "order": [k[1] for k in order]})
            # as the regression tests do: only what differs from the defaults is given
            m = CLS[kind](**{k: q(v) for k, v in over.items()})
            check_run(name, m.run_scenarios(drivers(name, order), progress=False), keys, ctx, "set", labels=True)
            ctx.state(name, order)
            ctx.sample({"file": name, "scenarios": len(order), "years": len(times)})
            return
        key = keys[case["scenario"]]
        F = data[key][DRIVER]
        have = ~np.isnan(F)
        n = int(have.sum())
        if not have[:n].all():
            raise HarnessError("reference driver does not start at the first year")
        names = list(VARS[kind])
        for way in case["ways"]:
            ctx.at({"file": name, "scenario": key, "way": way})
            ctx.state(name, key, way)
            if way in ("run", "step", "setters"):
                m = build(kind, dict(spec, delta_t=[1.0, "yr"]), "setters" if way == "setters" else "ctor")
                x, y, hu = observe(kind, drive(m, F[:n], "step" if way == "step" else "run"))
                got = {names[0]: x, names[1]: y, "Heat Uptake": hu}
                if kind == "ir":
                    got["Surface Temperature"] = x + y
                for v, g in got.items():
                    close(name, g, data[key][v][:n], ctx, file=name, scenario=key, variable=v, way=way)
                ctx.trace()
                ctx.outcome(name, key, way)
            elif way == "alone":
                check_run(name, build(kind, spec).run_scenarios(drivers(name, [key]), progress=False), [key], ctx, way, labels=True)
            elif way == "reused":
                m = build(kind, spec)
                drive(m, np.array([1e3, -5.0, 3.0]))
                m.run_scenarios(run_of([row([1.0, 2.0, 3.0], "x"), row([5.0, 4.0, np.nan], "y")], months(2001, 3)), progress=False)
                m.set_drivers(forcing([1.0, 2.0, 3.0]))
                m.reset()
                m.step()
                check_run(name, m.run_scenarios(drivers(name, [key]), progress=False), [key], ctx, way)
                check_run(name, m.run_scenarios(drivers(name, [key]), progress=False), [key], ctx, way)
            elif way == "units":
                s = {k: in_unit(k, ref.base(k, v), OTHER_UNITS[kind][k]) for k, v in spec.items()}
                check_run(name, build(kind, s).run_scenarios(drivers(name, [key], unit="mW/m^2"), progress=False), [key], ctx, way, unit="mW/m^2")
            elif way in ("frame", "csv"):
                d = drivers(name, [key, keys[(case["scenario"] + 1) % 11]])
                both = [key, keys[(case["scenario"] + 1) % 11]]
                if way == "frame":
                    check_run(name, build(kind, spec).run_scenarios(d.timeseries(), progress=False), both, ctx, way)
                else:
                    tmp = tempfile.mkdtemp(prefix="mc-c25-")
                    try:
                        path = os.path.join(tmp, "drivers.csv")
                        d.timeseries().to_csv(path)
                        check_run(name, build(kind, spec).run_scenarios(path, progress=False), both, ctx, way)
                    finally:
                        shutil.rmtree(tmp)
            elif way == "truncated":
                lengths = range(2, n + 1, 13) if ctx.tier == "thorough" else (2, 13, 101, 265, 266)
                for k in lengths:
                    ctx.at({"file": name, "scenario": key, "way": way, "years": k})
                    check_run(name, build(kind, spec).run_scenarios(drivers(name, [key], k), progress=False), [key], ctx, way, n=k)
            elif way == "pairs":
                others = [k for k in keys if k != key]
                if ctx.tier != "thorough":
                    others = [keys[(case["scenario"] + 5) % 11]]
                for o in others:
                    check_run(name, build(kind, spec).run_scenarios(drivers(name, [key, o]), progress=False), [key, o], ctx, way)
            elif way == "extended":
                # a longer scenario next to it, which leaves it with missing values at the end
                longer = years(times[0].year, len(times) + 50)
                rows = [row(list(F) + [np.nan] * 50, key[1], model=key[0]), row(list(np.nan_to_num(F)) + [1.0] * 50, "longer", model=key[0])]
                out = build(kind, spec).run_scenarios(run_of(rows, longer), progress=False)
                res = [(m, v) for m, v in rows_of_all(out, longer)]
                for scen in (key[1], "longer"):
                    for v in data[key]:
                        hits = [x for m, x in res if m["scenario"] == scen and m["variable"] == v]
                        require(len(hits) == 1, "series missing or duplicated", scenario=scen, variable=v)
                        close(name, hits[0][:n], data[key][v][:n], ctx, file=name, scenario=scen, variable=v, way=way)
                        if scen != "longer":
                            require(np.isnan(hits[0][n:]).all(), "values beyond the period of the driver", variable=v)
                ctx.trace()
        ctx.sample({"file": name, "scenario": key, "ways": case["ways"], "years": n})
