"""C07: unit invariance"""
import itertools

import numpy as np

from .. import ref, registry, spaces
from ..engine import Violation
from ..world import (
    DEFAULTS, PARAMS, VARS, build, by_series, chunked, drive, in_unit, near, observe, q, require, row, run_of,
    series_near, ur, years, months, CLS,
)
from . import _dyn

RULE = (
    "every combination of units for pairs of inputs (thorough: all inputs) out of parameters, timestep "
    "and forcing; results, converted parameters and refusals compared with those in base units"
)
BOUNDS = {
    "quick": "all pairs of (input, unit) over 7 (two-layer) / 6 (impulse response) parameters and the forcing, 2 value sets, 3 ways of construction; wide values of each parameter in each of its units, and numbers from 0.02 to 2000 in each unit of the registry",
    "thorough": "full product of 4 units per input",
}
CONFORMANCE = "self-composition: real executions in different units are enumerated and compared"
ASSUMPTIONS = ["agreement to 1e-9 of the largest value of a series"]

FVALS = [3.74, -2.5, 0.0, 8.0, 1e-6, 3.0]


def names_of(kind):
    return list(DEFAULTS[kind]) + ["erf"]


def unit_lists(kind):
    return [list(ref.UNITS[ref.KIND[n]]) for n in names_of(kind)]


_CACHE = {}


def combos(kind, tier):
    key = (kind, tier)
    if key in _CACHE:
        return _CACHE[key]
    names, lists = names_of(kind), unit_lists(kind)
    base = [x[0] for x in lists]
    seen, out = set(), []

    def add(c):
        if c not in seen:
            seen.add(c)
            out.append(c)

    add(tuple(base))
    for i in range(len(names)):
        for a in lists[i]:
            c = list(base)
            c[i] = a
            add(tuple(c))
    for i, j in itertools.combinations(range(len(names)), 2):
        for a in lists[i]:
            for b in lists[j]:
                c = list(base)
                c[i], c[j] = a, b
                add(tuple(c))
    # everything in unusual units at once
    for k in range(8):
        add(tuple(x[k % len(x)] for x in lists))
        add(tuple(x[(k + i) % len(x)] for i, x in enumerate(lists)))
    if tier == "thorough":
        for c in itertools.product(*[x[:3] if kind == "tl" else x[:4] for x in lists]):
            add(c)
    _CACHE[key] = out
    return out


def values(kind, which):
    b = _dyn.base_points(kind)[which]
    return {n: ref.base(n, b[n]) for n in b}


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in (1, 0, 2):
            for c in chunked(range(len(combos(kind, tier))), 40 if kind == "tl" else 20):
                out.append({"group": "direct", "kind": kind, "base": b, "idx": c})
    for kind in ("tl", "ir"):
        for b in range(3):
            for part in range(4):
                out.append({"group": "scenarios", "kind": kind, "base": b, "part": part})
    for kind in ("tl", "ir"):
        for b in (1, 0):
            for c in chunked(range(len(registry_combos(kind))), 40 if kind == "tl" else 20):
                out.append({"group": "registry", "kind": kind, "base": b, "idx": c})
    for kind in ("tl", "ir"):
        for n in DEFAULTS[kind]:
            for b in (1, 2):
                out.append({"group": "sweep", "kind": kind, "base": b, "param": n})
            for part in range(4):
                out.append({"group": "numbers", "kind": kind, "base": 1, "param": n, "part": part})
    out.sort(key=lambda c: c["idx"][0] if "idx" in c else 60)
    return out


def registry_combos(kind):
    """Every unit of the registry for one input at a time, then for all of them at once"""
    key = ("registry", kind)
    if key not in _CACHE:
        lists = {n: list(registry.units(ref.KIND[n])) for n in names_of(kind)}
        out = [{n: u} for n in lists for u in lists[n]]
        for k in range(max(len(x) for x in lists.values())):
            out.append({n: x[(k + 3 * i) % len(x)] for i, (n, x) in enumerate(lists.items())})
        _CACHE[key] = out
    return _CACHE[key]


def spec_in(kind, vals, units):
    return {n: in_unit(n, v, units[n]) for n, v in vals.items()}


def conversion(kind, m):
    """Converted parameters in base units, or the refusal"""
    try:
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
    except ValueError as exc:
        return type(exc).__name__, None
    out = {}
    for k, v in p.items():
        out[k] = float(v.to(BASE[ref.KIND[k]]).magnitude)
    return "ok", out


BASE = {
    "length": "m", "time": "s", "feedback": "W/m^2/delta_degC", "ratio": "dimensionless",
    "sens": "delta_degC/(W/m^2)",
}


def reference(kind, b):
    key = ("ref", kind, b)
    if key not in _CACHE:
        vals = values(kind, b)
        units = dict(zip(names_of(kind), (x[0] for x in unit_lists(kind))))
        m = build(kind, spec_in(kind, vals, units))
        drive(m, FVALS)
        _CACHE[key] = (observe(kind, m), conversion(kind, m))
    return _CACHE[key]


def close(kind, got, want, vals):
    """Series equal up to rounding """
    ok = [series_near(g, w, 1e-9) for g, w in zip(got[:2], want[:2])]
    ok.append(series_near(got[2], want[2], 1e-9))
    return all(ok)


def sweep(case, ctx):
    """Small, large, zero and negative values of one parameter in each of its units"""
    kind, name = case["kind"], case["param"]
    base = {k: in_unit(k, v, list(ref.UNITS[ref.KIND[k]])[0]) for k, v in values(kind, case["base"]).items()}
    for value in spaces.STAR[kind][name]:
        v = value[0] * ref.UNITS["time"][value[1]] if isinstance(value, list) else float(value)
        if name in ("d1", "d2"):
            v = value[0] * ref.UNITS["time"][value[1]]
        want = None
        for unit in ref.UNITS[ref.KIND[name]]:
            spec = dict(base)
            spec[name] = in_unit(name, v, unit)
            if kind == "ir" and (_dyn.degenerate(kind, spec) or not ref.base("d1", spec["d1"]) < ref.base("d2", spec["d2"])):
                continue
            for via in ("ctor", "setters"):
                ctx.at({"kind": kind, "spec": spec, "via": via})
                m = build(kind, spec, via)
                drive(m, FVALS[:4])
                got = observe(kind, m)
                if want is None:
                    want = got
                if not all(np.isfinite(w).all() and np.abs(w).max() < 1e60 for w in want):
                    continue
                require(all(sweep_near(g, w) for g, w in zip(got, want)), "results depend on the units of the inputs",
                        parameter=name, spec=spec[name], got=[g.tolist() for g in got], expected=[w.tolist() for w in want])
                ctx.step(4)
                ctx.evaluate(3)
                ctx.trace()
                ctx.state(kind, name, v, unit)
                ctx.outcome(*(g.tobytes() for g in got))


def numbers(case, ctx):
    """Small and large numbers in each unit of the registry: a number means what its unit says"""
    kind, name = case["kind"], case["param"]
    units0 = {k: list(ref.UNITS[ref.KIND[k]])[0] for k in values(kind, 1)}
    base = {k: in_unit(k, v, units0[k]) for k, v in values(kind, 1).items()}
    units = {**{u: f for u, f in registry.units(ref.KIND[name]).items()}, **ref.UNITS[ref.KIND[name]]}
    if name in ("lambda0", "eta"):
        units.update({"mW/m^2/delta_degC": 1e-3, "kW/m^2/delta_degC": 1e3})
    for unit in list(units)[case["part"] :: 4]:
        for number in (0.02, 0.5, 1, 3.0, 40.0, 2000.0):
            v = number * units[unit]
            if not 1e-5 < abs(v / values(kind, 1)[name]) < 1e5:
                continue
            plain = dict(base, **{name: in_unit(name, v, units0[name])})
            spec = dict(base, **{name: [number, unit]})
            if kind == "ir" and not ref.base("d1", plain["d1"]) < ref.base("d2", plain["d2"]):
                continue
            want = observe(kind, drive(build(kind, plain), FVALS[:4]))
            if not all(np.isfinite(w).all() and np.abs(w).max() < 1e60 for w in want):
                continue
            ctx.at({"kind": kind, "spec": spec})
            m = build(kind, spec, "setters" if number == 3.0 else "ctor")
            got = observe(kind, drive(m, FVALS[:4]))
            require(all(sweep_near(g, w) for g, w in zip(got, want)), "results depend on the units of the inputs",
                    parameter=name, spec=spec[name], got=[g.tolist() for g in got], expected=[w.tolist() for w in want])
            ctx.step(4)
            ctx.evaluate(3)
            ctx.trace()
            ctx.state(kind, name, number, unit)


def sweep_near(g, w):
    return bool(np.all(np.abs(g - w) <= 1e-8 * np.max(np.abs(w)) + 1e-13))


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "sweep":
        sweep(case, ctx)
        return
    if case["group"] == "numbers":
        numbers(case, ctx)
        return
    vals = values(kind, case["base"])
    want, wantc = reference(kind, case["base"])
    names = names_of(kind)
    if case["group"] == "direct":
        for i in case["idx"]:
            units = dict(zip(names, combos(kind, ctx.tier)[i]))
            spec = spec_in(kind, vals, units)
            F = [f / ref.UNITS["flux"][units["erf"]] for f in FVALS]
            for via in ("ctor", "setters", "alternating") if ctx.tier == "thorough" or kind == "tl" else ("ctor", "setters"):
                ctx.at({"kind": kind, "spec": spec, "forcing_unit": units["erf"], "via": via})
                m = build(kind, spec, via)
                drive(m, F, unit=units["erf"])
                got = observe(kind, m)
                ctx.step(len(F))
                ctx.evaluate(4)
                require(close(kind, got, want, vals), "results depend on the units of the inputs",
                        units=units, got=[g.tolist() for g in got], expected=[w.tolist() for w in want])
                c = conversion(kind, m)
                require(c[0] == wantc[0], "conversion verdict depends on units", units=units, got=c, expected=wantc)
                if c[1] is not None:
                    for k in wantc[1]:
                        require(near(c[1][k], wantc[1][k], 1e-8), "converted parameters depend on units",
                                units=units, parameter=k, got=c[1][k], expected=wantc[1][k])
                ctx.trace()
                ctx.outcome(tuple(units.values()), *(g.tobytes() for g in got))
            ctx.state(kind, case["base"], tuple(units.values()))
        ctx.sample({"units": units, "values": vals})
        return
    if case["group"] == "registry":
        for i in case["idx"]:
            units = registry_combos(kind)[i]
            spec = {n: [v, registry.BASE[ref.KIND[n]]] for n, v in vals.items()}
            for n, u in units.items():
                if n != "erf":
                    spec[n] = [vals[n] / registry.units(ref.KIND[n])[u], u]
            fu = units.get("erf", "W/m^2")
            F = [f / registry.units("flux")[fu] for f in FVALS]
            via = ("ctor", "setters")[i % 2]
            ctx.at({"kind": kind, "spec": spec, "forcing_unit": fu, "via": via})
            m = build(kind, spec, via)
            drive(m, F, unit=fu)
            got = observe(kind, m)
            ctx.step(len(F))
            ctx.evaluate(4)
            require(close(kind, got, want, vals), "results depend on the units of the inputs",
                    units=units, got=[g.tolist() for g in got], expected=[w.tolist() for w in want])
            for n in spec:
                back = getattr(m, n)
                back = back.to(registry.BASE[ref.KIND[n]]).magnitude
                require(near(back, vals[n], 1e-9), "parameter read back differs", parameter=n, units=units, got=float(back), expected=vals[n])
            c = conversion(kind, m)
            require(c[0] == wantc[0], "conversion verdict depends on units", units=units, got=c, expected=wantc)
            if c[1] is not None:
                for k in wantc[1]:
                    require(near(c[1][k], wantc[1][k], 1e-8), "converted parameters depend on units",
                            units=units, parameter=k, got=c[1][k], expected=wantc[1][k])
            ctx.trace()
            ctx.state(kind, case["base"], str(units))
            ctx.outcome(str(units), *(g.tobytes() for g in got))
        return
    # run_scenarios: parameters in unusual units x forcing unit per scenario
    fluxes = list(ref.UNITS["flux"])
    lists = dict(zip(names, unit_lists(kind)))
    axis = years(1990, 6) if case["part"] % 2 == 0 else months(1990, 6, 10)
    spec0 = spec_in(kind, vals, {n: lists[n][0] for n in names})
    ref_run = by_series(build(kind, spec0).run_scenarios(run_of([row(FVALS, "x")], axis), progress=False))
    for k in range(case["part"], 12, 4):
        units = {n: lists[n][(k + i) % len(lists[n])] for i, n in enumerate(names)}
        spec = spec_in(kind, vals, units)
        rows = [row([f / ref.UNITS["flux"][u] for f in FVALS], "u{}".format(j), unit=u) for j, u in enumerate(fluxes)]
        m = build(kind, spec)
        ctx.at({"kind": kind, "spec": spec, "axis": str(axis[0])})
        got = by_series(m.run_scenarios(run_of(rows, axis), progress=False))
        for j, u in enumerate(fluxes):
            for v in VARS[kind]:
                ctx.evaluate()
                ctx.step()
                require(series_near(got[("u{}".format(j), v)], ref_run[("x", v)], 1e-9),
                        "run_scenarios results depend on units", units=units, forcing_unit=u, variable=v)
            ctx.trace()
        ctx.state(kind, case["base"], str(units))
    ctx.sample({"units": units, "forcing_units": fluxes})
