"""C08: refusal of wrong types and dimensions, without effect"""
import decimal
import fractions

import numpy as np
import pandas as pd

from .. import ref, registry
from ..engine import Violation
from ..world import (
    CLS, DEFAULTS, OUT, PARAMS, UnitError, all_same, build, drive, expect, forcing, in_unit, near, observe, q, require, row,
    run_of, same, ur, years,
)
from . import _dyn

RULE = (
    "every input (parameters, timestep, forcing) x every bad value (18 non-quantities, an object that quacks like a quantity, every unit of "
    "every other dimension) x every way in (constructor, assignment, set_drivers) x every point of a "
    "model's life (new, driven, reset, after each step, after a run); afterwards all readings and all "
    "results are compared with an undisturbed twin"
)
BOUNDS = {
    "quick": "two models, 2 base points, 6 life points",
    "thorough": "two models, 3 base points, 6 life points, pairs of consecutive refusals",
}
CONFORMANCE = "every enumerated refusal is executed on the real model and compared with a twin model that saw none"
ASSUMPTIONS = ["quantities come from the openscm unit registry"]


class Duck:
    """Looks like a quantity, is none"""

    def __init__(self, magnitude, units):
        self.magnitude, self.units = magnitude, units
        self.m, self.u = magnitude, units
        self.dimensionality = units.dimensionality
        self.dimensionless = False
        self.unitless = False

    def to(self, unit):
        return ur.Quantity(self.magnitude, self.units).to(unit)

    def to_base_units(self):
        return ur.Quantity(self.magnitude, self.units).to_base_units()

    def check(self, *_):
        return True

    def __repr__(self):
        return "Duck({}, {})".format(self.magnitude, self.units)


def duck(name):
    mag = np.array([1.0, 2.0, 3.0, 4.0, 5.0]) if name == "erf" else 5.0
    unit = "W/m^2" if name == "erf" else DEFAULTS["tl" if name in DEFAULTS["tl"] else "ir"][name][1]
    return Duck(mag, ur.Quantity(1, unit).units)


def non_quantities():
    return [
        ("int", 1), ("float", 1.0), ("str", "50 m"), ("None", None), ("np.float64", np.float64(3)),
        ("array", np.array([1.0])), ("array2", np.array([1.0, 2.0])), ("bool", True), ("unit", ur.m),
        ("list", [1.0]), ("tuple", (50, "m")), ("dict", {"m": 50}), ("complex", 1j),
        ("Decimal", decimal.Decimal("1.5")), ("Fraction", fractions.Fraction(1, 2)),
        ("Series", pd.Series([1.0, 2.0])), ("zero", 0), ("nan", float("nan")),
    ]


EXTRA_UNITS = ["kg", "J", "W", "mol", "m^2", "1/yr", "W/m", "W/m^3", "J/m^2", "delta_degC*m^2", "GtC", "K/yr", "m/s",
               "kg/m^3", "W/m^2/delta_degC^3", "K^2", "A"]


def all_wrong(name):
    """Every unit of the registry of another dimension"""
    return [u for u in registry.everything() if ref.KIND[name] not in registry.base_kind(u)]


def spec_of(kind, b):
    """Base point; the second one in units which are not the model's own"""
    spec = _dyn.base_points(kind)[b]
    if b != 1:
        return spec
    return {n: in_unit(n, ref.base(n, v), sorted(ref.UNITS[ref.KIND[n]])[-2]) for n, v in spec.items()}


def wrong_units(name):
    kind = ref.KIND[name]
    out = []
    for k, units in ref.UNITS.items():
        if k != kind:
            out += list(units)
    if kind != "ratio":
        out.append("")
    return out + EXTRA_UNITS


POINTS = ("new", "driven", "reset", "step1", "step3", "run")
F = [3.74, 3.74, -2.5, 1.0, 6.0]


def inputs(kind):
    return list(DEFAULTS[kind]) + ["erf"]


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in (0, 1) if tier == "quick" else (0, 1, 2):
            for n in inputs(kind):
                out.append({"group": "ctor", "kind": kind, "base": b, "name": n})
                for p in POINTS:
                    out.append({"group": "assign", "kind": kind, "base": b, "name": n, "point": p})
                out.append({"group": "registry", "kind": kind, "base": b, "name": n})
            out.append({"group": "drivers", "kind": kind, "base": b})
            out.append({"group": "scenarios", "kind": kind, "base": b})
    return out


def advance(kind, spec, point):
    m = build(kind, spec)
    if point == "new":
        return m
    m.set_drivers(forcing(F))
    if point == "driven":
        return m
    m.reset()
    if point == "step1":
        m.step()
    elif point == "step3":
        m.step(), m.step(), m.step()
    elif point == "run":
        m.run()
    return m


REMAINING = {"reset": 5, "step1": 4, "step3": 2, "run": 0}


def finish(kind, m, point):
    """Everything a user can see of the rest of the model's life"""
    out = []
    if point in REMAINING:
        for _ in range(REMAINING[point]):
            m.step()
        out += observe(kind, m)
    if point == "driven":
        m.reset()
        m.run()
        out += observe(kind, m)
    drive(m, F[::-1])
    return out + observe(kind, m)


def readings(kind, m):
    out = {}
    for n in list(DEFAULTS[kind]) + (["heat_capacity_upper", "heat_capacity_lower"] if kind == "tl" else []):
        v = getattr(m, n)
        out[n] = (float(v.magnitude), str(v.units))
    return out


def erf_reading(m):
    v = m.erf
    if hasattr(v, "units"):
        return np.array(v.magnitude, float), str(v.units)
    return np.array(v, float), None


def refusal(kind, func, name, exc_type, what, ctx, named=True):
    exc = expect(exc_type, func, ctx, what)
    if exc_type is TypeError and isinstance(exc, UnitError):
        raise Violation("UnitError for a value without units", what=what)
    if exc_type is UnitError:
        require(isinstance(exc, ValueError), "UnitError is no ValueError")
    if named:
        require(name in str(exc), "refusal does not name the parameter", what=what, text=str(exc))
    ctx.outcome(kind, name, exc_type.__name__, what)


def bad_values(name):
    for lab, v in non_quantities():
        yield lab, v, TypeError
    yield "duck", duck(name), TypeError
    for u in wrong_units(name):
        mags = [5.0, 0.0, 1] if name != "erf" else [np.array([1.0, 2.0, 3.0, 4.0, 5.0]), np.array([])]
        for mag in mags:
            yield "{} {}".format(mag, u), ur.Quantity(mag, u), UnitError


def run(case, ctx):
    kind = case["kind"]
    spec = spec_of(kind, case["base"])
    g = case["group"]
    if g == "ctor":
        name = case["name"]
        if name == "erf":
            return
        for lab, v, exc in bad_values(name):
            for fill in ("others default", "others given"):
                kw = {} if fill == "others default" else {k: q(s) for k, s in spec.items()}
                kw[name] = v
                ctx.at({"construct": kind, "parameter": name, "value": lab})
                refusal(kind, lambda: CLS[kind](**kw), name, exc, "{}({}={})".format(kind, name, lab), ctx)
                ctx.step()
            ctx.state(kind, "ctor", name, lab)
        ctx.trace()
        ctx.sample({"construct": kind, "parameter": name})
        return
    if g == "assign":
        name, point = case["name"], case["point"]
        twin = advance(kind, spec, point)
        r0, e0 = readings(kind, twin), erf_reading(twin)
        obs0 = observe(kind, twin)
        want = finish(kind, twin, point)
        m = advance(kind, spec, point)
        objs = {n: getattr(m, n) for n in DEFAULTS[kind]}
        for lab, v, exc in bad_values(name):
            ctx.at({"kind": kind, "assign": name, "value": lab, "at": point})
            refusal(kind, lambda: setattr(m, name, v), name, exc, "{}={}".format(name, lab), ctx)
            ctx.step()
            ctx.state(kind, case["base"], point, name, lab)
            require(readings(kind, m) == r0, "refused assignment changed a parameter", parameter=name, value=lab,
                    before=r0, after=readings(kind, m))
            e1 = erf_reading(m)
            require(same(e1[0], e0[0]) and e1[1] == e0[1], "refused assignment changed the drivers", parameter=name, value=lab)
            require(all_same(observe(kind, m), obs0), "refused assignment changed results", parameter=name, value=lab)
            # the effect on later results, one refusal at a time
            if exc is TypeError or ctx.tier == "thorough" or lab.startswith("0.0") or name == "erf":
                one = advance(kind, spec, point)
                try:
                    setattr(one, name, v)
                except (TypeError, ValueError):
                    pass
                require(all_same(finish(kind, one, point), want), "refused assignment changed later results",
                        parameter=name, value=lab, point=point)
                ctx.trace()
        for n, o in objs.items():
            require(getattr(m, n) == o, "parameter reading changed", parameter=n)
        require(all_same(finish(kind, m, point), want), "refused assignments changed later results", parameter=name, point=point)
        ctx.trace()
        ctx.sample({"kind": kind, "assign": name, "at": point, "bad values": sum(1 for _ in bad_values(name))})
        return
    if g == "registry":
        # every unit there is, one after the other on the same model
        name, point = case["name"], ("driven", "step3")[case["base"] % 2]
        twin = advance(kind, spec, point)
        r0, e0, obs0 = readings(kind, twin), erf_reading(twin), observe(kind, twin)
        want = finish(kind, twin, point)
        m = advance(kind, spec, point)
        for u in all_wrong(name):
            v = ur.Quantity(5.0 if name != "erf" else np.array([1.0, 2.0, 3.0, 4.0, 5.0]), u)
            ctx.at({"kind": kind, "assign": name, "value": "5 " + u, "at": point})
            refusal(kind, lambda: setattr(m, name, v), name, UnitError, "{}=5 {}".format(name, u), ctx)
            if name == "erf":
                refusal(kind, lambda: m.set_drivers(v), name, UnitError, "set_drivers {}".format(u), ctx)
            else:
                refusal(kind, lambda: CLS[kind](**{name: v}), name, UnitError, "{}({}=5 {})".format(kind, name, u), ctx)
            require(readings(kind, m) == r0, "refused assignment changed a parameter", parameter=name, value=u)
            ctx.step(2)
            ctx.state(kind, case["base"], name, u)
        e1 = erf_reading(m)
        require(same(e1[0], e0[0]) and e1[1] == e0[1], "refused assignment changed the drivers", parameter=name)
        require(all_same(observe(kind, m), obs0), "refused assignment changed results", parameter=name)
        require(all_same(finish(kind, m, point), want), "refused assignments changed later results", parameter=name, point=point)
        ctx.trace()
        return
    if g == "drivers":
        for point in POINTS:
            twin = advance(kind, spec, point)
            r0, e0, obs0 = readings(kind, twin), erf_reading(twin), observe(kind, twin)
            want = finish(kind, twin, point)
            bad = [("array", np.array([1.0, 2.0]), TypeError), ("list", [1.0, 2.0], TypeError),
                   ("series", pd.Series([1.0, 2.0]), TypeError), ("ints", np.array([1, 2]), TypeError), ("duck", duck("erf"), TypeError)]
            bad += [(u, ur.Quantity(np.array([1.0, 2.0]), u), UnitError) for u in wrong_units("erf")]
            bad += [("[] " + u, ur.Quantity(np.array([]), u), UnitError) for u in wrong_units("erf")]
            bad += [("zeros " + u, ur.Quantity(np.zeros(3), u), UnitError) for u in wrong_units("erf")]
            for lab, v, exc in bad:
                m = advance(kind, spec, point)
                ctx.at({"kind": kind, "set_drivers": lab, "at": point})
                refusal(kind, lambda: m.set_drivers(v), "erf", exc, "set_drivers {}".format(lab), ctx)
                ctx.step()
                e1 = erf_reading(m)
                require(readings(kind, m) == r0 and same(e1[0], e0[0]) and e1[1] == e0[1]
                        and all_same(observe(kind, m), obs0), "refused drivers changed the model", value=lab, at=point)
                require(all_same(finish(kind, m, point), want), "refused drivers changed later results", value=lab, at=point)
                ctx.state(kind, "drivers", point, lab)
                ctx.trace()
        ctx.sample({"kind": kind, "set_drivers": lab})
        return
    # scenarios with drivers of the wrong dimension
    m = build(kind, spec)
    good = run_of([row([1.0, 2.0, 3.0], "g")], years(2000, 3))
    want = build(kind, spec).run_scenarios(good, progress=False).timeseries().values
    r0 = {k: v for k, v in readings(kind, m).items() if k != "delta_t"}
    for u in [x for x in wrong_units("erf") if x and x != "degC"]:
        bad = run_of([row([1.0, 2.0, 3.0], "b", unit=u)], years(2000, 3))
        ctx.at({"kind": kind, "scenario unit": u})
        refusal(kind, lambda: m.run_scenarios(bad, progress=False), "erf", UnitError, "scenario in {}".format(u), ctx)
        ctx.step()
        r1 = {k: v for k, v in readings(kind, m).items() if k != "delta_t"}
        require(r0 == r1, "refused scenario changed parameters", unit=u)
        ctx.state(kind, "scenario", u)
    require(same(m.run_scenarios(good, progress=False).timeseries().values, want), "refused scenarios changed later results")
    ctx.trace()
    ctx.sample({"kind": kind, "scenario units": u})
