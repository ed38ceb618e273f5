"""C21: parameter conversion"""
import itertools

import numpy as np

from .. import ref
from ..world import (
    CLS, DEFAULTS, PARAMS, VIAS, all_same, build, chunked, drive, expect, forcing, in_unit, observe, q, require, ur,
)
from . import _dyn
from ._scen import physical

RULE = (
    "all parameter sets over product alphabets (7 values per parameter, spread over decades) in both directions: agreement "
    "with the reference equivalence, d1 < d2, q1 + q2 = 1/lambda0, the round trip; all unit assignments of a pool; "
    "all ways of arriving at the parameters; all non-zero a of an alphabet (down to the smallest float) x units; "
    "conversion at every point of a run"
)
BOUNDS = {
    "quick": "every parameter times 16 factors from 1e-9 to 1e9, and pairs of them, at 8 points; 16807 two-layer and up to 16807 impulse response sets (7 values per parameter), single and pairwise unit changes, 60 values of a",
    "thorough": "9 values per parameter (59049 sets each direction)",
}
CONFORMANCE = "reference equivalence from the eigenvalues of the linear system, calculated without cancellation"
ASSUMPTIONS = [
    "tolerance 1e-11 + 32 eps (d2/d1) ((d2+d1)/(d2-d1))^2 (1 + q1/q2 + q2/q1): the equivalence formulas lose that many digits; sets for which it exceeds 1e-5 are left out",
]

BASE = {"du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "eta": "W/m^2/delta_degC", "efficacy": "dimensionless",
        "q1": "delta_degC/(W/m^2)", "q2": "delta_degC/(W/m^2)", "d1": "s", "d2": "s"}
TLN = ("du", "dl", "lambda0", "eta", "efficacy")
IRN = ("q1", "q2", "d1", "d2", "efficacy")
TL_ALPHA = [[50, 1e-2, 7.5, 1e3, 1e5], [1200, 1, 60.0, 1e5, 1e9], [3.74 / 3, 0.01, 0.4, 3, 50.0], [0.8, 1e-6, 0.05, 5, 100.0],
            [1, 0.1, 1.3, 0.7, 10]]
TL_MORE = [[100.0, 300.0], [3700.0, 11.0], [1.0, 2.0], [0.5, 2.0], [1.01, 0.99]]
IR_ALPHA = [[0.3, 1e-3, 1.4, 5.0, 0.05], [0.4, 1e-3, 0.02, 1.1, 8], [9, 1e-3, 0.4, 60, 3.0], [400, 9.001, 61.5, 9000, 1e7],
            [1, 0.1, 1.3, 0.7, 10]]
IR_MORE = [[0.5, 0.7], [0.3, 0.7], [1.0, 30.0], [100.0, 200.0], [1.01, 0.99]]
TL_MOST = [[33.333333333333336, 700.0], [2500.0, 88.8], [0.7, 5.0], [0.3, 1.2345678901234567], [1 / 3, 3.0]]
IR_MOST = [[0.11111111111111111, 2.2], [0.15, 2.5], [0.7, 12.3], [30.0, 1e4], [1 / 3, 3.0]]
UNITS = {
    "du": ["m", "km", "cm"], "dl": ["m", "km", "mm"],
    "lambda0": ["W/m^2/delta_degC", "W/m^2/K", "mW/m^2/K", "W/km^2/K"],
    "eta": ["W/m^2/delta_degC", "kW/m^2/K", "W/m^2/mK", "W/m^2/K"],
    "efficacy": ["dimensionless", "m/km", "cm/m"],
    "q1": ["delta_degC/(W/m^2)", "mK/(W/m^2)", "K*m^2/W", "K*km^2/W"],
    "q2": ["delta_degC/(W/m^2)", "K/(W/m^2)", "delta_degC/(kW/m^2)"],
    "d1": ["yr", "month", "s", "day"], "d2": ["yr", "kyr", "day", "h"],
}
# times the value of a base point
FAR = [10.0 ** e for e in (-9, -6, -4, -3, -2, -1.5, -1, -0.5, 0.5, 1, 1.5, 2, 3, 4, 6, 9)]
A_UNITS = ["W/m^2/delta_degC^2", "mW/m^2/K^2", "kW/m^2/K/delta_degC", "W/m^2/K^2"]
A_VALUES = [1.0, -1.0, 0.05, -0.05, 1e-3, 1e-9, -1e-9, 1e-12, 1e-15, 1e-30, -1e-100, 1e-300, 5e-324, -5e-324, 1e10, 1e300]


def alphabets(kind, tier):
    alpha = TL_ALPHA if kind == "tl" else IR_ALPHA
    more = TL_MORE if kind == "tl" else IR_MORE
    alpha = [a + b for a, b in zip(alpha, more)]
    if tier == "thorough":
        alpha = [a + b for a, b in zip(alpha, TL_MOST if kind == "tl" else IR_MOST)]
    return alpha


_SETS = {}


def sets(kind, tier):
    if (kind, tier) not in _SETS:
        out = list(itertools.product(*alphabets(kind, tier)))
        if kind == "ir":
            out = [p for p in out if p[2] < p[3]]
        _SETS[(kind, tier)] = out
    return _SETS[(kind, tier)]


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for f in range(8):
            out.append({"group": "units", "kind": kind, "point": f})
        out.append({"group": "vias", "kind": kind})
        out.append({"group": "midrun", "kind": kind})
        for f in range(8):
            out.append({"group": "far", "kind": kind, "point": f})
        n = len(sets(kind, tier))
        for c in chunked(range(n), 120):
            out.append({"group": "sets", "kind": kind, "from": c[0], "to": c[-1] + 1})
    for u in A_UNITS:
        out.append({"group": "a", "unit": u})
    return out


def cond_of(r):
    if not min(r[n] for n in ("d1", "d2", "q1", "q2")) > 0 or not r["d2"] > r["d1"]:
        return float("inf")  # beyond what floating point can tell apart
    d, g = r["d2"] / r["d1"], r["q1"] / r["q2"]
    return d * ((d + 1) / (d - 1)) ** 2 * (1 + g + 1 / g)


def reference(kind, p):
    """(impulse response params, two-layer params) in base units for base-unit p"""
    if kind == "tl":
        r = ref.to_impulse_response(p)
        return r, {k: p[k] for k in TLN}
    s = {k: [p[k], BASE[k]] for k in IRN}
    g = ref.IR(dict(s, delta_t=[1.0, "yr"])).two_layer()
    return {k: p[k] for k in IRN}, {k: g[k] for k in TLN}


def mags(params, names):
    """Base-unit magnitudes"""
    require(set(params) == set(names), "conversion returned other parameters", got=sorted(params), expected=sorted(names))
    return {k: float(params[k].to(BASE[k]).magnitude) for k in names}


def close(got, want, tol, what, **detail):
    for k in want:
        require(abs(got[k] - want[k]) <= tol * abs(want[k]), what, parameter=k, got=got[k], expected=want[k], tolerance=tol, **detail)


def convert(kind, m):
    return m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()


def check(kind, spec, ctx, via="ctor", model=None):
    """Convert, compare, build the other model, convert back"""
    p = {k: ref.base(k, [float(v[0]), v[1]]) for k, v in spec.items() if k not in ("a", "delta_t")}
    if kind == "ir" and not p["d1"] < p["d2"]:
        return False
    try:
        r, t = reference(kind, p)
    except ZeroDivisionError:
        return False  # beyond what floating point can tell apart
    tol = 1e-11 + 32 * ref.EPS * cond_of(r)
    if tol > 1e-5:
        return False
    m = model if model is not None else build(kind, spec, via)
    ctx.at({"kind": kind, "spec": spec, "via": via})
    before = physical(kind, m)
    dt0 = str(m.delta_t)
    conv = convert(kind, m)
    other = "ir" if kind == "tl" else "tl"
    want, names = (r, IRN) if kind == "tl" else (t, TLN)
    got = mags(conv, names)
    close(got, want, tol, "converted parameter is not that of the equivalent model", spec=spec)
    e = conv["efficacy"].to("dimensionless").magnitude
    require(abs(e - p["efficacy"]) <= 1e-13 * abs(p["efficacy"]), "efficacy changed by conversion", got=e, expected=p["efficacy"])
    ir, tl = (got, p) if kind == "tl" else (p, got)
    require(ir["d1"] < ir["d2"], "d1 not below d2", got=ir, spec=spec)
    require(abs((ir["q1"] + ir["q2"]) * tl["lambda0"] - 1) <= tol, "q1 + q2 is not 1/lambda0", got=ir, lambda0=tl["lambda0"], spec=spec)
    o = CLS[other](**conv)
    back = convert(other, o)
    close(mags(back, TLN if kind == "tl" else IRN), t if kind == "tl" else r, tol * 4, "round trip does not give the original parameters", spec=spec)
    again = CLS[kind](**back)
    require(physical(kind, m) == before and str(m.delta_t) == dt0, "conversion changed the model", spec=spec)
    for n in PARAMS[other]:
        if n in conv:
            require(getattr(o, n) == conv[n], "the other model did not take the parameter as given", parameter=n)
    if other == "tl":
        require(o.a.magnitude == 0, "state dependence in the equivalent model", a=str(o.a))
    require(again is not None, "round trip parameters refused")
    ctx.step(2)
    ctx.trace()
    ctx.evaluate(3)
    ctx.state(kind, sorted(spec.items()))
    ctx.outcome(*(got[k] for k in names))
    return True


def points(kind):
    if kind == "tl":
        return [(50, 1200, 3.74 / 3, 0.8, 1.0), (81.25, 640.0, 0.9, 0.55, 1.31), (20.0, 2000.0, 2.1, 1.2, 0.8), (150.0, 90.0, 0.7, 3.0, 1.1),
                (1.0, 4e4, 5.0, 0.1, 1.0), (50.0, 1e5, 1.2, 0.7, 2.0), (53.123456789012345, 1234.5678901234567, 1.2345678901234567, 0.77777777777777779, 1 / 3),
                (47.000000012345678, 1100.0000001234567, 1.1000000012345678, 0.70000000123456789, 1.0000000123456789)]
    return [(0.3, 0.4, 9.0, 400.0, 1.0), (0.45, 0.21, 3.3, 145.0, 1.37), (0.05, 1.1, 20.0, 21.0, 0.8), (1.0, 0.1, 0.5, 3000.0, 1.1),
            (0.2, 0.2, 50.0, 60.0, 1.0), (0.7, 0.02, 1.0, 100.0, 2.0), (0.31234567890123456, 0.42345678901234567, 8.9012345678901234, 398.76543210987654, 1 / 3),
            (0.30000000012345678, 0.40000000123456789, 9.0000000123456789, 400.00000012345678, 1.0000000123456789)]


def base_spec(kind, p):
    names = TLN if kind == "tl" else IRN
    units = {n: (BASE[n] if n not in ("d1", "d2") else "yr") for n in names}
    out = {n: [v, units[n]] for n, v in zip(names, p)}
    if kind == "tl":
        out["a"] = [0.0, A_UNITS[0]]
    return out


def run(case, ctx):
    group = case["group"]
    if group == "sets":
        kind = case["kind"]
        names = TLN if kind == "tl" else IRN
        n = 0
        for p in sets(kind, ctx.tier)[case["from"] : case["to"]]:
            n += check(kind, base_spec(kind, p), ctx)
        ctx.sample({"kind": kind, "params": dict(zip(names, p)), "sets": n})
    elif group == "units":
        kind = case["kind"]
        names = TLN if kind == "tl" else IRN
        spec = base_spec(kind, points(kind)[case["point"]])
        base = {n: ref.base(n, spec[n]) for n in names}
        opts = [(n, u) for n in names for u in UNITS[n]]
        for (n1, u1), (n2, u2) in itertools.combinations_with_replacement(opts, 2):
            if n1 == n2 and u1 != u2:
                continue
            s = dict(spec)
            s[n1] = in_unit(n1, base[n1], u1)
            s[n2] = in_unit(n2, base[n2], u2)
            if kind == "tl":
                s["a"] = [0.0, A_UNITS[len(u1) % 4]]
            check(kind, s, ctx, via=("ctor", "setters")[len(u2) % 2])
        # all at once
        for i in range(4):
            s = {n: in_unit(n, base[n], UNITS[n][i % len(UNITS[n])]) for n in names}
            check(kind, s, ctx)
        ctx.sample({"kind": kind, "params": s})
    elif group == "far":
        # every parameter alone, and every two of them, far away from the rest
        kind = case["kind"]
        names = TLN if kind == "tl" else IRN
        p = points(kind)[case["point"]]
        n = 0
        for i, j in itertools.combinations_with_replacement(range(5), 2):
            for f, g in itertools.product(FAR, FAR if ctx.tier == "thorough" else FAR[::3]) if i != j else zip(FAR, FAR):
                v = list(p)
                v[i] *= f
                if i != j:
                    v[j] *= g
                n += check(kind, base_spec(kind, v), ctx)
        ctx.sample({"kind": kind, "around": p, "times": FAR, "sets": n})
    elif group == "vias":
        kind = case["kind"]
        for p in points(kind):
            for via in VIAS:
                check(kind, dict(base_spec(kind, p), delta_t=[7.0, "day"]), ctx, via=via)
            # number types
            s = {n: [int(round(v[0])) or 1, v[1]] if n not in ("q1", "q2") else v for n, v in base_spec(kind, p).items() if n != "a"}
            for conv in (int, np.int64, np.float64, np.float32):
                t = {n: [conv(v[0]) if n not in ("q1", "q2") else v[0], v[1]] for n, v in s.items()}
                if kind == "tl" or t["d1"][0] < t["d2"][0]:
                    check(kind, {n: [t[n][0], v[1]] for n, v in s.items()} if conv is not np.float32 else s, ctx)
        # one parameter after the other changed on the same model
        m = build(kind, base_spec(kind, points(kind)[0]))
        cur = base_spec(kind, points(kind)[0])
        for p in points(kind)[1:] + points(kind)[:1]:
            new = base_spec(kind, p)
            order = list(new)
            if kind == "ir" and ref.base("d1", new["d1"]) >= ref.base("d2", cur["d2"]):
                order.reverse()
            for n in order:
                setattr(m, n, q(new[n]))
                cur[n] = new[n]
                check(kind, cur, ctx, via="assignments", model=m)
        ctx.sample({"kind": kind, "built": VIAS})
    elif group == "a":
        zero = base_spec("tl", points("tl")[1])
        for v in (0.0, -0.0, 0, np.float64(0), np.int64(0), np.float32(0)):
            for via in VIAS[:3]:
                ctx.at({"a": repr(v), "unit": case["unit"]})
                require(check("tl", dict(zero, a=[v, case["unit"]]), ctx, via=via), "not checked")
        for v in A_VALUES:
            if ref.base("a", [v, case["unit"]]) == 0:
                continue  # underflow in base units
            for p in points("tl")[:2]:
                for via in ("ctor", "setters", "zero before", "zero after"):
                    spec = dict(base_spec("tl", p), a=[v, case["unit"]])
                    m = build("tl", dict(spec, a=[0.0, case["unit"]]) if via.startswith("zero") else spec,
                              via if not via.startswith("zero") else "ctor")
                    if via.startswith("zero"):
                        if via == "zero before":
                            m.get_impulse_response_parameters()
                        m.a = q(spec["a"])
                    ctx.at({"a": v, "unit": case["unit"], "via": via})
                    before = physical("tl", m)
                    expect(ValueError, m.get_impulse_response_parameters, ctx, "state dependence has no impulse response equivalent", a=spec["a"])
                    require(physical("tl", m) == before, "refused conversion changed the model")
                    ctx.step()
                    ctx.state("a", v, case["unit"], via)
                    ctx.outcome("refused", v)
                    if via == "zero after":
                        m.a = ur.Quantity(0.0, case["unit"])
                        check("tl", dict(spec, a=[0.0, case["unit"]]), ctx, model=m)
        ctx.sample({"a": A_VALUES, "unit": case["unit"]})
    elif group == "midrun":
        kind = case["kind"]
        F = [3.74, -2.5, 6.0, 1.0, 0.5, 8.0]
        for p in points(kind):
            spec = dict(base_spec(kind, p), delta_t=[1.0, "yr"])
            want = observe(kind, drive(build(kind, spec), F))
            for at in range(len(F) + 1):
                m = build(kind, spec)
                m.set_drivers(forcing(F))
                m.reset()
                for i in range(len(F)):
                    if i == at:
                        check(kind, spec, ctx, via="mid-run", model=m)
                    m.step()
                if at == len(F):
                    check(kind, spec, ctx, via="mid-run", model=m)
                require(all_same(observe(kind, m), want), "conversion disturbed a run", at=at, spec=spec)
                ctx.trace()
        ctx.sample({"kind": kind, "converted at every step of": F})
