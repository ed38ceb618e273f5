"""C09: parameters read back, derived values coherent, next run uses them"""
import numpy as np

from .. import ref, spaces
from ..world import (
    CLS, DEFAULTS, PARAMS, all_same, build, chunked, check_steps, drive, forcing, observe, q, require, ur, near,
)
from . import _dyn

RULE = (
    "explicit-state exploration of parameter histories: all sequences up to the stated depth of "
    "{assign each of 4 values (incl. other unit, same number in other unit, 1e-6 relative change) to each parameter, refused "
    "assignment, run, partial run, reset, conversion, heat capacity reading}; in every state reached all "
    "readings and heat capacities are checked and the next run is compared with that of a new model "
    "with the same values; parameters changed between set_drivers, reset, and single steps"
)
BOUNDS = {
    "quick": "depth 2 over all ~35 operations and depth 3 over a 14-operation core, from constructor defaults and from explicit values",
    "thorough": "depth 3 over all operations, depth 4 over the core",
}
CONFORMANCE = "each abstract history (map from parameter to last accepted value) is replayed on a real model"
ASSUMPTIONS = ["parameters are changed between runs or between steps, never during one"]

F = [3.74, -2.5, 6.0, 1.0]
VALUES = {
    "tl": {
        "du": [[80.0, "m"], [0.05, "km"], [50, "cm"], [80.00008, "m"], [3000.0, "m"]],
        "dl": [[640, "m"], [1.2, "km"], [1200.0, "cm"], [640.00064, "m"]],
        "lambda0": [[0.9, "W/m^2/K"], [900.0, "mW/m^2/K"], [3.74 / 3, "kW/m^2/K"], [0.9000009, "W/m^2/K"]],
        "a": [[0.04, "W/m^2/K^2"], [40.0, "mW/m^2/K^2"], [0, "mW/m^2/K^2"], [0.04000004, "W/m^2/K^2"]],
        "efficacy": [[1.3, "dimensionless"], [1300.0, "m/km"], [1.0, "cm/m"], [1.000001, "dimensionless"]],
        "eta": [[0.5, "W/m^2/K"], [500.0, "mW/m^2/K"], [0.8, "mW/m^2/K"], [0.0, "W/m^2/K"]],
        "delta_t": [[1.0, "month"], [30, "day"], [1.0, "day"], [1.000001, "yr"]],
    },
    "ir": {
        "q1": [[0.45, "K*m^2/W"], [450.0, "mK/(W/m^2)"], [0.3, "mK/(W/m^2)"], [0.4500004, "K*m^2/W"]],
        "q2": [[0.2, "K*m^2/W"], [200.0, "mK/(W/m^2)"], [0.4, "mK/(W/m^2)"], [0.2000002, "K*m^2/W"]],
        "d1": [[3.0, "yr"], [36, "month"], [9.0, "month"], [3.000003, "yr"], [600.0, "yr"]],
        "d2": [[145.0, "yr"], [1740, "month"], [400.0, "month"], [145.0001, "yr"], [5.0, "yr"]],
        "efficacy": [[1.3, "dimensionless"], [1300.0, "m/km"], [1.0, "km/m"], [1.000001, "dimensionless"]],
        "delta_t": [[1.0, "yr"], [30, "day"], [1 / 12, "month"], [1.000001, "yr"]],
    },
}


def ops(kind):
    out = []
    for n, vals in VALUES[kind].items():
        for i in range(len(vals)):
            out.append(("set", n, i))
    out += [("bad", "unit"), ("bad", "type"), ("run",), ("partial",), ("reset",), ("convert",), ("read",)]
    return out


def core(kind):
    out = [("set", n, i) for n in VALUES[kind] for i in (0, 3)]
    return out[: 2 * len(VALUES[kind])] + [("run",), ("convert",)]


STARTS = ("defaults", "explicit")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for s in STARTS:
            out.append({"group": "start", "kind": kind, "start": s})
            for i in range(len(ops(kind))):
                out.append({"group": "all", "kind": kind, "start": s, "first": i, "depth": 3 if deep else 2})
        for s in STARTS if deep else STARTS[:1]:
            for i in range(len(core(kind))):
                for j in range(len(core(kind))):
                    out.append({"group": "core", "kind": kind, "start": s, "first": i, "second": j,
                                "depth": 4 if deep else 3})
        for p in range(len(VALUES[kind])):
            out.append({"group": "midrun", "kind": kind, "param": p})
        for n in VALUES[kind]:
            out.append({"group": "values", "kind": kind, "name": n})
    return out


def initial(kind, start):
    if start == "defaults":
        spec = {n: list(v) for n, v in DEFAULTS[kind].items()}
        if kind == "tl":
            spec["delta_t"] = [ref.YEAR, "s"]  # the default is written in seconds
        return CLS[kind](), spec
    spec = {n: list(v) for n, v in _dyn.base_points(kind)[2].items()}
    return build(kind, spec), spec


_FRESH = {}


def fresh(kind, spec):
    """Results of a new model with these values"""
    key = (kind, repr(sorted(spec.items())))
    if key not in _FRESH:
        if len(_FRESH) > 4000:
            _FRESH.clear()
        try:
            m = CLS[kind](**{k: q(v) for k, v in spec.items()})
        except ValueError:
            # short timescale above the long one: only reachable by assignment
            m = CLS[kind]()
            for k, v in spec.items():
                setattr(m, k, q(v))
        drive(m, F)
        _FRESH[key] = observe(kind, m)
    return _FRESH[key]


def converted(kind, m):
    try:
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
    except (ValueError, ZeroDivisionError) as exc:
        return type(exc).__name__
    return {k: repr(v.to_base_units().magnitude) for k, v in p.items()}


_CONV = {}


def fresh_conversion(kind, spec):
    key = (kind, repr(sorted(spec.items())))
    if key not in _CONV:
        m = CLS[kind]()
        for k, v in spec.items():
            setattr(m, k, q(v))
        _CONV[key] = converted(kind, m)
    return _CONV[key]


def apply(kind, m, spec, op):
    """One transition of implementation and abstract state"""
    if op[0] == "set":
        v = VALUES[kind][op[1]][op[2]]
        setattr(m, op[1], q(v))
        spec = dict(spec)
        spec[op[1]] = v
    elif op[0] == "bad":
        for n in VALUES[kind]:
            try:
                setattr(m, n, ur.Quantity(3.0, "kg") if op[1] == "unit" else 3.0)
            except (TypeError, ValueError):
                pass
    elif op[0] == "run":
        drive(m, [1.0, 2.0, -7.0])
    elif op[0] == "partial":
        m.set_drivers(forcing([5.0, 6.0, 7.0]))
        m.reset()
        m.step(), m.step()
    elif op[0] == "reset":
        m.set_drivers(forcing([5.0, 6.0]))
        m.reset()
    elif op[0] == "convert":
        converted(kind, m)
    elif op[0] == "read":
        for n in DEFAULTS[kind]:
            getattr(m, n)
        if kind == "tl":
            m.heat_capacity_upper, m.heat_capacity_lower
    return spec


def readings_ok(kind, m, spec, hist):
    for n, v in spec.items():
        got = getattr(m, n)
        require(type(got.magnitude) is type(v[0]) or got.magnitude == v[0], "reading", history=hist)
        require(got.magnitude == v[0], "parameter does not read back", parameter=n, written=v, got=str(got), history=hist)
        require(got.units == ur.Quantity(1, v[1]).units, "unit does not read back", parameter=n, written=v, got=str(got), history=hist)
    if kind == "tl":
        for layer, n in (("upper", "du"), ("lower", "dl")):
            hc = getattr(m, "heat_capacity_" + layer)
            want = ref.base(n, spec[n]) * ref.RHO_CP
            require(near(hc.to("J/delta_degC/m^2").magnitude, want, 1e-12), "heat capacity does not follow depth",
                    layer=layer, got=str(hc), expected=want, history=hist)


def check(kind, m, spec, hist, ctx):
    ctx.at({"kind": kind, "history": hist})
    readings_ok(kind, m, spec, hist)
    require(converted(kind, m) == fresh_conversion(kind, spec), "converted parameters depend on history", history=hist,
            got=converted(kind, m), expected=fresh_conversion(kind, spec))
    drive(m, F)
    got = observe(kind, m)
    require(all_same(got, fresh(kind, spec)), "run differs from that of a new model with the same values",
            history=hist, spec=spec, got=[g.tolist() for g in got], expected=[w.tolist() for w in fresh(kind, spec)])
    readings_ok(kind, m, spec, hist)
    ctx.trace()
    ctx.evaluate()
    ctx.state(kind, repr(sorted(spec.items())))
    ctx.outcome(*(g.tobytes() for g in got))


def replay(kind, start, hist, ctx):
    m, spec = initial(kind, start)
    for op in hist:
        spec = apply(kind, m, spec, op)
        ctx.step()
    check(kind, m, spec, [start] + [list(h) for h in hist], ctx)


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "start":
        replay(kind, case["start"], [], ctx)
        m, spec = initial(kind, case["start"])
        readings_ok(kind, m, spec, [case["start"]])
        return
    if case["group"] == "values":
        values(kind, case["name"], ctx)
        return
    if case["group"] in ("all", "core"):
        alphabet = ops(kind) if case["group"] == "all" else core(kind)
        prefix = [alphabet[case["first"]]]
        if "second" in case:
            prefix.append(alphabet[case["second"]])
        stack = [prefix]
        while stack:
            h = stack.pop()
            replay(kind, case["start"], h, ctx)
            if len(h) < case["depth"]:
                stack += [h + [o] for o in alphabet]
        ctx.sample({"kind": kind, "start": case["start"], "history": h})
        return
    midrun(kind, list(VALUES[kind])[case["param"]], ctx)


def no_equivalent(kind, spec):
    """The heat uptake needs an equivalent two-layer model when the efficacy isn't one"""
    if _dyn.degenerate(kind, spec):
        return True
    return kind == "ir" and spec["efficacy"][0] != 1 and near(ref.base("d1", spec["d1"]), ref.base("d2", spec["d2"]), 1e-5)


def values(kind, name, ctx):
    """Zero, negative, tiny, huge values, and values equal to those of other parameters, against the reference system"""
    vals = [v if isinstance(v, list) else [v, DEFAULTS[kind][name][1]] for v in spaces.STAR[kind][name]]
    for b in range(3):
        start = _dyn.base_points(kind)[b]
        same = [list(start[o]) for o in start if o != name and ref.KIND[o] == ref.KIND[name]]
        own = start[name]
        same.append(list(own))
        for v in [[float(x), own[1]] for x in (np.nextafter(own[0], 1e300), own[0] * (1 + 1e-13), own[0] * (1 + 1e-10), own[0] + 1e-14, own[0] + 1e-11)] + vals + same + [[s[0] * k, s[1]] for s in same for k in (1.5, 0.5, 1.0000001)]:
            for word in (("set",), ("run", "set"), ("set", "other", "set"), ("run", "set", "run", "back", "run", "set"),
                         ("set", "reset", "again"), ("partial", "set")):
                spec = {k: list(x) for k, x in start.items()}
                m = build(kind, spec)
                ctx.at({"kind": kind, "start": spec, "parameter": name, "value": v, "history": word})
                odd = False  # no equivalent two-layer model, which runs need
                for op in word:
                    odd = odd or no_equivalent(kind, spec)
                    if odd:
                        break
                    if op in ("set", "again"):
                        setattr(m, name, q(v))
                        spec[name] = list(v)
                    elif op == "back":
                        setattr(m, name, q(start[name]))
                        spec[name] = list(start[name])
                    elif op == "other":
                        setattr(m, name, q(VALUES[kind][name][0]))
                        spec[name] = list(VALUES[kind][name][0])
                    else:
                        spec = apply(kind, m, spec, (op,))
                    ctx.step()
                odd = odd or no_equivalent(kind, spec)
                readings_ok(kind, m, spec, [name, v, list(word)])
                if not odd:
                    drive(m, F)
                    got = observe(kind, m)
                    require(all_same(got, fresh(kind, spec)), "run differs from that of a new model with the same values", history=[name, v, list(word)],
                            spec=spec, got=[g.tolist() for g in got], expected=lambda: [w.tolist() for w in fresh(kind, spec)])
                order = kind == "ir" and ref.base("d1", spec["d1"]) >= ref.base("d2", spec["d2"])
                if odd:
                    continue
                drive(m, F)
                check_steps(kind, spec, m, F, ctx, what=("temp",) if order else ("temp", "uptake"))
                ctx.trace()
                ctx.evaluate()


def midrun(kind, name, ctx):
    """Assignments between set_drivers, reset and steps act from the next step on"""
    G = [3.74, -2.5, 6.0, 1.0, 2.0, 0.5]
    for start in STARTS:
        for i in range(len(VALUES[kind][name])):
            for at in range(-2, len(G)):
                for other in (None,) + tuple(n for n in VALUES[kind] if n != name):
                    m, spec = initial(kind, start)
                    hist = [start, name, i, at, other]
                    ctx.at({"kind": kind, "assign": hist})
                    before = dict(spec)
                    m.set_drivers(forcing(G))
                    if at == -2:
                        spec = apply(kind, m, spec, ("set", name, i))
                    m.reset()
                    if at == -1:
                        spec = apply(kind, m, spec, ("set", name, i))
                    for k in range(len(G)):
                        if k == at:
                            spec = apply(kind, m, spec, ("set", name, i))
                            if other:
                                spec = apply(kind, m, spec, ("set", other, 0))
                        m.step()
                        ctx.step()
                    x, y, n = observe(kind, m)
                    if at < 0:
                        want = build_like(kind, spec, G)
                        require(all_same((x, y, n), want), "value assigned before the first step not used", history=hist)
                    else:
                        want = build_like(kind, before, G)
                        require(all(np.array_equal(a[:at], b[:at]) for a, b in zip((x, y, n), want)),
                                "assignment changed earlier results", history=hist)
                        for k in range(max(at, 1), len(G)):
                            obs = tuple(o[k - 1 : k + 1].copy() for o in (x, y, n))
                            local(kind, spec, obs, G[k - 1], hist, ctx)
                    readings_ok(kind, m, spec, hist)
                    ctx.trace()
                    ctx.state(kind, "mid", *hist)
    ctx.sample({"kind": kind, "assigned between steps": name})


_LIKE = {}


def build_like(kind, spec, G):
    key = (kind, repr(sorted(spec.items())), len(G))
    if key not in _LIKE:
        m = CLS[kind]()
        for k, v in spec.items():
            setattr(m, k, q(v))
        drive(m, G)
        _LIKE[key] = observe(kind, m)
    return _LIKE[key]


def local(kind, spec, obs, f, hist, ctx):
    """One transition with the values now in force"""
    model = (ref.TL if kind == "tl" else ref.IR)(spec)
    s = (float(obs[0][0]), float(obs[1][0]))
    want, scale = model.step(s, f)
    for got, w, sc in zip((obs[0][1], obs[1][1]), want, scale):
        require(abs(got - w) <= 1e-11 * sc, "step does not use the values in force", history=hist, got=float(got), expected=w)
    if not _dyn.degenerate(kind, spec) and not (kind == "ir" and model.d[0] >= model.d[1]):
        up, us, uy = model.uptake(s, f)
        require(abs(obs[2][1] - up) <= 1e-10 * us + 64 * ref.EPS * uy, "heat uptake does not use the values in force",
                history=hist, got=float(obs[2][1]), expected=up)
