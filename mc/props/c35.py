"""C35: number types"""
import itertools

import numpy as np
from openscm_twolayermodel import ImpulseResponseModel, TwoLayerModel
from openscm_twolayermodel.utils import convert_lambda_to_ecs
from openscm_units import unit_registry as ur

from ..world import canon_frame, near, observe, require, row, run_of, years
from . import _scen

RULE = (
    "parameter sets of whole numbers in several units x every parameter alone, every pair and all at once x number types (Python and numpy "
    "integers, signed and unsigned, from 32 bits; single, double and extended floating point; arrays without dimensions) x ways to set them; "
    "forcing in every type, byte order and memory layout; compared with the same numbers in double precision"
)
BOUNDS = {
    "quick": "6 two-layer and 6 impulse response sets, 11 number types, each parameter, each pair of parameters with each pair of 5 types, all "
    "parameters at once; run, steps, assignment between steps, run_scenarios, both conversions; 12 forcing types x 5 layouts x 3 units; "
    "scenarios of 8 types in two containers; sensitivities in every pair of types",
    "thorough": "each pair of parameters with each pair of the 11 types",
}
CONFORMANCE = "every number is given to the real models in every type; oracle is the real model with the same numbers in double precision"
ASSUMPTIONS = [
    "only numbers the type holds exactly; single precision values compared to 1e-4 of the largest value of a series",
    "integers narrower than 32 bits, half precision, fractions and decimals are outside",
]
CLASS = {"tl": TwoLayerModel, "ir": ImpulseResponseModel}
TYPES = {
    "int": int, "int32": np.int32, "int64": np.int64, "uint32": np.uint32, "uint64": np.uint64, "float": float, "float32": np.float32,
    "float64": np.float64, "longdouble": np.longdouble, "0d int": lambda v: np.array(int(v), dtype=np.int64), "0d float": lambda v: np.array(float(v)),
}
SETS = {
    "tl": [
        {"du": (50, "m"), "dl": (1200, "m"), "lambda0": (1, "W/m^2/delta_degC"), "a": (0, "W/m^2/delta_degC^2"), "efficacy": (1, "dimensionless"),
         "eta": (1, "W/m^2/delta_degC"), "delta_t": (1, "yr")},
        {"du": (60000, "mm"), "dl": (1100000, "mm"), "lambda0": (1250, "mW/m^2/delta_degC"), "a": (20, "mW/m^2/delta_degC^2"), "efficacy": (2, "dimensionless"),
         "eta": (800, "mW/m^2/delta_degC"), "delta_t": (2629800, "s")},
        {"du": (5000, "cm"), "dl": (2, "km"), "lambda0": (3, "W/m^2/K"), "a": (0, "W/m^2/K^2"), "efficacy": (130, "cm/m"),
         "eta": (2, "W/m^2/K"), "delta_t": (30, "day")},
        {"du": (50, "m"), "dl": (1200, "m"), "lambda0": (2, "W/m^2/delta_degC"), "a": (1, "W/m^2/delta_degC^2"), "efficacy": (3, "dimensionless"),
         "eta": (0, "W/m^2/delta_degC"), "delta_t": (31557600, "s")},
        {"du": (1, "km"), "dl": (1, "m"), "lambda0": (1, "W/m^2/delta_degC"), "a": (0, "W/m^2/delta_degC^2"), "efficacy": (2, "dimensionless"),
         "eta": (1, "W/m^2/delta_degC"), "delta_t": (6, "hour")},
        {"du": (100, "m"), "dl": (3000000000, "nm"), "lambda0": (1200000000, "nW/m^2/delta_degC"), "a": (0, "W/m^2/delta_degC^2"), "efficacy": (1300, "m/km"),
         "eta": (700000, "uW/m^2/delta_degC"), "delta_t": (60000000, "ms")},
    ],
    "ir": [
        {"q1": (1, "delta_degC/(W/m^2)"), "q2": (2, "delta_degC/(W/m^2)"), "d1": (9, "yr"), "d2": (400, "yr"), "efficacy": (1, "dimensionless"),
         "delta_t": (1, "yr")},
        {"q1": (300, "mK/(W/m^2)"), "q2": (400, "mK/(W/m^2)"), "d1": (946728000, "s"), "d2": (12623040000, "s"), "efficacy": (2, "dimensionless"),
         "delta_t": (31557600, "s")},
        {"q1": (1, "delta_degC/(W/m^2)"), "q2": (1, "delta_degC/(W/m^2)"), "d1": (48, "month"), "d2": (90000, "day"), "efficacy": (120, "cm/m"),
         "delta_t": (30, "day")},
        {"q1": (300, "K/(kW/m^2)"), "q2": (500, "delta_degC/(kW/m^2)"), "d1": (2, "yr"), "d2": (3155760000, "s"), "efficacy": (3, "dimensionless"),
         "delta_t": (2629800, "s")},
        {"q1": (1, "delta_degC/(W/m^2)"), "q2": (2, "delta_degC/(W/m^2)"), "d1": (40000, "hour"), "d2": (4000000, "hour"), "efficacy": (2, "dimensionless"),
         "delta_t": (730, "hour")},
        {"q1": (3, "K/(W/m^2)"), "q2": (1, "K/(W/m^2)"), "d1": (30 * 31557600000, "ms"), "d2": (700 * 31557600000, "ms"), "efficacy": (2, "dimensionless"),
         "delta_t": (31557600000, "ms")},
    ],
}
F = [4.0, 4.0, -3.0, 0.0, 7.0, 7.0, 2.0, 1.0]
ARRAY_TYPES = ["int32", "int64", "uint32", "uint64", "float32", "float64", "longdouble", ">f8", ">i4", ">u8", "bool", "list"]
LAYOUTS = ["plain", "strided", "reversed", "readonly", "unaligned"]
PAIR_TYPES = ["int", "int32", "int64", "uint64", "0d int"]


def setup():
    for kind in SETS:
        for i in range(len(SETS[kind])):
            want(kind, i)


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for i in range(len(SETS[kind])):
            for t in TYPES:
                out.append({"group": "alone", "kind": kind, "set": i, "type": t})
            out.append({"group": "pairs", "kind": kind, "set": i, "types": list(TYPES) if tier == "thorough" else PAIR_TYPES})
        for u in ("W/m^2", "mW/m^2", "kW/m^2"):
            out.append({"group": "forcing", "kind": kind, "unit": u})
        out.append({"group": "scenarios", "kind": kind})
    out.append({"group": "ecs"})
    return out


def give(value, t):
    """The value as that type, None if the type can't hold it"""
    try:
        out = TYPES[t](value)
    except OverflowError:
        return None
    return out if int(out) == value else None


def quantities(kind, i, types):
    """{parameter: quantity}, None if a type can't hold a value"""
    out = {}
    for n, (v, u) in SETS[kind][i].items():
        x = give(v, types.get(n, "float"))
        if x is None:
            return None
        out[n] = ur.Quantity(x, u)
    return out


def results(kind, m, how="run"):
    m.set_drivers(ur.Quantity(np.array(F), "W/m^2"))
    m.reset()
    if how == "run":
        m.run()
    else:
        for _ in F:
            m.step()
    return observe(kind, m)


def converted(kind, m):
    """Parameters of the other model in its units"""
    if kind == "tl":
        if m.a.magnitude != 0 or m.eta.magnitude == 0:
            return {}
        got = m.get_impulse_response_parameters()
    else:
        got = m.get_two_layer_parameters()
    other = ImpulseResponseModel if kind == "tl" else TwoLayerModel
    return {k: float(v.to(getattr(other, "_%s_unit" % k)).magnitude) for k, v in got.items()}


def table(run):
    ts = canon_frame(run)
    return list(ts.index.names), [tuple(t) for t in ts.index], ts.values.astype(float)


_WANT = {}


def want(kind, i):
    if (kind, i) not in _WANT:
        m = CLASS[kind](**quantities(kind, i, {}))
        _WANT[kind, i] = (results(kind, m), converted(kind, m), table(CLASS[kind](**quantities(kind, i, {})).run_scenarios(scenario(), progress=False)))
    return _WANT[kind, i]


def scenario(values=None):
    return run_of([row(F if values is None else values), row([2.0, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan], "t")], years(2001, len(F)))


def compare(what, got, expected, rtol, ctx, **detail):
    ctx.evaluate(len(expected))
    for g, w in zip(got, expected):
        g, w = np.asarray(g, float), np.asarray(w, float)
        top = max(abs(w[np.isfinite(w)]), default=0.0)
        require(g.shape == w.shape and near(g, w, rtol, rtol * top), what, got=g.tolist(), expected=w.tolist(), **detail)


def verify(kind, i, types, ctx, deep):
    p = quantities(kind, i, types)
    if p is None:
        return
    base, conv, out = want(kind, i)
    rtol = 1e-4 if "float32" in types.values() else 1e-10
    at = {"kind": kind, "set": {n: list(v) for n, v in SETS[kind][i].items()}, "types": types}
    ctx.at(at)
    m = CLASS[kind](**p)
    compare("run differs with the number type", results(kind, m), base, rtol, ctx)
    ctx.step(len(F))
    got = converted(kind, m)
    require(set(got) == set(conv), "converted parameters")
    for k, v in conv.items():
        require(near(got[k], v, 30 * rtol, 0), "converted parameter differs with the number type", parameter=k, got=got[k], expected=v)
    for n, v in p.items():
        r = getattr(m, n)
        require(type(r.magnitude) is type(v.magnitude) and r.magnitude == v.magnitude and r.units == v.units, "reading", parameter=n, got=repr(r))
    ctx.state(kind, i, tuple(sorted(types.items())))
    ctx.trace()
    if not deep:
        return
    # assigned one by one to a model in use
    m = CLASS[kind]()
    results(kind, m)
    for n, v in p.items():
        setattr(m, n, v)
    compare("stepwise run differs with the number type", results(kind, m, "step"), base, rtol, ctx)
    # assigned between steps
    m = CLASS[kind](**quantities(kind, i, {}))
    m.set_drivers(ur.Quantity(np.array(F), "W/m^2"))
    m.reset()
    for k in range(len(F)):
        for n, v in (p if k % 2 else quantities(kind, i, {})).items():
            setattr(m, n, v)
        m.step()
    compare("types changed between steps change the run", observe(kind, m), base, rtol, ctx)
    m = CLASS[kind](**p)
    names, index, values = table(m.run_scenarios(scenario(), progress=False))
    require(names == out[0], "metadata columns", got=names, expected=out[0])
    require(index == out[1], "metadata", got=[repr(x) for x in index][:2], expected=[repr(x) for x in out[1]][:2])
    compare("scenario run differs with the number type", values, out[2], rtol, ctx)
    ctx.step(4 * len(F))
    ctx.trace(3)


def layout(a, how):
    if how == "strided":
        big = np.zeros((len(a), 3), dtype=a.dtype)
        big[:, 1] = a
        return big[:, 1]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype="u1")
        out = raw[1:].view(a.dtype)
        out[:] = a
        return out
    return a


def run(case, ctx):
    group = case["group"]
    if group == "alone":
        kind, i, t = case["kind"], case["set"], case["type"]
        for n in SETS[kind][i]:
            verify(kind, i, {n: t}, ctx, True)
        verify(kind, i, {n: t for n in SETS[kind][i]}, ctx, True)
        for n in SETS[kind][i]:
            verify(kind, i, {k: t for k in SETS[kind][i] if k != n}, ctx, False)
        ctx.sample({"kind": kind, "type": t})
    elif group == "pairs":
        kind, i = case["kind"], case["set"]
        for a, b in itertools.combinations(SETS[kind][i], 2):
            for s, t in itertools.product(case["types"], repeat=2):
                verify(kind, i, {a: s, b: t}, ctx, False)
        ctx.sample({"kind": kind, "set": i, "types": case["types"]})
    elif group == "forcing":
        forcings(case, ctx)
    elif group == "scenarios":
        scenarios(case["kind"], ctx)
    else:
        ecs(ctx)


def forcings(case, ctx):
    kind, unit = case["kind"], case["unit"]
    for values in ([4, 0, 4, 9, 300, 0, 2], [0], [7, 7], [70000, 1, 3000000000]):
        for t in ARRAY_TYPES:
            vals = [int(bool(v)) for v in values] if t == "bool" else values
            if "4" in t and t != "float64" and t != "int64" and t != "uint64" and max(vals) > 2 ** 31 or t == "int32" and max(vals) > 2 ** 31:
                continue
            for how in LAYOUTS if t != "list" else ("list", "tuple"):
                ctx.at({"kind": kind, "unit": unit, "values": vals, "type": t, "layout": how})
                if t == "list":
                    given = list(vals) if how == "list" else tuple(vals)
                else:
                    given = layout(np.array(vals).astype(t), how)
                for i in (0, 1):
                    m = CLASS[kind](**quantities(kind, i, {}))
                    m.set_drivers(ur.Quantity(given, unit))
                    m.reset()
                    m.run()
                    w = CLASS[kind](**quantities(kind, i, {}))
                    w.set_drivers(ur.Quantity(np.array(vals, dtype=float), unit))
                    w.reset()
                    w.run()
                    compare("run differs with the type of the drivers", observe(kind, m), observe(kind, w), 1e-5 if t == "float32" else 1e-11, ctx)
                    m.set_drivers(ur.Quantity(given, unit))
                    m.reset()
                    for _ in vals:
                        m.step()
                    compare("stepwise run differs with the type of the drivers", observe(kind, m), observe(kind, w), 1e-5 if t == "float32" else 1e-11, ctx)
                    if t != "list":
                        require(np.array_equal(np.array(given, dtype=float), np.array(vals, dtype=float)), "drivers changed")
                    ctx.step(2 * len(vals))
                    ctx.trace(2)
                ctx.state(kind, unit, tuple(values), t, how)
    ctx.sample({"kind": kind, "unit": unit, "types": ARRAY_TYPES, "layouts": LAYOUTS})


def scenarios(kind, ctx):
    from scmdata.run import ScmRun

    values = [4, 4, 1, 0, 7, 7, 2, 1]
    axis = years(2001, len(values))
    expected = table(CLASS[kind]().run_scenarios(run_of([row(values), row(values[::-1], "t")], axis), progress=False))
    cols = {k: [row(values)[k], row(values, "t")[k]] for k in row(values) if k != "values"}
    for t in ("int32", "int64", "uint32", "uint64", "float32", "float64", "object", "list"):
        data = np.array([values, values[::-1]]).T
        data = data.tolist() if t == "list" else data.astype(t)
        for container in ("ScmRun", "DataFrame"):
            if t == "list" and container == "DataFrame":
                continue
            ctx.at({"kind": kind, "type": t, "container": container})
            if container == "ScmRun":
                given = ScmRun(data=np.array(data) if t == "list" else data, index=axis, columns=cols)
            else:
                given = ScmRun(data=data.astype(float), index=axis, columns=cols).timeseries().astype(t)
            got = table(CLASS[kind]().run_scenarios(given, progress=False))
            require(got[:2] == expected[:2], "metadata", got=repr(got[:2])[:300])
            compare("scenario run differs with the number type of its values", got[2], expected[2], 1e-11, ctx)
            ctx.state(kind, t, container)
            ctx.step(len(values) * 2)
            ctx.trace()
    # number types in the metadata
    for t in TYPES:
        if t.startswith("0d"):
            continue
        rows = [row(values, member=TYPES[t](1)), row(values[::-1], member=TYPES[t](2))]
        ctx.at({"kind": kind, "metadata of type": t})
        res = _scen.rows_of(CLASS[kind]().run_scenarios(run_of(rows, axis), progress=False))
        for r in rows:
            hits = _scen.find(res, {"member": r["member"], "variable": "Heat Uptake"})
            require(len(hits) == 1, "series of a member", found=len(hits), member=repr(r["member"]))
        ctx.evaluate(2)
    ctx.sample({"kind": kind, "scenarios": "of all types"})


def ecs(ctx):
    for s, t in itertools.product(list(TYPES) + ["array"], repeat=2):
        for lam, lu in ((2, "W/m^2/delta_degC"), (1250, "mW/m^2/K"), (1, "kW/m^2/delta_degC"), (-1, "W/m^2/delta_degC")):
            for f, fu in ((4, "W/m^2"), (3740, "mW/m^2"), (0, "W/m^2"), (-3, "W/m^2")):
                for kinds in (("int64",) if "array" not in (s, t) else ("int32", "int64", "uint32", "uint64", "float32", "float64", "longdouble")):
                    args = []
                    for v, x in ((lam, s), (f, t)):
                        if x == "array":
                            args.append(None if v < 0 and kinds.startswith("u") else np.array([v, v, 2 * v], dtype=kinds))
                        elif v < 0 and x.startswith("uint"):
                            args.append(None)
                        else:
                            args.append(give(v, x))
                    if any(x is None for x in args):
                        continue
                    ctx.at({"lambda": repr(args[0]) + " " + lu, "forcing": repr(args[1]) + " " + fu})
                    got = convert_lambda_to_ecs(ur.Quantity(args[0], lu), ur.Quantity(args[1], fu)).to("delta_degC").magnitude
                    w = -(np.asarray(args[1], float) * {"W": 1.0, "m": 1e-3}[fu[0]]) / (np.asarray(args[0], float) * {"W": 1.0, "m": 1e-3, "k": 1e3}[lu[0]])
                    single = "float32" in (s, t) or kinds == "float32" and "array" in (s, t)
                    require(near(np.asarray(got, float), w, 1e-5 if single else 1e-12, 0), "sensitivity differs with the number type",
                            got=repr(got), expected=repr(w))
                    ctx.evaluate()
                    ctx.step()
                    if f == 3740:
                        back = convert_lambda_to_ecs(ur.Quantity(args[0], lu)).to("delta_degC").magnitude
                        w = -3.74 / (np.asarray(args[0], float) * {"W": 1.0, "m": 1e-3, "k": 1e3}[lu[0]])
                        require(near(np.asarray(back, float), w, 1e-5 if single else 1e-12, 0), "sensitivity with default forcing", got=repr(back))
                ctx.state(s, t, lam, lu, f, fu)
    ctx.trace(len(TYPES) ** 2)
    ctx.sample({"sensitivities": "in all pairs of types"})
