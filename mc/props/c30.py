"""C30: results follow the scaling laws of the equations"""
import numpy as np

from .. import ref, spaces
from ..world import DEFAULTS, VARS, build, by_series, chunked, drive, observe, require, row, run_of, years, months
from . import _dyn

RULE = (
    "every scaling law (time, energy, temperature, all pairs of them) x 8 factors x every parameter set of the single-parameter sweeps and the product "
    "x forcing series of both signs: the scaled system's run is the scaled run, element by element; the same for the conversions and "
    "run_scenarios"
)
BOUNDS = {
    "quick": "6 laws x 8 factors at the sweeps (2 base points), 4 factors from 2^-100 to 2^100 at 3 base points and all conversions; every law with rotating factors at 1 in 2 (two-layer) and 1 in 8 (impulse response) product points",
    "thorough": "all factors at every point, longer series",
}
CONFORMANCE = "self-composition: related real executions are enumerated and compared"
ASSUMPTIONS = ["agreement to 1e-9 of the largest value so far (storage form of the heat uptake: of the stored heat)", "no overflow"]

# powers of two: exact, so the scaled results are the results, far away from any size met in practice
FAR = [2.0 ** e for e in (40, -40, 100, -100)]
FACTORS = [2.0, 0.5, 1024.0, 1e-3, 7.3, 1e4, 1 / 3, 1.000001]
# law -> {parameter: exponent}, exponents of (forcing, temperature, heat uptake)
LAWS = {
    "tl": {
        "time": ({"du": 1, "dl": 1, "delta_t": 1}, (0, 0, 0)),
        "energy": ({"lambda0": 1, "a": 1, "eta": 1, "du": 1, "dl": 1}, (1, 0, 1)),
        "temperature": ({"a": -1}, (1, 1, 1)),
    },
    "ir": {
        "time": ({"d1": 1, "d2": 1, "delta_t": 1}, (0, 0, 0)),
        "energy": ({"q1": -1, "q2": -1}, (1, 0, 1)),
        "temperature": ({}, (1, 1, 1)),
    },
}
PAIRS = [("time",), ("energy",), ("temperature",), ("time", "energy"), ("time", "temperature"), ("energy", "temperature")]
F = [3.74, 3.74, -2.5, 0.0, 1e-3, 8.0, -1.0, 0.5]
G = [0.0, -1.0, 4.0, 4.0, 4.0, 4.0]


def combine(kind, laws, k):
    """Exponents of all parameters and results under a pair of laws (k and k^2 for the second)"""
    params, res = {}, [1.0, 1.0, 1.0]
    for n, law in enumerate(laws):
        f = k if n == 0 else 1.0 / (k * k)
        p, r = LAWS[kind][law]
        for name, e in p.items():
            params[name] = params.get(name, 1.0) * f ** e
        for i, e in enumerate(r):
            res[i] *= f ** e
    return params, res


def scaled(spec, params):
    out = {n: list(v) for n, v in spec.items()}
    for n, f in params.items():
        out[n][0] = out[n][0] * f
    return out


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        star, prod = _dyn.specs(kind, tier)
        for c in chunked(range(len(star)), 6):
            out.append({"group": "star", "kind": kind, "idx": c})
        for b in range(3):
            for law in range(len(PAIRS)):
                out.append({"group": "scenarios", "kind": kind, "base": b, "law": law})
            out.append({"group": "far", "kind": kind, "base": b})
        stride = 1 if tier == "thorough" else {"tl": 2, "ir": 8}[kind]
        for c in chunked(range(0, len(prod), stride), 32):
            out.append({"group": "prod", "kind": kind, "idx": c})
    return out


_SPECS = {}


def spec_at(kind, tier, group, i):
    if (kind, tier) not in _SPECS:
        _SPECS[(kind, tier)] = _dyn.specs(kind, tier)
    return _SPECS[(kind, tier)][0 if group == "star" else 1][i]


def tolerances(kind, spec, obs):
    x, y = (np.maximum.accumulate(np.abs(o)) for o in obs[:2])
    if kind == "tl":
        m = ref.TL(spec)
        tx = 1e-9 * x + 1e-9 * y * min(1.0, abs(m.eta * m.eff) * m.dt / m.C)
        ty = 1e-9 * y
        tn = 1e-9 * np.maximum.accumulate(np.abs(obs[2])) + 1e-9 * abs(m.lam) * x + 1e-12 * (m.C * x + m.CD * y) / m.dt * 1e-2
        return tx, ty, tn
    m = ref.IR(spec)
    n = np.arange(1, len(x) + 1)
    tx, ty = (1e-9 * o + 8 * ref.EPS * n * abs(q) * 60 for o, q in zip((x, y), m.q))
    cond = 1.0
    if m.eff != 1:
        g = m.two_layer()
        cond = max(1.0, 1e-6 * m.d[1] / m.d[0], 1e-6 * abs(g["phi2"]), 1e-6 / abs(g["phi2"]), abs((m.eff - 1) * g["eta"] / g["lambda0"]))
    tn = 1e-9 * np.maximum.accumulate(np.abs(obs[2])) + 1e-9 * (x + y) * cond / abs(sum(m.q))
    return tx, ty, tn


def result(kind, spec, forc, ctx):
    ctx.step(len(forc))
    return observe(kind, drive(build(kind, spec), forc))


def compare(kind, spec, want, got, res, ctx, **where):
    if not all(np.isfinite(o).all() for o in want) or max(np.abs(o).max() for o in want) > 1e120:
        return
    tol = tolerances(kind, spec, want)
    for j, f in enumerate((res[1], res[1], res[2])):
        ok = np.abs(got[j] / f - want[j]) <= tol[j] + 1e-250
        require(bool(ok.all()), "result does not follow the scaling law", output=j, spec=spec, got=lambda: (got[j] / f).tolist(),
                expected=lambda: want[j].tolist(), **where)
    ctx.evaluate(3)
    ctx.trace()


def one(kind, spec, forc, laws, k, base, ctx):
    params, res = combine(kind, laws, k)
    s = scaled(spec, params)
    ctx.at({"kind": kind, "spec": spec, "law": laws, "factor": k})
    got = result(kind, s, [f * res[0] for f in forc], ctx)
    ctx.state(kind, str(spec), laws, k)
    compare(kind, spec, base, got, res, ctx, law=laws, factor=k)


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "scenarios":
        scenarios(kind, case["base"], PAIRS[case["law"]], ctx)
        return
    if case["group"] == "far":
        spec = dict(_dyn.base_points(kind)[case["base"]])
        for forc in (F, G, [1e-3 * f for f in F * 4]):
            base = result(kind, spec, forc, ctx)
            for laws in PAIRS:
                for k in FAR:
                    one(kind, spec, forc, laws, k, base, ctx)
        ctx.sample({"kind": kind, "params": spec, "laws": PAIRS, "factors": FAR})
        return
    for i in case["idx"]:
        spec = spec_at(kind, ctx.tier, case["group"], i)
        if _dyn.degenerate(kind, spec):
            continue
        forcs = [F, G] if case["group"] == "star" or ctx.tier == "thorough" else [F]
        for n, forc in enumerate(forcs):
            base = result(kind, spec, forc, ctx)
            ctx.outcome(base[0].tobytes())
            for j, laws in enumerate(PAIRS):
                ks = FACTORS
                if ctx.tier != "thorough":
                    if case["group"] == "prod":
                        ks = [FACTORS[(i + j) % len(FACTORS)]]
                    elif kind == "ir" or n:
                        ks = FACTORS[(i + j) % 4 :: 4]
                for k in ks:
                    one(kind, spec, forc, laws, k, base, ctx)
        conversions(kind, spec, ctx)
    ctx.sample({"kind": kind, "params": spec, "laws": PAIRS, "factors": FACTORS})


def conversions(kind, spec, ctx):
    """Converted parameters scale like the parameters"""
    if kind == "tl":
        if spec["a"][0] or min(spec[n][0] for n in ("lambda0", "eta", "efficacy")) <= 0:
            return
        exp = {"time": {"d1": 1, "d2": 1, "q1": 0, "q2": 0}, "energy": {"d1": 0, "d2": 0, "q1": -1, "q2": -1}}
    else:
        if min(spec[n][0] for n in ("q1", "q2", "efficacy")) <= 0:
            return
        exp = {"time": {"du": 1, "dl": 1, "lambda0": 0, "eta": 0}, "energy": {"du": 1, "dl": 1, "lambda0": 1, "eta": 1}}

    def conv(s):
        m = build(kind, s)
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
        return {n: v.to_base_units().magnitude for n, v in p.items()}

    base = conv(spec)
    near_equal = 1.0
    if kind == "tl":
        r = ref.to_impulse_response(ref.TL(spec).p)
        spread = r["d2"] / r["d1"]
    else:
        d1, d2 = ref.IR(spec).d
        spread = max(1.0, d2 / d1)
        # heat capacities cancel as the timescales approach each other
        near_equal = (d2 / (d2 - d1)) ** 2
    rtol = 1e-9 + 1e-14 * (spread + near_equal)
    if not rtol < 1e-3:
        return
    for law, e in exp.items():
        for k in FACTORS[:5] + FAR:
            params, _ = combine(kind, (law,), k)
            params.pop("delta_t", None)
            ctx.at({"kind": kind, "spec": spec, "conversion": law, "factor": k})
            got = conv(scaled(spec, params))
            for n, x in e.items():
                require(abs(got[n] / k ** x - base[n]) <= rtol * abs(base[n]) * (1 if n in ("d2", "lambda0") else spread ** 0.5 if spread > 1e4 else 1),
                        "converted parameter does not follow the scaling law", parameter=n,
                        law=law, factor=k, spec=spec, got=got[n] / k ** x, expected=base[n])
            require(got["efficacy"] == base["efficacy"], "efficacy changed", spec=spec)
            ctx.evaluate()
            ctx.step()


def scenarios(kind, b, laws, ctx):
    """Laws which do not touch the timestep, through run_scenarios"""
    if "time" in laws:
        return
    spec = dict(_dyn.base_points(kind)[b])
    names = list(VARS[kind])
    for axis, step in ((years(2000, 6), [1.0, "yr"]), (months(2001, 6, 11), [1.0, "month"])):
        s = dict(spec, delta_t=step)
        words = [F[:6], G, [1e-6] * 6, [60.0, 0, 0, 0, 0, 0]]

        def outputs(sp, f):
            m = build(kind, sp)
            got = by_series(m.run_scenarios(run_of([row([f * x for x in w], "s{}".format(i)) for i, w in enumerate(words)], axis), progress=False))
            return [[got[("s{}".format(i), v)] for v in (names[0], names[1], "Heat Uptake")] for i in range(len(words))]

        base = outputs(s, 1.0)
        for k in FACTORS:
            params, res = combine(kind, laws, k)
            ctx.at({"kind": kind, "spec": s, "law": laws, "factor": k, "through": "run_scenarios"})
            for w, x in zip(base, outputs(scaled(s, params), res[0])):
                compare(kind, s, w, x, res, ctx, law=laws, factor=k)
                ctx.step(6)
            ctx.state(kind, b, laws, k, step)
    ctx.sample({"kind": kind, "scenarios": len(words), "law": laws})
