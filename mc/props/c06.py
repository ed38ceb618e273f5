"""C06: equilibria and limits"""
import itertools
import math

import numpy as np

from .. import ref, spaces
from ..world import (
    DEFAULTS, VARS, build, by_series, chunked, drive, forcing, observe, require, row, run_of, years,
)
from . import _dyn

RULE = (
    "for every parameter combination of the alphabets and forcing of either sign the real run is "
    "carried to its fixed point (15+ slow time constants at a stable timestep) and the fixed point "
    "reached is compared with the solution of the balance equations; zero forcing, eta = 0 and deep "
    "lower layer explored separately over the same alphabets"
)
BOUNDS = {
    "quick": "4x3x3x5x3x3 two-layer and 3x3x3x3x4 impulse response parameter sets x 4 forcings; wide single-parameter sweeps x 7 forcings (1e-8 to 2e4)",
    "thorough": "wider alphabets, two timesteps each",
}
CONFORMANCE = "the real model is run into the fixed point of the reference system for every combination"
ASSUMPTIONS = [
    "timestep below 0.7 of the fastest time constant (forward differencing is only stable there)",
    "start inside the basin of attraction: discriminant of the balance equation at least 10 % of lambda0^2",
]

TLA = {
    "du": [50, 7.5, 250.0],
    "dl": [1200, 120.0, 40.0],
    "lambda0": [3.74 / 3, 0.4, 3.0],
    "a": [0.0, 0.03, -0.08, 0.2, 1e-4],
    "efficacy": [1.0, 1.28, 0.7],
    "eta": [0.8, 0.2, 1.7],
}
FORCINGS = [3.74, -2.5, 0.01, 12.0]


def tl_specs(tier):
    for c in itertools.product(*TLA.values()):
        s = {k: [v, DEFAULTS["tl"][k][1]] for k, v in zip(TLA, c)}
        yield s


def ir_specs(tier):
    for s in spaces.product_specs("ir", DEFAULTS["ir"], drop=("delta_t",)):
        if spaces.valid_ir(s, _dyn.T_UNITS):
            yield s


_CACHE = {}


def space(kind, tier):
    if (kind, tier) not in _CACHE:
        _CACHE[(kind, tier)] = list({"tl": tl_specs, "ir": ir_specs}[kind](tier))
    return _CACHE[(kind, tier)]


def cases(tier):
    out = [{"group": "zero", "kind": k, "idx": i} for k in ("tl", "ir")
           for i in chunked(range(len(_dyn.specs(k, tier)[0])), 30)]
    out += [{"group": "onelayer", "idx": i} for i in range(3)]
    out += [{"group": "deep", "idx": i} for i in range(3)]
    out += [{"group": "scenario", "kind": k} for k in ("tl", "ir")]
    for k in ("ir", "tl"):
        for c in chunked(range(len(sweep(k))), 6):
            out.append({"group": "sweep", "kind": k, "idx": c})
    n = {"tl": 1, "ir": 1}
    for k in ("ir", "tl"):
        for c in chunked(range(0, len(space(k, tier)), n[k]), 9):
            out.append({"group": "settle", "kind": k, "idx": c})
    return out


def sweep(kind):
    """Wide single-parameter deviations with a physical equilibrium"""
    out = []
    for s in spaces.star_specs(kind, DEFAULTS[kind], _dyn.T_UNITS):
        s = dict(s)
        s["delta_t"] = DEFAULTS[kind]["delta_t"]
        names = ("lambda0", "eta", "efficacy") if kind == "tl" else ("q1", "q2", "efficacy")
        if min(s[n][0] for n in names) > 0 and s not in out:
            out.append(s)
    for n, v in {"tl": [("lambda0", 30.0), ("eta", 60.0), ("a", -5.0)], "ir": [("q1", 60.0), ("q2", 300.0)]}[kind]:
        out.append(dict(DEFAULTS[kind], **{n: [v, DEFAULTS[kind][n][1]]}))
    return out


WIDE = [3.74, -2.5, 1e-8, 100.0, -900.0, 2e4, -1e-3]


def root(spec, F):
    """Stable equilibrium temperature, or None"""
    lam, a = spec["lambda0"][0], spec["a"][0]
    if a == 0:
        return F / lam
    disc = lam * lam - 4 * a * F
    if disc < 0.1 * lam * lam:
        return None
    r = math.sqrt(disc)
    return 2 * F / (lam + r)


def settle_tl(spec, F, ctx, frac, cap=6000):
    T = root(spec, F)
    if T is None:
        return
    p = {k: ref.base(k, v) for k, v in spec.items()}
    # linearised at the start and at the equilibrium
    slow = fast = None
    for lam in (p["lambda0"], p["lambda0"] - 2 * p["a"] * T):
        i = ref.to_impulse_response(dict(p, lambda0=lam))
        slow = max(slow or 0, i["d2"])
        fast = min(fast or 1e99, i["d1"])
    dt = frac * fast
    n = int(14 * slow / dt) + 2
    if n > cap:
        n = cap
        left = math.exp(-n * dt / slow)
        if left > 1e-4:
            return
    else:
        left = math.exp(-14)
    s = dict(spec, delta_t=[dt, "s"])
    ctx.at({"spec": s, "F": F, "steps": n})
    m = build("tl", s)
    drive(m, [F] * n)
    ctx.step(n)
    x, y, r = (o[-1] for o in observe("tl", m))
    tol = 20 * left + 1e-9
    require(abs(x - T) <= tol * abs(T), "upper layer does not settle at equilibrium", spec=s, F=F, got=x, expected=T)
    require(abs(y - T) <= tol * abs(T), "lower layer does not settle at equilibrium", spec=s, F=F, got=y, expected=T)
    C = max(p["du"], p["dl"]) * ref.RHO_CP
    require(abs(r) <= tol * abs(F) + 64 * ref.EPS * C / dt * abs(T), "heat uptake does not vanish", spec=s, F=F, got=r)
    ctx.state("tl", str(s), F)
    ctx.outcome("tl", float(x), float(y))
    ctx.trace()
    ctx.evaluate(3)


def settle_ir(spec, F, ctx, frac):
    p = {k: ref.base(k, v) for k, v in spec.items()}
    dt = frac * p["d2"]
    n = int(32 / frac) + 2
    s = dict(spec, delta_t=[dt, "s"])
    ctx.at({"spec": s, "F": F, "steps": n})
    m = build("ir", s)
    drive(m, [F] * n)
    ctx.step(n)
    x, y, r = (o[-1] for o in observe("ir", m))
    require(abs(x - p["q1"] * F) <= 1e-9 * abs(p["q1"] * F), "box 1 does not settle at q1 F", spec=s, F=F, got=x)
    require(abs(y - p["q2"] * F) <= 1e-9 * abs(p["q2"] * F), "box 2 does not settle at q2 F", spec=s, F=F, got=y)
    require(abs(r) <= 1e-8 * abs(F) * max(1.0, p["efficacy"] * 10, 1e-3 * p["d2"] / p["d1"]), "heat uptake does not vanish", spec=s, F=F, got=r)
    ctx.state("ir", str(s), F)
    ctx.outcome("ir", float(x), float(y))
    ctx.trace()
    ctx.evaluate(3)


def run(case, ctx):
    g = case["group"]
    if g == "zero":
        kind = case["kind"]
        for i in case["idx"]:
            spec = _dyn._specs(kind, ctx.tier)[0][i]
            if _dyn.degenerate(kind, spec):
                continue
            for F in ([0.0] * 7, np.zeros(3, dtype=int), [-0.0, 0.0, -0.0], [0.0]):
                ctx.at({"kind": kind, "spec": spec, "F": [float(f) for f in F]})
                m = build(kind, spec)
                for o in observe(kind, drive(m, F)):
                    require(len(o) == len(F) and not np.any(o != 0), "zero forcing gives a response", spec=spec, got=o.tolist())
                ctx.step(len(F))
                ctx.trace()
            ctx.state(kind, str(spec))
        ctx.sample({"zero forcing": spec})
    elif g == "onelayer":
        for du, lam, eff, dl, dt in itertools.product(
            [50.0, 5.0, 400.0], [3.74 / 3, 0.4, 3.0], [1.0, 1.4, 0.6], [1200.0, 1e-3, 1e15], [[1, "yr"], [1, "month"]]
        ):
            if du != [50.0, 5.0, 400.0][case["idx"]]:
                continue
            for F in FORCINGS:
                s = dict(DEFAULTS["tl"], du=[du, "m"], lambda0=[lam, "W/m^2/K"], eta=[0.0, "W/m^2/K"],
                         efficacy=[eff, "dimensionless"], dl=[dl, "m"], delta_t=dt)
                ctx.at({"spec": s, "F": F})
                m = build("tl", s)
                n = 60
                x, y, r = observe("tl", drive(m, [F] * n))
                require(not np.any(y), "lower layer responds although eta is zero", spec=s, F=F, got=y.tolist()[:5])
                k = 1 - lam * ref.base("delta_t", dt) / (du * ref.RHO_CP)
                for j in range(n):
                    ctx.step()
                    want = F / lam * (1 - k ** j)
                    if abs(want) > 1e200:
                        break
                    require(abs(x[j] - want) <= 1e-9 * max(abs(F / lam), abs(want)), "not the one-layer response", spec=s, F=F, step=j, got=x[j], expected=want)
                ctx.state("onelayer", du, lam, eff, dl, str(dt), F)
                ctx.trace()
                ctx.outcome(x.tobytes())
        ctx.sample({"eta": 0, "du": du, "steps": n})
    elif g == "deep":
        for du, lam, eff, eta, dl in itertools.product(
            [50.0, 12.0, 400.0], [3.74 / 3, 0.4, 3.0], [1.0, 1.4, 0.6], [0.8, 0.2, 1.7], [1e15, 1e18]
        ):
            if du != [50.0, 12.0, 400.0][case["idx"]]:
                continue
            for F in FORCINGS[:3]:
                p = lam + eff * eta
                C = du * ref.RHO_CP
                dt = 0.25 * C / p
                s = dict(DEFAULTS["tl"], du=[du, "m"], lambda0=[lam, "W/m^2/K"], eta=[eta, "W/m^2/K"],
                         efficacy=[eff, "dimensionless"], dl=[dl, "m"], delta_t=[dt, "s"])
                n = 130
                ctx.at({"spec": s, "F": F})
                m = build("tl", s)
                x, y, _ = observe("tl", drive(m, [F] * n))
                ctx.step(n)
                require(abs(y[-1]) <= 1e-8 * abs(F / p), "lower layer warms although it is enormous", spec=s, F=F, got=y[-1])
                require(abs(x[-1] - F / p) <= 1e-8 * abs(F / p), "upper layer does not settle at F/(lambda0+efficacy*eta)", spec=s, F=F, got=x[-1], expected=F / p)
                ctx.state("deep", str(s), F)
                ctx.trace()
                ctx.outcome(float(x[-1]))
        ctx.sample({"dl": dl, "steps": n})
    elif g == "sweep":
        kind = case["kind"]
        for i in case["idx"]:
            spec = sweep(kind)[i]
            for F in WIDE:
                if kind == "tl":
                    settle_tl(spec, F, ctx, 0.7, 40000)
                else:
                    settle_ir(spec, F, ctx, 4.0)
        ctx.sample({"settled": spec, "forcings": WIDE})
    elif g == "settle":
        kind = case["kind"]
        for i in case["idx"]:
            spec = space(kind, ctx.tier)[i]
            for j, F in enumerate(FORCINGS):
                if kind == "tl":
                    for frac in (0.7, 0.2) if ctx.tier == "thorough" else (0.7,):
                        settle_tl(spec, F, ctx, frac)
                else:
                    for frac in (4.0, 0.5) if ctx.tier == "thorough" else (4.0,):
                        settle_ir(spec, F, ctx, frac)
        ctx.sample({"settled": spec, "forcings": FORCINGS})
    else:
        kind = case["kind"]
        n = 5000
        rows = [row([F] * n, "F{}".format(F)) for F in FORCINGS[:2]] if kind == "tl" else [row([3.74] * n, "F3.74")]
        if kind == "ir":
            rows[0]["values"] = rows[0]["values"][:1500]
            n = 1500
        spec = dict(DEFAULTS[kind])
        if kind == "ir":
            spec["d2"] = [60.0, "yr"]
        m = build(kind, spec)
        got = by_series(m.run_scenarios(run_of(rows, years(1850, n)), progress=False))
        for r in rows:
            F = r["values"][0]
            for v in VARS[kind]:
                last = got[(r["scenario"], v)][-1]
                want = {"Heat Uptake": 0.0, "Surface Temperature|Box 1": 0.3 * F, "Surface Temperature|Box 2": 0.4 * F,
                        "Surface Temperature": 0.7 * F}.get(v, F / (3.74 / 3))
                ctx.at({"variable": v, "F": F})
                require(abs(last - want) <= 1e-6 * abs(F), "run_scenarios does not settle at equilibrium", variable=v, F=F, got=last, expected=want)
                ctx.evaluate()
            ctx.trace()
            ctx.step(n)
        ctx.sample({"run_scenarios": kind, "years": n})
