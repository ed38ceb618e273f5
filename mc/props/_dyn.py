"""
Shared exploration of complete runs against the reference transition systems
"""
import numpy as np

from .. import ref, spaces
from ..world import (
    DEFAULTS, VIAS, VARS, build, by_series, check_steps, chunked, drive, months, near, observe,
    require, row, run_of, years,
)

T_UNITS = ref.UNITS["time"]


def specs(kind, tier):
    """Parameter space of the kind, simplest first"""
    star = list(spaces.star_specs(kind, DEFAULTS[kind], T_UNITS))
    prod = [
        s
        for s in spaces.product_specs(kind, DEFAULTS[kind])
        if kind == "tl" or spaces.valid_ir(s, T_UNITS)
    ]
    return star, prod


def degenerate(kind, spec):
    """No equivalent two-layer model exists, which efficacy other than one needs"""
    if kind != "ir":
        return False
    model = ref.IR(spec)
    if model.eff == 1.0:
        return False
    return min(model.q) <= 0


def cases(kind, tier, prod_stride):
    """Case list shared by the dynamics checks"""
    star, prod = specs(kind, tier)
    # breadth first: a coarse pass over the product early
    out = [{"group": "words", "kind": kind, "base": b, "first": f}
           for b in range(3) for f in range(len(spaces.F_ALPHA))]
    out += [{"group": "dtypes", "kind": kind, "base": b} for b in range(3)]
    for c in chunked(range(len(star)), 12):
        out.append({"group": "star", "kind": kind, "idx": c})
    for n in (40, 265, 751, 1200, 3000, 20000 if kind == "tl" else 33000, 70000):
        for b in range(3):
            if n > 1200 and tier != "thorough" and (kind == "ir" and (b or n > 33000) or n > 3000 and b > 1):
                continue
            out.append({"group": "long", "kind": kind, "base": b, "n": n})
    n_grid = len(grid_specs(kind))
    for i in range(n_grid):
        for part in range(3):
            out.append({"group": "grid", "kind": kind, "spec": i, "part": part})
    out += [{"group": "scenarios", "kind": kind, "base": b, "axis": a}
            for b in range(3) for a in ("yearly", "monthly")]
    for c in chunked(range(0, len(prod), prod_stride), 48):
        out.append({"group": "prod", "kind": kind, "idx": c})
    return out


def base_points(kind):
    """Three base parameter sets (state dependence, efficacy, plain)"""
    other = dict(spaces.OTHER[kind])
    third = dict(DEFAULTS[kind])
    third["efficacy"] = [0.83, "dimensionless"]
    third["delta_t"] = [1.0, "yr"] if kind == "ir" else [1.0, "month"]
    return [DEFAULTS[kind], other, third]


_CACHE = {}


def _specs(kind, tier):
    if (kind, tier) not in _CACHE:
        _CACHE[(kind, tier)] = specs(kind, tier)
    return _CACHE[(kind, tier)]


def one(kind, spec, F, via, how, ctx, what, rtol=1e-11):
    """One run, conformance checked"""
    ctx.at({"kind": kind, "spec": spec, "F": [float(f) for f in F][:60], "via": via, "how": how,
            "dtype": str(getattr(F, "dtype", "list"))})
    if degenerate(kind, spec):
        return
    m = build(kind, spec, via)
    drive(m, F, how)
    check_steps(kind, spec, m, F, ctx, what=what, rtol=rtol)
    ctx.trace()
    ctx.evaluate(len(F))
    obs = observe(kind, m)
    ctx.outcome(*(o.tobytes() for o in obs))


def run(case, ctx, what, ir_eff_short=True):
    """Explore a case"""
    kind, group = case["kind"], case["group"]
    how_all = ("run", "step")
    if group == "words":
        spec = base_points(kind)[case["base"]]
        first = spaces.F_ALPHA[case["first"]]
        depth = 4 if ctx.tier == "thorough" else 3
        stack = [(first,)]
        while stack:
            w = stack.pop()
            if len(w) <= depth:
                for x in spaces.F_ALPHA:
                    stack.append(w + (x,))
            one(kind, spec, list(w), "ctor", how_all[len(w) % 2], ctx, what)
        ctx.sample({"params": spec, "forcing_words_starting_with": first, "depth": depth + 1})
    elif group == "dtypes":
        spec = base_points(kind)[case["base"]]
        for name, arr in spaces.dtypes():
            for via in VIAS:
                for how in how_all:
                    one(kind, spec, arr, via, how, ctx, what,
                        rtol=2e-6 if name == "float32" else 1e-11)
        # numbers of other types as parameter values
        for conv in (int, np.float64, np.int64):
            sp = {k: [conv(round(v[0]) or 2), v[1]] for k, v in spec.items()}
            if kind == "ir":
                sp["d2"] = [conv(900), "yr"]
            m_spec = {k: [float(v[0]), v[1]] for k, v in sp.items()}
            for via in VIAS:
                m = build(kind, sp, via)
                drive(m, spaces.F_MIX)
                ctx.at({"spec": m_spec, "type": str(conv), "via": via})
                check_steps(kind, m_spec, m, spaces.F_MIX, ctx, what=what)
                ctx.trace()
        ctx.sample({"params": spec, "forcing_as": [n for n, _ in spaces.dtypes()]})
    elif group == "star":
        for i in case["idx"]:
            spec = _specs(kind, ctx.tier)[0][i]
            for via in VIAS:
                for how in how_all:
                    one(kind, spec, spaces.F_MIX, via, how, ctx, what)
        ctx.sample({"params": spec, "forcing": spaces.F_MIX, "built": VIAS})
    elif group == "prod":
        for i in case["idx"]:
            spec = _specs(kind, ctx.tier)[1][i]
            vias = VIAS if ctx.tier == "thorough" else (VIAS[i % len(VIAS)],)
            for via in vias:
                one(kind, spec, spaces.F_MIX[: 7 if kind == "ir" else 13], via,
                    how_all[i % 2], ctx, what)
        ctx.sample({"params": spec, "forcing": spaces.F_MIX})
    elif group == "long":
        spec = base_points(kind)[case["base"]]
        n = case["n"]
        if kind == "ir" and spec["efficacy"][0] != 1 and n > 800 and ctx.tier != "thorough":
            n = 800
        one(kind, spec, spaces.long_forcing(n), "ctor", "run", ctx, what)
        ctx.sample({"params": spec, "steps": n})
    elif group == "grid":
        grid(kind, case, ctx, what)
    elif group == "scenarios":
        scenarios(kind, case, ctx, what)


# temperatures and forcings of the state grid
GRID_T = [0.0] + [x * s for x in (1e-9, 1e-5, 0.02, 0.7, 3.0, 9.0, 16.0, 28.0, 60.0, 150.0) for s in (1, -1)]
GRID_F = [0.0] + [x * s for x in (1e-9, 1e-4, 0.05, 1.0, 6.0, 25.0, 75.0, 300.0, 2e3, 1e5) for s in (1, -1)]


def grid_specs(kind):
    """Parameter sets whose whole state space is gone through"""
    out = [dict(s) for s in base_points(kind)]
    if kind == "tl":
        more = [
            {"a": 0.3}, {"a": -0.08, "efficacy": 0.7}, {"efficacy": 1.005}, {"du": 250.0, "dl": 120.0, "eta": 1.7}, {"lambda0": -0.2, "a": 0.01},
            {"delta_t": [1.0, "day"], "a": 0.05}, {"eta": 0.0, "a": 0.05, "efficacy": 2.0}, {"delta_t": [5.0, "yr"], "efficacy": 1.28},
        ]
    else:
        more = [{"q1": 4.0, "q2": 0.02}, {"d1": [3.0, "yr"], "d2": [3.01, "yr"], "efficacy": 0.7}, {"delta_t": [30.0, "yr"], "q2": 7.0}]
    for m in more:
        s = {k: list(v) for k, v in DEFAULTS[kind].items()}
        for k, v in m.items():
            s[k] = v if isinstance(v, list) else [v, s[k][1]]
        out.append(s)
    return out


def steer(kind, spec, x, y):
    """The two forcing values which take a new model to temperatures (x, y)"""
    if kind == "tl":
        m = ref.TL(spec)
        k = m.dt * m.eta / m.CD
        if k == 0:
            via = 0.0
            if y:
                return None
        else:
            via = y / k
        first = via * m.C / m.dt
        lam = m.lam - m.a * via
        return [first, m.C / m.dt * (x - via) + lam * via + m.eff * m.eta * via]
    m = ref.IR(spec)
    e = [np.exp(-m.dt / d) for d in m.d]
    r = [q * -np.expm1(-m.dt / d) for q, d in zip(m.q, m.d)]
    det = r[0] * r[1] * (e[0] - e[1])
    if det == 0:
        return None
    f0 = (x * r[1] - y * r[0]) / det
    return [f0, (x - e[0] * r[0] * f0) / r[0]]


def grid(kind, case, ctx, what):
    """One transition from every state of the grid under every forcing"""
    spec = grid_specs(kind)[case["spec"]]
    m = build(kind, spec, VIAS[case["spec"] % len(VIAS)])
    coarse = kind == "ir" and ctx.tier != "thorough"
    ts = GRID_T[::2] + [-150.0] if coarse else GRID_T
    fs = GRID_F[1::2] + GRID_F[:1] + GRID_F[-3::2] if coarse else GRID_F
    for i, x in enumerate(ts):
        if i % 3 != case["part"]:
            continue
        for j, y in enumerate(ts):
            way = steer(kind, spec, x, y)
            if way is None or not np.isfinite(way).all() or max(abs(w) for w in way) > 1e120:
                continue
            # alternately one at a time and several in a row
            F = [way + [f, 0.0] for f in fs[j % 2 :: 2]] + [way + fs[(j + 1) % 2 :: 2] + [0.0]]
            for series in F:
                ctx.at({"kind": kind, "spec": spec, "state": [x, y], "forcing": series})
                drive(m, series)
                check_steps(kind, spec, m, series, ctx, what=what)
                ctx.trace()
                ctx.evaluate()
            ctx.state(kind, case["spec"], x, y)
    ctx.sample({"params": spec, "states": "grid of {} x {}".format(len(ts), len(ts)), "forcings": len(fs)})


def scenarios(kind, case, ctx, what):
    """The same dynamics seen through run_scenarios"""
    spec = dict(base_points(kind)[case["base"]])
    axis = years(1850, 13) if case["axis"] == "yearly" else months(1999, 13, 11)
    spec["delta_t"] = [1.0, "yr"] if case["axis"] == "yearly" else [1.0, "month"]
    forc = {
        "a": spaces.F_MIX,
        "b": [4.0] * 13,
        "c": spaces.long_forcing(13),
        "d": [0.0] * 12 + [3.0],
        "e": [1e-9] * 6 + [-1e-9] * 7,
        "f": [-60.0] * 9 + [60.0] * 4,
        "g": [2e3, -3e3, 0.0, 10.0, -1e-5, 500.0, 0.0, 0.0, 0.0, -700.0, 1e-12, 1e-12, 0.0],
        "h": [200.0] * 13,
    }
    m = build(kind, base_points(kind)[case["base"]])
    out = m.run_scenarios(run_of([row(v, k) for k, v in forc.items()], axis), progress=False)
    got = by_series(out)
    for s, F in forc.items():
        names = list(VARS[kind])
        x, y = got[(s, names[0])], got[(s, names[1])]
        n = got[(s, "Heat Uptake")]
        ctx.at({"kind": kind, "spec": spec, "scenario": s, "axis": case["axis"]})
        check_steps(kind, spec, None, F, ctx, what=what, obs=(x, y, n))
        if kind == "ir" and "temp" in what:
            require(
                near(got[(s, "Surface Temperature")], x + y, 1e-13, 1e-300),
                "surface temperature is not the sum of the boxes",
                scenario=s, spec=spec,
            )
        ctx.trace()
    ctx.sample({"params": spec, "scenarios": list(forc), "axis": case["axis"]})
