"""C29: more forcing never means less warming, and warming stays within its equilibrium"""
import itertools

import numpy as np

from .. import ref, spaces
from ..world import DEFAULTS, VARS, build, by_series, chunked, drive, observe, require, row, run_of, years, months
from . import _dyn

RULE = (
    "all forcing words over an alphabet x all pointwise ordered pairs of them x every stable parameter set of the product and "
    "single-parameter sweeps: responses keep the order; all words with non-negative forcing stay between zero and the equilibrium of "
    "their maximum; all constant and rising forcing levels warm monotonically, with the lower layer behind the upper one and no negative "
    "heat uptake; the same through run_scenarios"
)
BOUNDS = {
    "quick": "two-layer: words of length 4 over 3 levels (1296 ordered pairs) at all stable sets; impulse response: words of length 4 over 2 levels (81 ordered pairs) at 1 in 4 sets; larger levels in words of length 3; constant runs to 120 steps, and until equilibrium for 8 ratios of timestep to timescale (0.9 to 9e-4)",
    "thorough": "words of length 5, all sets, constant runs to 2000 steps",
}
CONFORMANCE = "self-composition: related real executions are enumerated and compared"
ASSUMPTIONS = [
    "timesteps at which the forward difference scheme is monotone: dt (lambda0 + efficacy eta) <= C_upper and dt eta <= C_lower; lambda0 > 0; eta, efficacy, q >= 0",
    "state dependence a >= 0, with non-negative forcing",
    "rounding: 1e-11 of the largest value",
]


def stable(kind, spec):
    if kind == "ir":
        m = ref.IR(spec)
        return min(m.q) > 0 and m.eff > 0
    m = ref.TL(spec)
    return (
        m.lam > 0 and m.eta >= 0 and m.eff >= 0 and m.a >= 0 and m.dt * (m.lam + m.eff * m.eta) <= m.C * (1 - 1e-9)
        and m.dt * m.eta <= m.CD * (1 - 1e-9)
    )


# timestep over the shortest timescale
LADDER = [0.9, 0.3, 0.1, 0.03, 0.012, 0.008, 0.003, 9e-4]
_SPECS = {}


def specs(kind, tier):
    if (kind, tier) not in _SPECS:
        star, prod = _dyn.specs(kind, tier)
        out = [s for s in star if stable(kind, s)]
        p = [s for s in prod if stable(kind, s)]
        if tier != "thorough":
            p = p[:: 4 if kind == "ir" else 2]
        _SPECS[(kind, tier)] = out + p
    return _SPECS[(kind, tier)]


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for i in range(len(LADDER)):
            out.append({"group": "ladder", "kind": kind, "step": i})
        for b in range(3):
            out.append({"group": "scenarios", "kind": kind, "base": b})
        for c in chunked(range(len(specs(kind, tier))), 24 if kind == "tl" else 8):
            out.append({"group": "specs", "kind": kind, "idx": c})
    return out


BIG = {"tl": ([-30.0, 0.0, 20.0, 70.0], [0.0, 8.0, 24.0, 70.0]), "ir": ([-30.0, 20.0, 70.0],)}


def alphabet(kind, spec, tier):
    if kind == "ir" and tier != "thorough":
        return [-2.5, 4.0] if spec["q1"][0] != 0.3 else [0.0, 4.0]
    if kind == "tl" and spec["a"][0] != 0:
        return [0.0, 1.0, 4.0]
    return [-2.5, 0.0, 4.0]


def tol_of(kind, spec, top):
    """Rounding of (first, second, uptake) when temperatures reach top"""
    t = 1e-11 * top + 1e-300
    if kind == "tl":
        m = ref.TL(spec)
        return t, t, 1e-11 * (m.lam + m.eff * m.eta + abs(m.a) * top) * top + 64 * ref.EPS * (m.C + m.CD) / m.dt * top + 1e-300
    lam = 1.0 / sum(ref.IR(spec).q)
    return t, t, 1e-10 * lam * top + 1e-300


def sane(obs):
    return all(np.isfinite(o).all() for o in obs) and max(np.abs(o).max() for o in obs) < 1e200


def ordered(kind, spec, words, R, ctx):
    W = np.array(words)
    n = len(words)
    good = [i for i in range(n) if sane(R[i])]
    top = max([1e-30] + [max(np.abs(R[i][0]).max(), np.abs(R[i][1]).max()) for i in good])
    tol = tol_of(kind, spec, top)
    X = [np.array([R[i][j] for i in good]) for j in (0, 1)]
    Wg = W[good]
    for a in range(len(good)):
        above = (Wg[a] >= Wg).all(axis=1)
        above[a] = False
        for j in (0, 1):
            bad = (X[j][a][None, :] < X[j][above] - tol[j]).any(axis=1)
            if bad.any():
                low = np.flatnonzero(above)[np.flatnonzero(bad)[0]]
                require(False, "more forcing gave less warming", spec=spec, output=j, more=Wg[a].tolist(), less=Wg[low].tolist(),
                        response_to_more=X[j][a].tolist(), response_to_less=X[j][low].tolist())
        ctx.evaluate(int(above.sum()))
        ctx.step(int(above.sum()))


def bounded(kind, spec, F, obs, top):
    """0 <= temperatures <= equilibrium of the largest forcing so far"""
    x, y, n = obs
    tol = tol_of(kind, spec, max(1e-30, np.abs(x).max(), np.abs(y).max()))
    for j, (o, lim) in enumerate(zip((x, y), top)):
        require((o >= -tol[j]).all(), "positive forcing cools", spec=spec, F=F, output=j, got=o.tolist)
        if lim is not None:
            require((o <= lim * (1 + 1e-9) + tol[j]).all(), "warming exceeds its equilibrium", spec=spec, F=F, output=j, got=o.tolist, limit=lim)


def ladder(kind, x, ctx):
    """Small and large steps of one system until its equilibrium is reached"""
    n = int(10 / x) + 10
    for f in (3.74, 1e-7) if x > 5e-3 else (3.74,):
        if kind == "tl":
            for a in (0.0, 0.02):
                spec = {n: list(v) for n, v in DEFAULTS["tl"].items()}
                spec.update(du=[10.0, "m"], dl=[30.0, "m"], lambda0=[2.5, "W/m^2/delta_degC"], a=[a, "W/m^2/delta_degC^2"])
                m = ref.TL(spec)
                spec["delta_t"] = [x * m.C / (m.lam + m.eff * m.eta), "s"]
                one_level(kind, spec, [f] * (n * 4), ctx)
        else:
            for d1, d2 in ((8.0, 9.0), (8.0, 400.0), (9.0 - 1e-6, 9.0)):
                spec = {n: list(v) for n, v in DEFAULTS["ir"].items()}
                spec.update(d1=[d1, "yr"], d2=[d2, "yr"], delta_t=[x * d1, "yr"])
                if x > 1e-3 or d2 == 9.0 > d1 + 0.5:
                    one_level(kind, spec, [f] * n, ctx)


def one_level(kind, spec, F, ctx):
    ctx.at({"kind": kind, "spec": spec, "constant forcing": F[0], "steps": len(F)})
    obs = observe(kind, drive(build(kind, spec), F))
    bounded(kind, spec, F[:3], obs, limits(kind, spec, F[0]))
    top = max(1e-30, np.abs(obs[0]).max(), np.abs(obs[1]).max())
    tol = tol_of(kind, spec, top)
    for j, o in enumerate(obs[:2]):
        require((np.diff(o) >= -tol[j]).all(), "constant forcing cools", spec=spec, output=j)
    require((obs[2] >= -tol[2]).all(), "heat is lost under constant forcing", spec=spec, got=float(obs[2].min()))
    ctx.state(kind, str(spec), F[0])
    ctx.step(len(F))
    ctx.trace()
    ctx.evaluate(5)


def limits(kind, spec, fmax):
    if kind == "ir":
        m = ref.IR(spec)
        return [q * fmax for q in m.q]
    m = ref.TL(spec)
    if m.a > 0:
        return [None, None]
    return [fmax / m.lam] * 2


def constant(kind, spec, m, n, ctx):
    """Constant and rising forcing"""
    for f in (3.74, 1e-7, 60.0):
        for F in ([f] * n, [f * i / n for i in range(n)], [f] * (n // 2) + [2 * f] * (n - n // 2)):
            ctx.at({"kind": kind, "spec": spec, "forcing": "{} .. {}".format(F[0], F[-1]), "steps": n})
            obs = observe(kind, drive(m, F))
            if not sane(obs):
                continue
            x, y, up = obs
            bounded(kind, spec, F, obs, limits(kind, spec, max(F)))
            tol = tol_of(kind, spec, max(1e-30, np.abs(x).max(), np.abs(y).max()))
            for j, o in enumerate((x, y)):
                require((np.diff(o) >= -tol[j]).all(), "rising forcing cools", spec=spec, output=j, got=o.tolist)
            require((up >= -tol[2]).all(), "heat is lost while forcing rises", spec=spec, got=up.tolist)
            if kind == "tl":
                require((y <= x + tol[0]).all(), "lower layer ahead of the upper one", spec=spec, got=y.tolist, upper=x.tolist)
            p = (ref.TL if kind == "tl" else ref.IR)(spec)
            if p.eff >= 1 and not (kind == "tl" and p.a > 0):
                require((up <= max(F) * (1 + 1e-9) + tol[2]).all(), "more heat taken up than forced", spec=spec, got=up.tolist, F=F[:5])
            if F[0] == F[-1] and p.eff == 1 and not (kind == "tl" and p.a > 0):
                require((np.diff(up[1:]) <= 2 * tol[2]).all(), "heat uptake grows under constant forcing", spec=spec, got=up.tolist)
            ctx.step(n)
            ctx.trace()
            ctx.evaluate(6)


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "scenarios":
        scenarios(kind, case["base"], ctx)
        return
    if case["group"] == "ladder":
        ladder(kind, LADDER[case["step"]], ctx)
        ctx.sample({"kind": kind, "timestep / timescale": LADDER[case["step"]]})
        return
    deep = ctx.tier == "thorough"
    for i in case["idx"]:
        spec = specs(kind, ctx.tier)[i]
        m = build(kind, spec)
        alpha = alphabet(kind, spec, ctx.tier)
        n = (5 if kind == "tl" else 4) if deep else 4
        words = [list(w) + [0.0, 0.0] for w in itertools.product(alpha, repeat=n)]
        ctx.at({"kind": kind, "spec": spec, "words over": alpha, "length": n})
        R = []
        for w in words:
            R.append(observe(kind, drive(m, w)))
            ctx.step(len(w))
            if min(w) >= 0 and sane(R[-1]):
                bounded(kind, spec, w, R[-1], limits(kind, spec, max(w)))
            ctx.state(kind, i, w)
        ctx.trace(len(words))
        ordered(kind, spec, words, R, ctx)
        big = [list(w) + [0.0, 0.0] for w in itertools.product(BIG[kind][0 if spec.get("a", [0])[0] == 0 else 1], repeat=3)]
        ctx.at({"kind": kind, "spec": spec, "words over": BIG[kind], "length": 3})
        ordered(kind, spec, big, [observe(kind, drive(m, w)) for w in big], ctx)
        ctx.step(5 * len(big))
        slow = kind == "ir" and spec["efficacy"][0] != 1
        constant(kind, spec, m, 2000 if deep and not slow else 120 if not slow or deep else 24, ctx)
        ctx.outcome(R[-1][0].tobytes(), R[1][1].tobytes())
    ctx.sample({"kind": kind, "params": spec, "words over": alpha, "pairs": "all pointwise ordered"})


def scenarios(kind, b, ctx):
    """The order seen through run_scenarios"""
    spec = dict(_dyn.base_points(kind)[b])
    for axis, step in ((years(1990, 5), [1.0, "yr"]), (months(2001, 5, 11), [1.0, "month"])):
        s = dict(spec, delta_t=step)
        if not stable(kind, s):
            continue
        alpha = [0.0, 1.0, 4.0]
        words = [list(w) + [0.0, 0.0] for w in itertools.product(alpha, repeat=3)]
        ctx.at({"kind": kind, "spec": s, "run_scenarios": len(words)})
        got = by_series(build(kind, spec).run_scenarios(run_of([row(w, "s{}".format(i)) for i, w in enumerate(words)], axis), progress=False))
        names = list(VARS[kind])
        R = [[got[("s{}".format(i), v)] for v in (names[0], names[1], "Heat Uptake")] for i in range(len(words))]
        ordered(kind, s, words, R, ctx)
        if kind == "ir":
            T = [[got[("s{}".format(i), "Surface Temperature")]] * 2 + [r[2]] for i, r in enumerate(R)]
            ordered(kind, s, words, T, ctx)
        for w, r in zip(words, R):
            bounded(kind, s, w, r, limits(kind, s, max(w)))
        ctx.trace(len(words))
        ctx.state(kind, b, "scenarios", step)
    ctx.sample({"kind": kind, "scenarios": 27})
