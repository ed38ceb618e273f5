"""C03: heat uptake closes the energy budget (both models)"""
import itertools

from .. import ref, spaces
from ..world import (
    DEFAULTS, VARS, build, by_series, check_steps, chunked, drive, in_unit, observe, require, row, run_of, years,
)
from . import _dyn

RULE = (
    "the runs of C01 and C02 with the heat uptake of every step compared with the radiative budget of "
    "the reference (impulse response: through the equivalent two-layer parameters and mode ratios "
    "derived independently); two-layer additionally against the change of stored heat; every "
    "combination of a unit per parameter"
)
BOUNDS = {
    "quick": "C01/C02 quick spaces (product 1 in 2 / 1 in 6), all unit pairs",
    "thorough": "full products, all unit combinations of the parameters",
}
CONFORMANCE = "every enumerated reference behaviour is executed on the real models, uptake compared at every step"
ASSUMPTIONS = [
    "two-layer uptake is formed from temperature differences: tolerance includes 64 ulp of C*T/dt",
    "impulse response efficacy term: tolerance grows with d2/d1 (conditioning of the conversion)",
]


def _unit_combos(kind, tier):
    names = [n for n in DEFAULTS[kind]]
    lists = [list(ref.UNITS[ref.KIND[n]]) for n in names]
    if tier == "thorough":
        lists = [x[:4] for x in lists]
        return [c for c in itertools.product(*lists)]
    out = []
    for i, j in itertools.combinations(range(len(names)), 2):
        for a in lists[i]:
            for b in lists[j]:
                c = [DEFAULTS[kind][n][1] for n in names]
                c[i], c[j] = a, b
                out.append(tuple(c))
    return sorted(set(out), key=lambda c: (sum(x != DEFAULTS[kind][n][1] for n, x in zip(names, c)), c))


_CACHE = {}


def combos(kind, tier):
    if (kind, tier) not in _CACHE:
        _CACHE[(kind, tier)] = _unit_combos(kind, tier)
    return _CACHE[(kind, tier)]


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        cs = _dyn.cases(kind, tier, {"tl": 2, "ir": 6}[kind] if tier == "quick" else 1)
        out += [c for c in cs if c["group"] != "long" or c["n"] <= 751 or tier == "thorough"]
        for c in chunked(range(len(combos(kind, tier))), 25):
            out.append({"group": "units", "kind": kind, "idx": c})
    out.sort(key=lambda c: ("words", "dtypes", "grid", "scenarios", "units", "star", "prod", "long").index(c["group"]))
    return out


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "units":
        names = list(DEFAULTS[kind])
        for i in case["idx"]:
            c = combos(kind, ctx.tier)[i]
            for b in _dyn.base_points(kind)[1:]:
                spec = {
                    n: in_unit(n, ref.base(n, b[n]), u) for n, u in zip(names, c)
                }
                ctx.at({"kind": kind, "spec": spec})
                m = build(kind, spec)
                F = spaces.F_MIX[:6]
                drive(m, F)
                check_steps(kind, spec, m, F, ctx, what=("uptake",))
                ctx.trace()
                ctx.outcome(c, *(o.tobytes() for o in observe(kind, m)))
        ctx.sample({"units": dict(zip(names, c))})
        return
    _dyn.run(case, ctx, ("uptake",))
    if kind == "tl" and case["group"] in ("star", "words", "scenarios"):
        storage(case, ctx)


def storage(case, ctx):
    """Uptake = change of stored heat per unit time"""
    if case["group"] == "star":
        specs = [_dyn._specs("tl", ctx.tier)[0][i] for i in case["idx"]]
    else:
        specs = [_dyn.base_points("tl")[case["base"]]]
    for spec in specs:
        m = build("tl", spec)
        drive(m, spaces.F_MIX)
        x, y, n = observe("tl", m)
        r = ref.TL(spec)
        ctx.at({"storage": spec})
        for i in range(1, len(x)):
            up = r.C * (x[i] - x[i - 1]) / r.dt + r.CD * (y[i] - y[i - 1]) / r.dt
            sc = (r.C * (abs(x[i]) + abs(x[i - 1])) + r.CD * (abs(y[i]) + abs(y[i - 1]))) / r.dt
            if not ref.finite(up, sc) or sc > 1e280:
                continue
            ctx.step()
            _, us, _ = r.uptake((x[i - 1], y[i - 1]), spaces.F_MIX[i - 1])
            require(
                abs(n[i] - up) <= 1e-11 * us + 64 * ref.EPS * sc,
                "uptake is not the change of stored heat", spec=spec, step=i, got=n[i], expected=up,
            )
