"""C02: impulse response exact exponential dynamics"""
import itertools

from .. import spaces
from ..world import CLS, DEFAULTS, build, check_steps, drive, q
from . import _dyn

RULE = (
    "as C01 for the impulse response model: forcing words, single-parameter deviations, product of "
    "alphabets, array types, long series, run_scenarios; every transition compared with the exact "
    "exponential transition; surface temperature = sum of boxes"
)
BOUNDS = {
    "quick": "words <= 4, star sweep complete, full product with d1<d2 (construction histories in rotation), runs to 33000 steps",
    "thorough": "words <= 5, star complete, full product x 5 construction histories, runs to 70000 steps",
}
CONFORMANCE = (
    "every enumerated behaviour of the reference transition system is executed on the real "
    "ImpulseResponseModel and compared step by step"
)
ASSUMPTIONS = [
    "float64 arithmetic; agreement to 1e-11 of |T| + |q F| per step",
    "timescales positive",
]


SWAPPED = [1e-3, 0.4, 5.0, 9.0, 60.0, 400.0, 1e4]


def cases(tier):
    out = _dyn.cases("ir", tier, 1)
    # timescales in the other order, which assignments can reach
    out[40:40] = [{"group": "swapped", "kind": "ir", "d1": d} for d in SWAPPED]
    return out


def swapped(d1, ctx):
    """Every box follows its own timescale, also when the first is not the shorter one"""
    for d2, dt, via in itertools.product(SWAPPED, (1 / 12, 1.0, 30.0), ("setters", "order", "boxes")):
        if d2 > d1:
            continue
        spec = {k: list(v) for k, v in DEFAULTS["ir"].items()}
        spec.update({"d1": [d1, "yr"], "d2": [d2, "yr"], "delta_t": [dt, "yr"]})
        ctx.at({"kind": "ir", "spec": spec, "via": via})
        if via == "boxes":
            m = build("ir", {**spec, "d2": [3e4, "yr"]})
            drive(m, [1.0, 2.0, 3.0])
            m.d2 = build("ir", {**spec, "d1": [d2 / 2, "yr"]}).d2
        elif via == "order":
            m = CLS["ir"]()
            for k in ("d2", "d1", "delta_t"):
                setattr(m, k, q(spec[k]))
        else:
            m = build("ir", spec, via)
        drive(m, spaces.F_MIX)
        check_steps("ir", spec, m, spaces.F_MIX, ctx, what=("temp",))
        ctx.trace()
        ctx.evaluate()


def run(case, ctx):
    if case["group"] == "swapped":
        swapped(case["d1"], ctx)
        return
    _dyn.run(case, ctx, ("temp",))
