"""C01: two-layer forward-difference dynamics"""
from . import _dyn

RULE = (
    "every forcing word over {0,3.74,-2.5,1e-7,60} up to the stated length at 3 base points; every "
    "single-parameter deviation (100+ values) x 5 construction histories x run/step; the product of "
    "the parameter alphabets; forcing array types; long series; run_scenarios on yearly and monthly "
    "axes. Each transition of the implementation is compared with the reference transition from the "
    "state it was in. Distinct outcomes are distinct result arrays."
)
BOUNDS = {
    "quick": "words <= 4, star sweep complete, full 5184-element product (construction histories in rotation), runs to 70000 steps",
    "thorough": "words <= 5, star sweep complete, full product x 5 construction histories, runs to 70000 steps",
}
CONFORMANCE = (
    "every enumerated behaviour of the reference transition system is executed on the real "
    "TwoLayerModel and compared step by step (initial state, then each transition)"
)
ASSUMPTIONS = [
    "float64 arithmetic; agreement to 1e-11 of the sum of absolute terms of a step",
    "behaviour between the enumerated parameter values is interpolated by no argument: it is outside the bound",
]


def cases(tier):
    return _dyn.cases("tl", tier, 1)


def run(case, ctx):
    _dyn.run(case, ctx, ("temp",))
