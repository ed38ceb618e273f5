"""C33: parameters assigned during a run take effect from the next step"""
import itertools

import numpy as np

from .. import ref
from ..world import DEFAULTS, all_same, build, check_steps, drive, forcing, observe, q, require, ur
from . import _dyn
from ._dyn import degenerate
from ._scen import physical

RULE = (
    "runs made step by step with assignments in between: every parameter (and the timestep) x values on both sides of special ones and in "
    "other units x every position of a run, alone, there and back, and all ordered pairs of parameters at all pairs of positions; all words over "
    "{step, assign each of several, refused assignment, read}: every step is the reference transition with the parameters in force at that step, "
    "values calculated before stay bit-identical, readings are the values assigned last, and the same run after a reset is that of a new model"
)
BOUNDS = {
    "quick": "runs of 6 driver values, 8-16 values per parameter, 3 base points, all pairs of parameters at all pairs of positions, words of length <= 6 over 6 operations; every parameter changed by 23 factors from 1 + 1e-12 to 10 at every position; timescales meeting and changing places; runs of 300 steps with an assignment before every step",
    "thorough": "the same with triples of parameters, words of length <= 8 and runs of 3000 steps",
}
CONFORMANCE = "each step executed by the implementation has to be the transition of the reference system with the parameters in force"
ASSUMPTIONS = ["impulse responses with a q of zero have no heat uptake for efficacy other than one and are left out"]

F = [3.74, -2.5, 6.0, 1.0, 8.0, -0.5]
VALUES = {
    "du": ([81.25, "m"], [50.0, "m"], [7.0, "m"], [0.06, "km"], [4.5e3, "m"], [49.999999, "m"]),
    "dl": ([640.0, "m"], [1200.0, "m"], [33.0, "m"], [1.5, "km"], [9e4, "m"]),
    "lambda0": ([0.9, "W/m^2/delta_degC"], [-0.3, "W/m^2/delta_degC"], [0.0, "W/m^2/delta_degC"], [1400.0, "mW/m^2/K"], [5.0, "W/m^2/K"]),
    "a": ([0.0, "W/m^2/delta_degC^2"], [0.04, "W/m^2/delta_degC^2"], [-0.07, "W/m^2/delta_degC^2"], [30.0, "mW/m^2/K^2"]),
    "efficacy": ([1.0, "dimensionless"], [1.31, "dimensionless"], [0.7, "dimensionless"], [130.0, "cm/m"], [1.0000001, "dimensionless"], [3.0, "dimensionless"]),
    "eta": ([0.0, "W/m^2/delta_degC"], [0.55, "W/m^2/delta_degC"], [2.0, "W/m^2/delta_degC"], [900.0, "mW/m^2/K"]),
    "delta_t": ([1.0, "yr"], [1.0, "month"], [1.0, "day"], [40.0, "h"], [2.5, "yr"], [0.083, "yr"]),
    "q1": ([0.45, "delta_degC/(W/m^2)"], [0.02, "delta_degC/(W/m^2)"], [330.0, "mK/(W/m^2)"], [3.0, "K/(W/m^2)"]),
    "q2": ([0.21, "delta_degC/(W/m^2)"], [0.7, "delta_degC/(W/m^2)"], [410.0, "mK/(W/m^2)"], [0.01, "K/(W/m^2)"]),
    "d1": ([3.3, "yr"], [0.4, "yr"], [100.0, "month"], [60.0, "yr"], [1.0, "day"]),
    "d2": ([145.0, "yr"], [70.0, "yr"], [4000.0, "month"], [5.0, "kyr"], [1e6, "yr"]),
}


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in range(3):
            for n in DEFAULTS[kind]:
                out.append({"group": "single", "kind": kind, "base": b, "name": n})
            for n in DEFAULTS[kind]:
                out.append({"group": "pairs", "kind": kind, "base": b, "name": n})
            for first in range(len(OPS)):
                for second in range(len(OPS)):
                    out.append({"group": "words", "kind": kind, "base": b, "first": first, "second": second})
            out.append({"group": "long", "kind": kind, "base": b})
            for n in DEFAULTS[kind]:
                out.append({"group": "values", "kind": kind, "base": b, "name": n})
    for b in range(3):
        out.append({"group": "order", "kind": "ir", "base": b})
    return out


class Machine:
    """The implementation together with the parameters in force"""

    def __init__(self, kind, spec, F):
        self.kind, self.F = kind, F
        self.now = {n: list(v) for n, v in spec.items()}
        self.model = build(kind, spec)
        self.model.set_drivers(forcing(F))
        self.model.reset()
        self.specs, self.log = [], []
        self.seen = None

    def step(self):
        self.model.step()
        self.specs.append({n: list(v) for n, v in self.now.items()})
        obs = observe(self.kind, self.model)
        k = len(self.specs)
        require(all(np.isfinite(o[:k]).all() and np.isnan(o[k:]).all() for o in obs), "values after {} steps".format(k), log=self.log,
                got=[o.tolist() for o in obs])
        if self.seen is not None:
            require(all_same([o[: k - 1] for o in obs], self.seen), "values calculated before changed", log=self.log)
        self.seen = [o[:k].copy() for o in obs]
        self.log.append("step")

    def assign(self, name, value):
        setattr(self.model, name, q(value))
        self.now[name] = list(value)
        self.log.append([name, value])

    def refuse(self, name):
        try:
            setattr(self.model, name, ur.Quantity(2.0, "kg"))
        except ValueError:
            self.log.append("refused " + name)
            return
        require(False, "wrong unit accepted", parameter=name)

    def done(self, ctx):
        """Judge everything that happened"""
        k = len(self.specs)
        ctx.at({"kind": self.kind, "log": self.log[:60], "forcing": list(self.F)[:20]})
        obs = observe(self.kind, self.model)
        if self.seen is not None:
            require(all_same([o[:k] for o in obs], self.seen), "values calculated before changed", log=self.log[:60])
        if k:
            check_steps(self.kind, self.specs[0], None, self.F[:k], ctx, obs=[o[:k] for o in obs], specs=self.specs)
        want = {n: (q(v).magnitude, str(q(v).units)) for n, v in self.now.items()}
        got = dict(physical(self.kind, self.model), delta_t=(self.model.delta_t.magnitude, str(self.model.delta_t.units)))
        require(got == want, "readings are not the values assigned last", got=got, expected=want, log=self.log[:60])
        ctx.trace()
        ctx.evaluate(3)

    def felt(self, ctx):
        """Assigning all parameters in force before every step makes no difference"""
        other = build(self.kind, self.specs[0])
        other.set_drivers(forcing(self.F))
        other.reset()
        for spec in self.specs:
            for n, v in spec.items():
                setattr(other, n, q(v))
            other.step()
        require(all_same(observe(self.kind, other), observe(self.kind, self.model)), "assigning every parameter before every step changes the run", log=self.log)
        ctx.evaluate()

    def again(self, ctx):
        """Afterwards a run like that of a new model"""
        self.model.reset()
        self.model.run()
        fresh = drive(build(self.kind, self.now), self.F)
        require(all_same(observe(self.kind, self.model), observe(self.kind, fresh)), "run after the changes differs from that of a new model", log=self.log[:60])
        ctx.trace()
        ctx.evaluate()


FACTORS = [1 + d for e in (1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5) for d in (e, -e)] + [2.0, 10.0, 0.1]
OPS = ("step", "p0", "p1", "dt", "refuse", "same")
WORD = {
    "tl": {"p0": ("lambda0", [0.8, "W/m^2/delta_degC"], [1.5, "W/m^2/delta_degC"]), "p1": ("du", [30.0, "m"], [0.09, "km"]), "dt": ("delta_t", [1.0, "yr"], [20.0, "day"])},
    "ir": {"p0": ("efficacy", [1.3, "dimensionless"], [1.0, "dimensionless"]), "p1": ("q1", [0.5, "delta_degC/(W/m^2)"], [150.0, "mK/(W/m^2)"]),
           "dt": ("delta_t", [1.0, "yr"], [20.0, "day"])},
}


def start(kind, b):
    return {n: list(v) for n, v in _dyn.base_points(kind)[b].items()}


def allowed(kind, spec):
    return not degenerate(kind, spec) and (kind == "tl" or ref.base("d1", spec["d1"]) < ref.base("d2", spec["d2"]))


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    spec = start(kind, case["base"])
    if group == "single":
        n = case["name"]
        for v in VALUES[n]:
            if not allowed(kind, dict(spec, **{n: v})):
                continue
            for at in range(len(F) + 1):
                for back in [None] + list(range(at, len(F) + 1)):
                    m = Machine(kind, spec, F)
                    for i in range(len(F) + 1):
                        if i == at:
                            m.assign(n, v)
                        if i == back:
                            m.assign(n, spec[n])
                        if i < len(F):
                            m.step()
                    m.done(ctx)
                    ctx.state(kind, case["base"], n, repr(v), at, back)
                    if back is None:
                        m.again(ctx)
        ctx.outcome(*(o.tobytes() for o in m.seen))
        ctx.sample({"kind": kind, "assigned": n, "values": VALUES[n]})
    elif group == "pairs":
        n1 = case["name"]
        names = list(DEFAULTS[kind])
        for n2, n3 in itertools.product(names, names if ctx.tier == "thorough" else [None]):
            for i1, i2 in itertools.product(range(len(F)), repeat=2):
                v1, v2 = VALUES[n1][(i1 + i2) % len(VALUES[n1])], VALUES[n2][(i1 + 2 * i2 + 1) % len(VALUES[n2])]
                m = Machine(kind, spec, F)
                for i in range(len(F)):
                    for at, n, v in ((i1, n1, v1), (i2, n2, v2), (2, n3, VALUES[n3][i1 % len(VALUES[n3])] if n3 else None)):
                        if at == i and n and allowed(kind, dict(m.now, **{n: v})):
                            m.assign(n, v)
                    m.step()
                m.done(ctx)
                ctx.state(kind, case["base"], n1, n2, n3, i1, i2)
                if i1 == i2:
                    m.again(ctx)
        ctx.sample({"kind": kind, "assigned": n1, "and": names})
    elif group == "words":
        head = [OPS[case["first"]], OPS[case["second"]]]
        depth = 8 if ctx.tier == "thorough" else 6
        for n in range(depth - 1):
            for tail in itertools.product(OPS, repeat=n):
                w = head + list(tail)
                # a word matters for its last step, and all of its prefixes are judged with it
                if n and w[-1] != "step" or w.count("step") > len(F):
                    continue
                if n > 3 and w.count("step") < 2:
                    continue
                m = Machine(kind, spec, F)
                play(m, kind, w)
                m.done(ctx)
                ctx.state(kind, case["base"], tuple(w))
        m.again(ctx)
        ctx.sample({"kind": kind, "word": w})
    elif group == "values":
        # the same parameter a bit larger or smaller, much larger or smaller
        n = case["name"]
        for f in FACTORS:
            v = [spec[n][0] * f if spec[n][0] else f - 1, spec[n][1]]
            if v[0] == spec[n][0] or not allowed(kind, dict(spec, **{n: v})):
                continue
            for at, back in itertools.product(range(len(F)), (None, 5)):
                m = Machine(kind, spec, F)
                for i in range(len(F)):
                    if i == at:
                        m.assign(n, v)
                    if i == back:
                        m.assign(n, spec[n])
                    m.step()
                    ctx.step()
                m.done(ctx)
                m.felt(ctx)
                ctx.state(kind, case["base"], n, f, at, back)
                if back is None:
                    if at == 0:
                        # nothing was calculated with the old value
                        require(all_same(observe(kind, m.model), observe(kind, drive(build(kind, m.now), F))), "assigned before the first step: differs from a new model", log=m.log)
                    m.again(ctx)
        ctx.outcome(*(o.tobytes() for o in m.seen))
        ctx.sample({"kind": kind, "assigned": n, "times": FACTORS})
    elif group == "order":
        # timescales which come near, meet and change places; with an efficacy of one nothing depends on their order
        spec["efficacy"] = [1.0, "dimensionless"]
        a, b = ref.base("d1", spec["d1"]) / ref.UNITS["time"]["yr"], ref.base("d2", spec["d2"]) / ref.UNITS["time"]["yr"]
        meet = [("d2", a * f) for f in (0.01, 0.5, 0.999999, 1.0, 1.000001, 1.5)] + [("d1", b * f) for f in (0.5, 0.999999, 1.0, 1.000001, 1.5, 100.0)]
        for (n, v), at, back in itertools.product(meet, range(len(F)), [None] + list(range(1, len(F)))):
            m = Machine(kind, spec, F)
            for i in range(len(F)):
                if i == at:
                    m.assign(n, [v, "yr"])
                if i == back:
                    m.assign(n, spec[n])
                m.step()
                ctx.step()
            m.done(ctx)
            ctx.state(kind, case["base"], n, v, at, back)
            if allowed(kind, m.now):
                m.again(ctx)
        ctx.outcome(*(o.tobytes() for o in m.seen))
        ctx.sample({"kind": kind, "meet": meet})
    else:
        # a long run with an assignment before every step
        n = 3000 if ctx.tier == "thorough" else 300
        names = list(DEFAULTS[kind])
        for shift in range(len(names)):
            m = Machine(kind, spec, [F[i % len(F)] for i in range(n)])
            for i in range(n):
                name = names[(i + shift) % len(names)]
                v = VALUES[name][(i // len(names)) % len(VALUES[name])]
                if name == "lambda0" and v[0] <= 0 or name == "a" and v[0] > 0:
                    v = spec[name] if name == "lambda0" else VALUES["a"][0]
                if allowed(kind, dict(m.now, **{name: v})):
                    m.assign(name, v)
                m.step()
                if max(abs(o[i]) for o in m.seen[:2]) > 50:
                    # stay away from runaway warming
                    break
            m.done(ctx)
            ctx.outcome("steps", i)
        ctx.sample({"kind": kind, "steps": n, "assigned": names})


def play(m, kind, w):
    turn = {}
    for op in w:
        if op == "step":
            m.step()
        elif op == "refuse":
            m.refuse(WORD[kind]["p0"][0])
        elif op == "same":
            n = WORD[kind]["p1"][0]
            m.assign(n, m.now[n])
        else:
            n, x, y = WORD[kind][op]
            m.assign(n, (x, y)[turn.get(op, 0) % 2])
            turn[op] = turn.get(op, 0) + 1
