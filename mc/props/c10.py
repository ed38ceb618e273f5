"""C10: a run depends on parameters and drivers only"""
import numpy as np

from ..engine import HarnessError
from ..world import CLS, DEFAULTS, OUT, all_same, build, forcing, observe, q, require, same
from . import _dyn

RULE = (
    "explicit-state exploration of the life cycle automaton: all operation sequences up to the stated "
    "depth over {set_drivers x 6 series, reset, step, run, assign 2 parameters, assign timestep}; the "
    "abstract state (parameters, drivers, phase, index) predicts the complete result arrays; histories "
    "which leave the documented protocol (stepping past the end, steps without reset) have no "
    "prediction until the next reset. Every history is closed by reset-run and set_drivers-reset-run / "
    "steps on each series and compared with a new model"
)
BOUNDS = {
    "quick": "two-layer depth 5, impulse response depth 4 over 9 operations, 2 base points; depth 3 with series of 12, 41 and 300 values; all ordered pairs of 18 lengths from 1 to 100 x 6 ways the first run ended",
    "thorough": "two-layer depth 6, impulse response depth 5; depth 4 with the long series",
}
CONFORMANCE = "every path of the abstract automaton is replayed on the real model and the arrays compared in every state"
ASSUMPTIONS = ["result arrays are observed where the repository's tests observe them"]

SERIES = {"A": [3.74, -2.5, 6.0], "B": [1.0, 8.0], "C": [4, -1, 2, 2, 7]}
SERIES["D"] = [(5 * i % 13) / 2.0 - 2.0 for i in range(41)]
SERIES["E"] = [3.74, -1.0, 2.0, 0.5, 4.0, 0.0, 1.5, -2.0, 6.0, 3.0, 1.0, 2.5]
SERIES["G"] = [(7 * i % 17) / 3.0 for i in range(300)]
OPS = ["dA", "dB", "dC", "reset", "step", "run", "p0", "p1", "dt"]
LONG = ["dD", "dE", "dA", "reset", "step", "run", "p0", "p1", "dt"]
LAST = ["dG", "reset", "run", "step", "p1"]
CHANGES = {
    "tl": {"p0": ("lambda0", [0.8, "W/m^2/delta_degC"]), "p1": ("dl", [300.0, "m"]), "dt": ("delta_t", [1.0, "month"])},
    "ir": {"p0": ("efficacy", [1.3, "dimensionless"]), "p1": ("d2", [55.0, "yr"]), "dt": ("delta_t", [0.75, "yr"])},
}
BASES = {"tl": (0, 1), "ir": (0, 1)}


def series(name):
    v = SERIES[name]
    return np.array(v, dtype=float if name != "C" else np.int64)


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in BASES[kind]:
            for o in range(len(LONG)):
                out.append({"kind": kind, "base": b, "prefix": [o], "depth": (4 if tier == "thorough" else 3) - (kind == "ir" and b == 1), "ops": "LONG"})
            for o in range(len(LAST)):
                out.append({"kind": kind, "base": b, "prefix": [o], "depth": (4 if tier == "thorough" else 3) - (kind == "ir"), "ops": "LAST"})
            for n in LENGTHS[: None if tier == "thorough" or b == 0 else 10]:
                out.append({"kind": kind, "base": b, "lengths": n})
    depth = {"tl": 6, "ir": 5} if tier == "thorough" else {"tl": 5, "ir": 4}
    for n in (1, 2):
        for kind in ("tl", "ir"):
            for b in BASES[kind]:
                if n == 1:
                    for o in range(len(OPS)):
                        out.append({"kind": kind, "base": b, "prefix": [o], "depth": 2})
                else:
                    for o in range(len(OPS)):
                        for p in range(len(OPS)):
                            d = depth[kind] if b == 0 else depth[kind] - 1
                            out.append({"kind": kind, "base": b, "prefix": [o, p], "depth": d})
    return out


LENGTHS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 32, 50, 64, 100)


def shaped(n):
    return [(5 * i % 13) / 2.0 - 2.0 + 0.125 * n for i in range(n)]


_LEN = {}


def lengths(kind, spec, n, ctx):
    """A series of every length after series of every other length, the last run being complete, partial or none at all"""
    def alone(k):
        key = (kind, repr(sorted(spec.items())), k)
        if key not in _LEN:
            m = build(kind, spec)
            m.set_drivers(forcing(shaped(k)))
            m.reset()
            m.run()
            _LEN[key] = observe(kind, m)
        return _LEN[key]

    for k in LENGTHS:
        for how in ("run", "half", "reset", "set", "twice", "back"):
            m = build(kind, spec)
            ctx.at({"kind": kind, "lengths": [n, k], "first": how})
            m.set_drivers(forcing(shaped(n)))
            if how != "set":
                m.reset()
            if how in ("run", "twice", "back"):
                m.run()
            if how == "twice":
                m.set_drivers(forcing(shaped(n)[::-1]))
                m.reset()
                m.run()
            if how == "half":
                for _ in range((n + 1) // 2):
                    m.step()
            todo = (k, n, k) if how == "back" else (k,)
            for j in todo:
                m.set_drivers(forcing(shaped(j)))
                m.reset()
                m.run()
                got = observe(kind, m)
                require(all_same(got, alone(j)), "run depends on the length of an earlier one", lengths=[n, k, j], first=how,
                        got=[g.tolist() for g in got], expected=[g.tolist() for g in alone(j)])
                ctx.step()
                ctx.trace()
                ctx.evaluate()
            ctx.state(kind, n, k, how)
    ctx.sample({"kind": kind, "first length": n, "then": LENGTHS})


_FRESH = {}


def fresh(kind, spec, name):
    key = (kind, repr(sorted(spec.items())), name)
    if key not in _FRESH:
        m = build(kind, spec)
        m.set_drivers(forcing(series(name)))
        m.reset()
        m.run()
        _FRESH[key] = observe(kind, m)
    return _FRESH[key]


class Abstract:
    """Predicted state; idx None: no prediction (outside the protocol)"""

    def __init__(self, spec):
        self.spec = dict(spec)
        self.drivers = None
        self.phase = "new"  # new, ready (after reset, k steps done), undefined
        self.k = 0
        self.run_spec = None

    def key(self):
        return (repr(sorted(self.spec.items())), self.drivers, self.phase, self.k)


def apply(kind, m, a, op, ctx):
    ctx.step()
    if op[0] == "d" and op != "dt":
        m.set_drivers(forcing(series(op[1])))
        a.drivers = op[1]
        if a.phase == "ready":
            a.phase = "stale"  # results belong to the previous drivers until a reset
        return
    if op == "reset":
        if a.drivers is None:
            try:
                m.reset()
            except ValueError:
                return
            require(False, "reset without drivers accepted")
        m.reset()
        a.phase, a.k = "ready", 0
        return
    if op in ("step", "run"):
        n = len(SERIES[a.drivers]) if a.drivers else 0
        todo = 1 if op == "step" else n
        if a.phase == "ready" and a.k + todo <= n:
            getattr(m, op)()
            if a.k == 0:
                a.run_spec = dict(a.spec)
            elif a.run_spec != a.spec:
                a.phase = "undefined"
            a.k += todo
        else:
            # outside the protocol: whatever happens, a reset has to recover
            try:
                getattr(m, op)()
            except Exception:  # pylint: disable=broad-except
                pass
            a.phase = "undefined"
        return
    name, v = CHANGES[kind][op]
    setattr(m, name, q(v))
    a.spec[name] = v


def verify(kind, m, a, hist, ctx):
    """Result arrays in the state reached"""
    ctx.state(kind, *a.key())
    if a.phase != "ready":
        return
    got = observe(kind, m)
    n = len(SERIES[a.drivers])
    want = fresh(kind, a.run_spec if a.k else a.spec, a.drivers)
    for j, (g, w) in enumerate(zip(got, want)):
        require(len(g) == n, "number of result values", history=hist, got=len(g), expected=n)
        require(same(g[: a.k], w[: a.k]), "results after some steps differ from a new model's", history=hist, output=j,
                got=g.tolist(), expected=w.tolist())
        require(np.isnan(g[a.k :]).all(), "values available before their step", history=hist, output=j, got=g.tolist())
    ctx.evaluate()
    ctx.outcome(*(g.tobytes() for g in got))


CLOSING = {
    "OPS": (("B", "run"), ("C", "step"), ("A", "run")),
    "LONG": (("D", "run"), ("E", "step"), ("D", "step"), ("A", "run")),
    "LAST": (("E", "run"), ("G", "run"), ("A", "run")),
}


def close(kind, m, a, hist, ctx, ops="OPS"):
    """Bring the model back into a fresh run in every way and compare"""
    def same_as_new(name, how):
        got = observe(kind, m)
        require(all_same(got, fresh(kind, a.spec, name)), "run depends on the model's past", history=hist + [how],
                drivers=name, got=[g.tolist() for g in got], expected=[g.tolist() for g in fresh(kind, a.spec, name)])
        ctx.trace()

    if a.drivers is not None:
        m.reset()
        for g in observe(kind, m):
            require(np.isnan(g).all() and len(g) == len(SERIES[a.drivers]), "reset leaves results", history=hist, got=g.tolist())
        m.run()
        same_as_new(a.drivers, "reset-run")
    for name, how in CLOSING[ops]:
        m.set_drivers(forcing(series(name)))
        m.reset()
        if how == "run":
            m.run()
        else:
            for _ in SERIES[name]:
                m.step()
        same_as_new(name, "set_drivers-reset-" + how)
    e = m.erf
    require(same(e.magnitude, series("A")) and str(e.units) == str(forcing([1.0]).units), "drivers not kept", history=hist)
    for n, v in a.spec.items():
        r = getattr(m, n)
        require(r.magnitude == v[0] and r.units == q(v).units, "parameter changed by running", parameter=n, history=hist)


def replay(kind, spec, hist, ctx, ops="OPS"):
    m, a = build(kind, spec), Abstract(spec)
    ctx.at({"kind": kind, "history": hist})
    for op in hist:
        apply(kind, m, a, op, ctx)
    verify(kind, m, a, hist, ctx)
    close(kind, m, a, hist, ctx, ops)


def run(case, ctx):
    kind = case["kind"]
    spec = _dyn.base_points(kind)[case["base"]]
    if "lengths" in case:
        lengths(kind, spec, case["lengths"], ctx)
        return
    which = case.get("ops", "OPS")
    alphabet = {"OPS": OPS, "LONG": LONG, "LAST": LAST}[which]
    stack = [[alphabet[i] for i in case["prefix"]]]
    while stack:
        h = stack.pop()
        replay(kind, spec, h, ctx, which)
        if len(h) < case["depth"] and (len(case["prefix"]) > 1 or which != "OPS"):
            stack += [h + [o] for o in alphabet]
    ctx.sample({"kind": kind, "history": h})
