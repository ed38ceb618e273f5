"""C27: a run ends with its drivers"""
import itertools

import numpy as np

from ..world import all_same, build, drive, expect, forcing, observe, q, require
from . import _dyn
from .c10 import CHANGES

RULE = (
    "all driver lengths up to the bound x number of steps done before x all words over {step, run, assign parameter, assign "
    "timestep} after the last driver value: every further step or run raises IndexError and changes no available result; then every way back "
    "into a run (reset; other drivers of every length) gives what a new model gives"
)
BOUNDS = {
    "quick": "lengths 1-6, 12, 40 and (few words) six of 64-1030, words of length <= 4 (2 from 12 on), five long ones (up to 45 operations), and every parameter "
    "assigned once or twice (doubled, halved, refused) between up to four and up to three further attempts, 3 base points, both models",
    "thorough": "lengths 1-9, 12, 40 and 300, words of length <= 5 (4 from length 5 on)",
}
CONFORMANCE = "every history of the bounded automaton is executed on the real models; results compared with those recorded at the end of the drivers"
ASSUMPTIONS = ["steps taken after other drivers were set without a reset are outside the protocol"]

OPS = ("step", "run", "p0", "dt")
VALUES = [3.74, -2.5, 6.0, 0.0, 1.0, 8.0, -1.0, 2.0, 2.0]


def series(n, shift=0):
    return [VALUES[(i + shift) % len(VALUES)] for i in range(n)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for b in range(3):
            for n in [1, 2, 3, 4, 5, 6] + ([7, 8, 9] if deep else []) + [12, 40] + ([300] if deep else []):
                out.append({"kind": kind, "base": b, "n": n, "depth": (5 if n < 5 else 4) if deep else 4 if n < 7 else 3})
        for n in (64, 101, 130, 260, 520, 1030) + ((5000, 20000) if deep else ()):
            out.append({"kind": kind, "base": 1, "n": n, "depth": 1})
    return out


def run(case, ctx):
    kind, n = case["kind"], case["n"]
    spec = _dyn.base_points(kind)[case["base"]]
    F = series(n)
    want = observe(kind, drive(build(kind, spec), F))
    starts = ["run", "steps"] + list(range(1, n) if n < 7 else ())
    words = [w for d in range(1, case["depth"] + 1) for w in itertools.product(OPS, repeat=d)]
    if n > 9:
        words = [w for w in words if len(w) < 3]
    if case["depth"] == 1:
        words += [("run", "step"), ("p0", "run"), ("step", "run", "run"), ("dt", "step", "run")]
    else:
        words += [("step",) * 45, ("run",) * 6, ("step", "run") * 8, ("step",) * 13 + ("p0",) + ("step",) * 3, ("dt",) + ("run", "step", "step") * 7]
    names = [x for x in spec] if start_free(n) else [] if case["depth"] == 1 else ["delta_t"]
    words += [a * (t,) + ("{} {}".format(how, x),) * c + b * (u,) for x in names for how in ("double", "halve", "refuse")
              for a in (0, 1, 2, 4) for c in (1, 2)[: 1 + (a == 2)] for b in (1, 3) for t, u in (("step", "step"), ("run", "step"), ("step", "run")) if a or t == u]
    for start in starts:
        for k, w in enumerate(words):
            if isinstance(start, int) and (w[0] != "run" or len(w) > 2):
                continue
            m = build(kind, spec)
            m.set_drivers(forcing(F))
            m.reset()
            if start == "run":
                m.run()
            else:
                for _ in range(n if start == "steps" else start):
                    m.step()
            now = dict(spec)
            ctx.at({"kind": kind, "drivers": n, "reached by": start, "then": w})
            for i, op in enumerate(w):
                if op in ("step", "run"):
                    if isinstance(start, int) and i == 0:
                        # a run from part-way may finish the series, but goes no further
                        expect(IndexError, m.run, ctx, "run with {} of {} values done".format(start, n), history=w)
                        got = observe(kind, m)
                        require(all(len(g) == n for g in got), "number of result values", got=[len(g) for g in got])
                        require(all_same([g[:start] for g in got], [x[:start] for x in want]), "results changed", history=w)
                        ok = [np.isnan(g[start:]) | (g[start:] == x[start:]) for g, x in zip(got, want)]
                        require(all(o.all() for o in ok), "wrong results", history=w, got=[g.tolist() for g in got])
                        ctx.step()
                        continue
                    expect(IndexError, getattr(m, op), ctx, "{} after the last driver value".format(op), drivers=n, history=w)
                elif op.startswith("refuse "):
                    expect(TypeError, lambda: setattr(m, op.split()[1], 3.0), ctx, "number without a unit", history=w)
                else:
                    name, v = CHANGES[kind][op] if op in CHANGES[kind] else changed(now, *op.split())
                    setattr(m, name, q(v))
                    now[name] = v
                ctx.step()
                ctx.state(kind, case["base"], n, start, w[: i + 1])
                if not isinstance(start, int):
                    got = observe(kind, m)
                    require(all_same(got, want), "results of a finished run changed", history=w[: i + 1], drivers=n,
                            got=[g.tolist() for g in got], expected=[x.tolist() for x in want])
            # and back
            m.reset()
            require(all(np.isnan(g).all() and len(g) == n for g in observe(kind, m)), "reset leaves results", history=w)
            m.run()
            require(all_same(observe(kind, m), fresh(kind, now, F)), "run after extra steps differs from that of a new model", history=w, drivers=n)
            other = series((n + k) % 5 + 1, 2)
            drive(m, other, ("run", "step")[k % 2])
            require(all_same(observe(kind, m), fresh(kind, now, other)), "run with other drivers after extra steps differs from that of a new model",
                    history=w, drivers=n, other=len(other))
            ctx.trace()
            ctx.evaluate(3)
    ctx.outcome(*(x.tobytes() for x in want))
    ctx.sample({"kind": kind, "drivers": n, "after the end": words[-1]})


def start_free(n):
    return n in (2, 12)


def changed(spec, how, name):
    v, unit = spec[name]
    return name, [(v or 0.01) * (2 if how == "double" else 0.5), unit]


_FRESH = {}


def fresh(kind, spec, F):
    key = (kind, repr(sorted(spec.items())), tuple(F))
    if key not in _FRESH:
        _FRESH[key] = observe(kind, drive(build(kind, spec), F))
    return _FRESH[key]
