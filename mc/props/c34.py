"""C34: drivers read back as given, and only those accepted last count"""
import itertools

import numpy as np

from .. import ref, registry, spaces
from ..world import DEFAULTS, all_same, build, canon_frame, check_steps, drive, expect, near, observe, q, require, row, run_of, same_frames, ur, years, UnitError
from . import _dyn
from .c28 import text as text_of

RULE = (
    "all words over 15 operations (five ways and units of setting drivers, through set_drivers and the erf property; five kinds of refused drivers; "
    "reset, step, run, parameter and timestep assignment, run_scenarios) followed by reset and run: after every operation the drivers read back "
    "bit by bit as accepted last, in their unit; the run uses exactly them. All units of flux x values x number types: read back as given"
)
BOUNDS = {
    "quick": "words of length <= 3 over 15 operations, of length 4 over 8; refused drivers (one or two) at every point of a run; run_scenarios at every position of words of length 2; every unit of the registry for fluxes; 14 number types and forms; 8 shapes x 24 sizes (1e-14 to 1e12, both signs) x 5 lengths of series, every step judged; 12 kinds of series which are all but the one before",
    "thorough": "words of length <= 4 over 15 operations, of length 6 over 5",
}
CONFORMANCE = "every word is executed on the real models; drivers compared with an abstract store, runs with those of new models"
ASSUMPTIONS = ["which drivers a model has after run_scenarios is left open; a run after set_drivers needs a reset"]

GIVEN = {
    "d1": ([3.74, -2.5, 6.0, 0.1], "W/m^2"),
    "d2": ([3740.0, -0.1, 1e-3, 5e3, 7.0], "mW/m^2"),
    "d3": ([2, 3, 0, -1], "kW/km^2"),
    "e1": ([0.3, 0.7], "W/m^2"),
    "e2": ([0.001, 0.002, 0.0], "kW/m^2"),
}
REFUSED = {
    "unit": (lambda: ur.Quantity(np.array([1.0, 2.0]), "W"), (UnitError,)),
    "kelvin": (lambda: ur.Quantity(np.array([1.0, 2.0]), "K"), (UnitError,)),
    "bare": (lambda: np.array([1.0, 2.0]), (TypeError,)),
    "matrix": (lambda: ur.Quantity(np.ones((2, 2)), "W/m^2"), (AssertionError,)),
    "scalar": (lambda: ur.Quantity(2.0, "W/m^2"), (AssertionError,)),
}
OTHER = ("reset", "step", "run", "parameter", "timestep")
OPS = tuple(GIVEN) + tuple(REFUSED) + OTHER
CORE = ("d1", "d2", "e2", "unit", "matrix", "reset", "run", "parameter")
SMALL = ("d1", "e2", "unit", "run", "reset")


def text(v):
    return text_of(v) + (str(np.asarray(v.magnitude).dtype),)


def given(name):
    v, u = GIVEN[name]
    return ur.Quantity(np.array(v), u)


def cases(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("tl", "ir"):
        for first in OPS:
            out.append({"group": "words", "kind": kind, "first": first, "depth": 4 if deep else 3, "over": "all"})
        for first in SMALL if deep else CORE:
            out.append({"group": "words", "kind": kind, "first": first, "depth": 6 if deep else 4, "over": "small" if deep else "core"})
        for b in range(3):
            out.append({"group": "units", "kind": kind, "base": b})
            out.append({"group": "forms", "kind": kind, "base": b})
            for sh in SHAPES:
                out.append({"group": "values", "kind": kind, "base": b, "shape": sh})
        for d in GIVEN:
            out.append({"group": "midrun", "kind": kind, "drivers": d})
            for how in CLOSE:
                out.append({"group": "close", "kind": kind, "base": b, "how": how})
        for first in OPS:
            out.append({"group": "scenarios", "kind": kind, "first": first})
    return out


SIZES = [0.0, -0.0] + [s * v for v in (1e-14, 1.2345678901234567e-9, 1.000000119e-6, 0.001, 0.1, 1 / 3, 1.0, 3.7412345678901234, 16777217.0, 123456789.123456789, 1e12)
                       for s in (1, -1)]
# drivers which are all but those before
CLOSE = {
    "next number": lambda f: np.nextafter(f, np.inf),
    "previous number": lambda f: np.nextafter(f, -np.inf),
    "last only": lambda f: np.concatenate([f[:-1], np.nextafter(f[-1:], np.inf)]),
    "one only": lambda f: np.where(np.arange(len(f)) == len(f) // 3, f * (1 + 1e-13) + 1e-300, f),
    "1e-12": lambda f: f * (1 + 1e-12),
    "1e-9": lambda f: f * (1 + 1e-9),
    "plus 1e-9": lambda f: f + 1e-9,
    "1e-5": lambda f: f * (1 + 1e-5),
    "reversed": lambda f: f[::-1].copy(),
    "rolled": lambda f: np.roll(f, 1),
    "two exchanged": lambda f: np.concatenate([f[:2], f[3:1:-1], f[4:]]),
    "negated": lambda f: -f,
}
LENGTHS = (1, 2, 3, 12, 40)
SHAPES = {
    "constant": lambda c, n: np.full(n, c),
    "ramp": lambda c, n: c * np.arange(n),
    "backwards": lambda c, n: c * np.arange(n)[::-1],
    "alternating": lambda c, n: c * (-1.0) ** np.arange(n),
    "spike": lambda c, n: np.where(np.arange(n) == n // 2, c, 0.0),
    "step": lambda c, n: np.where(np.arange(n) >= n // 2, c, 1.0),
    "nearly constant": lambda c, n: c * (1 + 1e-9 * (np.arange(n) % 3)),
    "last": lambda c, n: np.where(np.arange(n) == n - 1, c, 2.5),
}
CHANGE = {"tl": ("eta", [0.6, "W/m^2/delta_degC"]), "ir": ("q2", [0.35, "delta_degC/(W/m^2)"])}


class Store:
    """What the history so far amounts to"""

    def __init__(self, kind, b=1):
        self.kind = kind
        self.spec = dict(_dyn.base_points(kind)[b])
        self.model = build(kind, self.spec)
        self.have = None  # (object, its text, name)
        self.ready = False  # reset since the last drivers
        self.left = 0
        self.mixed = False  # parameters changed since the reset

    def read(self, log):
        if self.have is None:
            require(np.isnan(np.asarray(getattr(self.model.erf, "magnitude", self.model.erf))).all(), "drivers before any were set", log=log)
            return
        require(text(self.model.erf) == self.have[1], "drivers do not read back as given", log=log, got=str(self.model.erf), expected=str(self.have[0]))
        require(text(self.have[0]) == self.have[1], "the caller's drivers changed", log=log)

    def apply(self, op, ctx, log):
        m = self.model
        if op in GIVEN:
            d = given(op)
            kept = (d, text(d), op)
            if op.startswith("d"):
                m.set_drivers(d)
            else:
                m.erf = d
            self.have, self.ready = kept, False
        elif op in REFUSED:
            make, errors = REFUSED[op]
            before = observe(self.kind, m)
            expect(errors, lambda: m.set_drivers(make()), ctx, "drivers have to be refused", log=log)
            require(all_same(observe(self.kind, m), before), "results changed by refused drivers", log=log)
        elif op == "parameter":
            n, v = CHANGE[self.kind]
            setattr(m, n, q(v))
            self.spec[n] = v
            self.mixed = True
        elif op == "timestep":
            m.delta_t = ur.Quantity(2.0, "month")
            self.spec["delta_t"] = [2.0, "month"]
            self.mixed = True
        elif self.have is None:
            return False
        elif op == "reset":
            m.reset()
            self.ready, self.left, self.mixed = True, len(self.have[0]), False
        elif not self.ready:
            return False
        elif op == "step" and self.left:
            m.step()
            self.left -= 1
            done = len(self.have[0]) - self.left
            want = [x[:done] for x in fresh(self.kind, self.spec, self.have[2])]
            got = observe(self.kind, m)
            require(all(np.isfinite(o[:done]).all() and np.isnan(o[done:]).all() for o in got), "values after {} steps".format(done), log=log,
                    got=[o.tolist() for o in got])
            if not self.mixed:
                require(all_same([o[:done] for o in got], want), "the step does not use the drivers accepted last", log=log)
        elif op == "run" and self.left == len(self.have[0]):
            m.run()
            self.left = 0
        else:
            return False
        ctx.step()
        return True

    def finish(self, log, ctx):
        if self.have is None:
            return
        self.model.reset()
        self.model.run()
        require(all_same(observe(self.kind, self.model), fresh(self.kind, self.spec, self.have[2])), "the run does not use the drivers accepted last", log=log)
        self.read(log)
        ctx.trace()
        ctx.evaluate(2)


_FRESH = {}


def fresh(kind, spec, name):
    key = (kind, repr(sorted(spec.items())), name)
    if key not in _FRESH:
        m = build(kind, spec)
        m.set_drivers(given(name))
        m.reset()
        m.run()
        _FRESH[key] = observe(kind, m)
    return _FRESH[key]


def word(kind, w, ctx):
    s = Store(kind)
    ctx.at({"kind": kind, "word": w})
    s.read(w)
    for i, op in enumerate(w):
        if not s.apply(op, ctx, w[: i + 1]):
            return False
        s.read(w[: i + 1])
        ctx.state(kind, w[: i + 1])
    s.finish(w, ctx)
    return True


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    if group == "words":
        over = {"all": OPS, "core": CORE, "small": SMALL}[case["over"]]
        n = 0
        for d in range(case["depth"]):
            for tail in itertools.product(over, repeat=d):
                n += word(kind, (case["first"],) + tail, ctx)
        ctx.outcome(kind, case["first"], case["over"], n)
        ctx.sample({"kind": kind, "first": case["first"], "words": n})
    elif group == "midrun":
        # refused drivers, one or two, at every point of a run
        d = case["drivers"]
        n = len(GIVEN[d][0])
        for at, k in itertools.product(range(n + 1), (1, 2)):
            for bad in itertools.product(REFUSED, repeat=k):
                w = (d, "reset") + ("step",) * at + bad + ("step",) * (n - at)
                require(word(kind, w, ctx), "steps refused", word=w)
        ctx.sample({"kind": kind, "word": w})
    elif group == "units":
        spec = _dyn.base_points(kind)[case["base"]]
        m = build(kind, spec)
        want = observe(kind, drive(build(kind, spec), spaces.F_MIX))
        flux = dict(ref.UNITS["flux"])
        flux.update(registry.units("flux"))
        for u, f in flux.items():
            for way in ("set_drivers", "erf"):
                v = ur.Quantity(np.array(spaces.F_MIX, dtype=float) / f, u)
                was = text(v)
                ctx.at({"kind": kind, "unit": u, "way": way})
                if way == "erf":
                    m.erf = v
                else:
                    m.set_drivers(v)
                for _ in range(2):
                    require(text(m.erf) == was and text(v) == was, "drivers do not read back as given", unit=u, got=str(m.erf)[:300])
                    m.reset()
                    m.run()
                    got = observe(kind, m)
                    require(all(near(g, w, 1e-9, 1e-9 * float(np.abs(w).max())) for g, w in zip(got, want)), "the run does not use the drivers given", unit=u,
                            got=[g.tolist() for g in got])
                ctx.step(2)
                ctx.state(kind, case["base"], u, way)
                ctx.trace()
                ctx.evaluate(2)
        ctx.sample({"kind": kind, "units": len(flux)})
    elif group == "values":
        spec = dict(_dyn.base_points(kind)[case["base"]])
        make = SHAPES[case["shape"]]
        used = build(kind, spec)
        for n, c in itertools.product(LENGTHS, SIZES):
            F = np.asarray(make(c, n), float)
            v = ur.Quantity(F.copy(), "W/m^2")
            was = text(v)
            ctx.at({"kind": kind, "spec": spec, "forcing": F.tolist()})
            for m in (used, build(kind, spec)):
                m.set_drivers(v)
                require(text(m.erf) == was, "drivers do not read back as given", got=str(m.erf)[:300])
                m.reset()
                require(text(m.erf) == was and text(v) == was, "drivers changed by reset", got=str(m.erf)[:300])
                m.run()
                require(text(m.erf) == was and text(v) == was, "drivers changed by a run", got=str(m.erf)[:300])
                # exactly these drivers: every step is the one they call for
                check_steps(kind, spec, m, F, ctx)
                ctx.evaluate(4)
            ctx.state(kind, case["base"], case["shape"], n, c)
            ctx.outcome(*(o.tobytes() for o in observe(kind, m)))
            ctx.trace()
        ctx.sample({"kind": kind, "shape": case["shape"], "sizes": SIZES, "lengths": LENGTHS})
    elif group == "close":
        spec = dict(_dyn.base_points(kind)[case["base"]])
        m = build(kind, spec)
        for n, unit in itertools.product((5, 13, 40), ("W/m^2", "mW/m^2")):
            F = np.array([3.74 + (7 * i % 11 - 4) / 3.0 for i in range(n)])
            G = CLOSE[case["how"]](F)
            for series in (F, G, F, G, G):
                v = ur.Quantity(series.copy(), unit)
                was = text(v)
                ctx.at({"kind": kind, "how": case["how"], "length": n, "unit": unit, "spec": spec})
                m.set_drivers(v)
                require(text(m.erf) == was, "drivers do not read back as given", got=str(m.erf)[:300])
                m.reset()
                m.run()
                require(all_same(observe(kind, m), observe(kind, drive(build(kind, spec), series, unit=unit))), "the run does not use the drivers accepted last",
                        drivers=series.tolist())
                ctx.step()
                ctx.evaluate(2)
            ctx.state(kind, case["base"], case["how"], n, unit)
            ctx.trace()
        ctx.sample({"kind": kind, "then": case["how"]})
    elif group == "forms":
        spec = _dyn.base_points(kind)[case["base"]]
        m = build(kind, spec)
        forms = list(spaces.dtypes()) + [("one", np.array([2.5])), ("many", np.sin(np.arange(500.0))), ("zeros", np.zeros(4)),
                                         ("inf", np.array([1.0, np.inf, 2.0])), ("nan", np.array([1.0, np.nan])), ("minus zero", np.array([-0.0, 1.0]))]
        for (n1, a1), (n2, a2) in itertools.product(forms, repeat=2):
            ctx.at({"kind": kind, "forms": [n1, n2]})
            for arr, unit in ((a1, "W/m^2"), (a2, "mW/m^2")):
                v = ur.Quantity(arr, unit)
                was = text(v)
                m.set_drivers(v)
                require(text(m.erf) == was, "drivers do not read back as given", form=(n1, n2), got=str(m.erf)[:300])
                if not np.isnan(np.asarray(arr, float)).any() and len(arr) < 50:
                    m.reset()
                    m.run()
                    require(text(m.erf) == was and text(v) == was, "drivers changed by a run", form=(n1, n2), got=str(m.erf)[:300])
                    require(all(len(o) == len(arr) for o in observe(kind, m)), "number of values", form=(n1, n2))
                ctx.step()
            ctx.state(kind, case["base"], n1, n2)
            ctx.trace()
            ctx.evaluate(2)
        ctx.sample({"kind": kind, "forms": [n for n, _ in forms]})
    else:
        axis = years(2001, 4)
        scen = run_of([row([1.0, 2.0, 3.0, 4.0], "a"), row([5.0, 6.0, 7.0, np.nan], "b")], axis)
        for w in [(case["first"],)] + [(case["first"], b) for b in OPS]:
            for at in range(len(w) + 1):
                s = Store(kind)
                ctx.at({"kind": kind, "word": w, "run_scenarios after": at})
                ok = True
                for i in range(len(w) + 1):
                    if i == at:
                        out = canon_frame(s.model.run_scenarios(scen, progress=False))
                        key = (kind, "scen", repr(sorted((n, v) for n, v in s.spec.items() if n != "delta_t")))
                        if key not in _FRESH:
                            _FRESH[key] = canon_frame(build(kind, s.spec).run_scenarios(scen, progress=False))
                        require(same_frames(out, _FRESH[key]), "run_scenarios depends on the drivers set before", word=w, at=at)
                        s.spec["delta_t"] = [1.0, "yr"]
                        s.have, s.ready = None, False
                    if i < len(w):
                        if w[i] not in GIVEN and s.have is None and w[i] in ("reset", "step", "run"):
                            ok = False
                            break
                        if not s.apply(w[i], ctx, w):
                            ok = False
                            break
                        if s.have is not None:
                            s.read(w[: i + 1])
                if ok:
                    s.finish(w, ctx)
                    ctx.state(kind, "scenarios", w, at)
                if kind == "ir" and len(w) == 2 and ctx.tier != "thorough":
                    break
        ctx.sample({"kind": kind, "scenarios at every point of words over": OPS})
