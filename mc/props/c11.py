"""C11: driver guards"""
import itertools

import numpy as np

from ..world import (
    DEFAULTS, ModelStateError, UnitError, all_same, build, drive, expect, forcing, observe, require, same, ur,
)
from . import _dyn

RULE = (
    "every NaN mask of every length up to the bound (two array types, three units) and every array shape up to "
    "3 dimensions, offered to a new model, a driven model, a partly run model and a finished model; the "
    "verdict of set_drivers and reset is compared with the rule, and the previous drivers with a twin; "
    "all sequences of good, incomplete, wrongly shaped and wrongly typed drivers up to the depth"
)
BOUNDS = {
    "quick": "all masks of length <= 7 and single NaN in lengths to 64 (every place) and 255 to 10001 (around the powers of two and ten); sequences of length <= 4 over 8 driver kinds",
    "thorough": "all masks of length <= 10, sequences of length <= 5",
}
CONFORMANCE = "every abstract verdict is replayed on both real models"
ASSUMPTIONS = ["infinite drivers are complete (not missing)"]

POINTS = ("new", "driven", "reset", "partial", "run", "failed")
GOOD = [3.74, -2.5, 1.0]


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for p in POINTS:
            out.append({"group": "unset", "kind": kind, "point": p})
            out.append({"group": "shapes", "kind": kind, "point": p})
        for n in range(1, (10 if tier == "thorough" else 7) + 1):
            for p in POINTS:
                out.append({"group": "masks", "kind": kind, "n": n, "point": p})
        out.append({"group": "long", "kind": kind})
        for first in range(len(SEQ)):
            out.append({"group": "seq", "kind": kind, "first": first, "depth": 5 if tier == "thorough" else 4})
    return out


def advance(kind, point):
    m = build(kind, _dyn.base_points(kind)[1])
    if point == "new":
        return m
    if point == "failed":
        try:
            m.reset()
        except ValueError:
            pass
        return m
    m.set_drivers(forcing(GOOD))
    if point == "driven":
        return m
    m.reset()
    if point == "partial":
        m.step(), m.step()
    if point == "run":
        m.run()
    return m


_W = {}


def want(kind, F):
    key = (kind, repr(list(F)))
    if key not in _W:
        _W[key] = observe(kind, drive(build(kind, _dyn.base_points(kind)[1]), F))
    return _W[key]


def refuse_reset(m, what, ctx):
    exc = expect(ModelStateError, m.reset, ctx, what)
    require(isinstance(exc, ValueError), "ModelStateError is no ValueError")


def previous_intact(kind, m, point, what, ctx):
    """The drivers set before still apply"""
    if point in ("new", "failed"):
        refuse_reset(m, what + ", then reset of a model without drivers", ctx)
        return
    require(same(m.erf.magnitude, np.array(GOOD)), "previous drivers lost", after=what)
    m.reset()
    m.run()
    require(all_same(observe(kind, m), want(kind, GOOD)), "previous drivers give other results", after=what)
    ctx.trace()


def mask_check(kind, point, vals, unit, ctx):
    nan = bool(np.isnan(vals).any())
    m = advance(kind, point)
    ctx.at({"kind": kind, "point": point, "drivers": [None if v != v else float(v) for v in vals], "unit": unit})
    m.set_drivers(ur.Quantity(vals, unit))
    ctx.step()
    if nan:
        refuse_reset(m, "reset with incomplete drivers", ctx)
        refuse_reset(m, "second reset with incomplete drivers", ctx)
        good = np.where(np.isnan(vals), 1.5, vals).astype(float)
        m.set_drivers(ur.Quantity(good, "W/m^2"))
        m.reset()
        m.run()
        require(all_same(observe(kind, m), want(kind, good)), "refused drivers influence later run")
    else:
        m.reset()
        for o in observe(kind, m):
            require(len(o) == len(vals) and np.isnan(o).all(), "reset does not clear results", got=o.tolist())
        m.run()
        f = {"W/m^2": 1.0, "mW/m^2": 1e-3, "kW/m^2": 1e3}[unit]
        if f == 1.0:
            require(all_same(observe(kind, m), want(kind, np.asarray(vals, float))), "accepted drivers give other results")
    ctx.evaluate()
    ctx.state(kind, point, repr(list(vals)), unit)
    ctx.trace()
    ctx.outcome(nan, len(vals))


BIG = (255, 751, 1000, 1025, 4097, 10001)
SHAPES = [(), (0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (0, 3), (3, 0), (1, 1, 1), (2, 1, 3), (1, 1, 1, 1)]
SEQ = ["good", "other", "nan", "allnan", "2d", "scalar", "unit", "plain"]


def give(m, op, ctx):
    """set_drivers with the kind of drivers; returns the new abstract drivers or None when refused"""
    if op == "good":
        m.set_drivers(forcing(GOOD))
        return GOOD
    if op == "other":
        m.set_drivers(ur.Quantity(np.array([5, 6], dtype=int), "W/m^2"))
        return [5, 6]
    if op == "nan":
        v = np.array([1.0, np.nan, 2.0])
        m.set_drivers(forcing(v))
        return "nan"
    if op == "allnan":
        m.set_drivers(forcing([np.nan]))
        return "nan"
    if op == "2d":
        expect(AssertionError, lambda: m.set_drivers(forcing(np.ones((2, 2)))), ctx, "two-dimensional drivers")
    if op == "scalar":
        expect(AssertionError, lambda: m.set_drivers(ur.Quantity(3.0, "W/m^2")), ctx, "scalar drivers")
    if op == "unit":
        expect(UnitError, lambda: m.set_drivers(ur.Quantity(np.ones(2), "K")), ctx, "drivers in K")
    if op == "plain":
        expect(TypeError, lambda: m.set_drivers(np.ones(2)), ctx, "drivers without unit")
    return None


def run(case, ctx):
    kind, g = case["kind"], case["group"]
    if g == "unset":
        p = case["point"]
        m = advance(kind, p)
        if p in ("new", "failed"):
            for _ in range(3):
                refuse_reset(m, "reset of a model without drivers", ctx)
            drive(m, GOOD)
            require(all_same(observe(kind, m), want(kind, GOOD)), "results after refused reset")
        else:
            for _ in range(3):
                m.reset()
                m.run()
                require(all_same(observe(kind, m), want(kind, GOOD)), "results after repeated reset")
        ctx.state(kind, p)
        ctx.trace()
        ctx.sample({"kind": kind, "reset": p})
    elif g == "shapes":
        p = case["point"]
        for shape in SHAPES:
            for fill in (1.0, np.nan):
                for unit, plain in (("W/m^2", False), ("mW/m^2", False), (None, True)):
                    arr = np.full(shape, fill)
                    v = arr if plain else ur.Quantity(arr, unit)
                    m = advance(kind, p)
                    what = "drivers of shape {} {}".format(shape, unit)
                    ctx.at({"kind": kind, "point": p, "shape": shape, "fill": repr(fill), "unit": unit})
                    expect(AssertionError, lambda: m.set_drivers(v), ctx, what)
                    previous_intact(kind, m, p, what, ctx)
                    ctx.step()
                    ctx.state(kind, p, shape, repr(fill), unit)
        for v in (ur.Quantity(3.0, "W/m^2"), ur.Quantity(3, "W/m^2")):
            m = advance(kind, p)
            ctx.at({"kind": kind, "point": p, "scalar": str(v)})
            expect(AssertionError, lambda: m.set_drivers(v), ctx, "scalar drivers")
            previous_intact(kind, m, p, "scalar drivers", ctx)
            ctx.step()
        for v, exc in ((np.ones(3), TypeError), ([1.0, 2.0], TypeError), (ur.Quantity(np.ones(3), "K"), UnitError),
                       (ur.Quantity(np.ones(3), "W"), UnitError), (ur.Quantity(np.full(3, np.nan), "m"), UnitError)):
            m = advance(kind, p)
            ctx.at({"kind": kind, "point": p, "bad": repr(v)})
            expect(exc, lambda: m.set_drivers(v), ctx, "bad drivers {!r}".format(v))
            previous_intact(kind, m, p, "bad drivers", ctx)
            ctx.step()
        # one-dimensional of any length is fine
        for n in (0, 1, 2, 50):
            m = advance(kind, p)
            ctx.at({"kind": kind, "point": p, "length": n})
            drive(m, np.ones(n))
            require(all(len(o) == n for o in observe(kind, m)), "number of results", n=n)
            require(all_same(observe(kind, m), want(kind, np.ones(n))), "results", n=n)
            ctx.trace()
        ctx.sample({"kind": kind, "point": p, "shapes": SHAPES})
    elif g == "masks":
        n = case["n"]
        for bits in itertools.product((0, 1), repeat=n):
            vals = np.array([np.nan if b else 1.0 + 0.25 * i for i, b in enumerate(bits)])
            mask_check(kind, case["point"], vals, "W/m^2", ctx)
            if n <= 4:
                mask_check(kind, case["point"], vals, "mW/m^2", ctx)
                mask_check(kind, case["point"], vals, "kW/m^2", ctx)
                mask_check(kind, case["point"], vals.astype("float32"), "mW/m^2", ctx)
        for bad in (np.inf, -np.inf):
            vals = np.array([1.0] * n)
            vals[-1] = bad
            mask_check(kind, case["point"], vals, "W/m^2", ctx)
            vals[0] = -bad  # both infinities: complete
            mask_check(kind, case["point"], vals, "W/m^2", ctx)
        ctx.sample({"kind": kind, "length": n, "point": case["point"], "masks": 2 ** n})
    elif g == "long":
        for n in (16, 33, 64) if ctx.tier == "quick" else (16, 33, 64, 128, 256):
            for i in range(n):
                vals = np.linspace(0.5, 3.0, n)
                vals[i] = np.nan
                m = build(kind, _dyn.base_points(kind)[1])
                ctx.at({"kind": kind, "length": n, "NaN at": i})
                m.set_drivers(forcing(vals))
                refuse_reset(m, "reset with incomplete drivers", ctx)
                ctx.step()
                ctx.state(kind, n, i)
            ctx.trace()
        # far into long drivers
        for n in BIG + ((100000,) if ctx.tier == "thorough" else ()):
            at = {0, 1, n // 2, n - 2, n - 1}
            at |= {x + d for e in range(5, 18) for x in (2 ** e, 10 ** (e // 4), n - 2 ** e) for d in (-1, 0, 1) if 0 <= x + d < n}
            vals = np.linspace(0.5, 3.0, n)
            m = build(kind, _dyn.base_points(kind)[1])
            for i in sorted(at):
                v = vals.copy()
                v[i] = np.nan
                ctx.at({"kind": kind, "length": n, "NaN at": i})
                m.set_drivers(forcing(v))
                refuse_reset(m, "reset with incomplete drivers", ctx)
                ctx.step()
                ctx.state(kind, n, i)
            m.set_drivers(forcing(vals))
            m.reset()
            require(all(len(o) == n and np.isnan(o).all() for o in observe(kind, m)), "reset does not clear results")
            ctx.trace()
        ctx.sample({"kind": kind, "single NaN in": n})
    else:
        stack = [[SEQ[case["first"]]]]
        while stack:
            h = stack.pop()
            m = build(kind, _dyn.base_points(kind)[1])
            cur = None
            ctx.at({"kind": kind, "history": h})
            for op in h:
                new = give(m, op, ctx)
                cur = new if new is not None else cur
                ctx.step()
            if cur is None or isinstance(cur, str):
                refuse_reset(m, "reset after {}".format(h), ctx)
            else:
                m.reset()
                m.run()
                require(all_same(observe(kind, m), want(kind, np.array(cur, float))), "results after history", history=h)
            ctx.state(kind, tuple(h))
            ctx.trace()
            if len(h) < case["depth"]:
                stack += [h + [o] for o in SEQ]
        ctx.sample({"kind": kind, "history": h})
