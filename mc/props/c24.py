"""C24: convert_lambda_to_ecs"""
import itertools

import numpy as np

from .. import ref, registry
from ..world import CLS, chunked, expect, near, require, ur
from openscm_twolayermodel.utils import convert_lambda_to_ecs

RULE = (
    "all combinations of lambda (16 scalars of both signs over decades, 9 array forms) x unit (9) x f2x (default, 9 values) x unit (8) x "
    "calling form; non-quantities of 12 types in either place; all sequences of 4 calls over 7 kinds of call (a call leaves nothing behind)"
)
BOUNDS = {"quick": "as described", "thorough": "sequences of length 5, array forms with all f2x"}
CONFORMANCE = "expected value from plain floats: -f2x / lambda in W/m^2 and W/m^2/K"
ASSUMPTIONS = ["lambda = 0 has no sensitivity and no verdict"]

LAMBDAS = [-1.1, 1.1, -0.7, -3.74, -1.0, -2.5, 1e-6, -1e-6, -1e6, 0.5, 1 / 3, -1 / 3, -1e-300, 1e300, -123.456, -2]
F2X = [None, 3.74, 3.0, 4.0, -3.7, 1.0, 1e-6, 1e6, 7, 3.45]
LUNITS = list(ref.UNITS["feedback"])
FUNITS = list(ref.UNITS["flux"])
CORE = ("default", "explicit", "array", "bad lambda", "bad f2x", "units", "f2x array")


def arrays():
    """Named array forms of lambda"""
    base = [-1.1, 0.7, -3.74, -2.5, 10.0, -1.0]
    out = [("float64", np.array(base)), ("float32", np.array(base, dtype="float32")), ("int", np.array([-1, 2, -4, 8, 5, 7])),
           ("2d", np.array(base).reshape(2, 3)), ("one", np.array([-1.1])), ("strided", np.array(base + base)[::2]),
           ("fortran", np.asfortranarray(np.array(base).reshape(3, 2)))]
    ro = np.array(base)
    ro.setflags(write=False)
    out.append(("readonly", ro))
    out.append(("long", np.linspace(-5, -0.1, 1000)))
    return out


def cases(tier):
    out = []
    for u in LUNITS:
        for fu in FUNITS:
            out.append({"group": "scalars", "unit": u, "funit": fu})
        out.append({"group": "arrays", "unit": u})
    out.append({"group": "types"})
    for c in chunked(range(len(registry.units("feedback"))), 40):
        out.append({"group": "registry", "kind": "feedback", "idx": c})
    for c in chunked(range(len(registry.units("flux"))), 40):
        out.append({"group": "registry", "kind": "flux", "idx": c})
    n = 5 if tier == "thorough" else 4
    for first in CORE:
        out.append({"group": "sequences", "first": first, "depth": n})
    return out


def kelvin(q, what, **d):
    """Magnitude as a temperature difference"""
    require(q.check("[temperature]"), "result is no temperature", what=what, got=str(q), **d)
    return q.to("delta_degC").magnitude


def call(lam, f2x, form):
    if f2x is None:
        return convert_lambda_to_ecs(lam) if form % 2 == 0 else convert_lambda_to_ecs(lambda_val=lam)
    if form % 3 == 0:
        return convert_lambda_to_ecs(lam, f2x)
    if form % 3 == 1:
        return convert_lambda_to_ecs(lam, f2x=f2x)
    return convert_lambda_to_ecs(f2x=f2x, lambda_val=lam)


def factor(kind, unit):
    """Factor to the base unit"""
    known = ref.UNITS[kind]
    return known[unit] if unit in known else registry.units(kind)[unit]


def check(lam, lu, f2x, fu, form, ctx, rtol=1e-12):
    """One call and its inverse"""
    ql = ur.Quantity(lam, lu)
    qf = None if f2x is None else ur.Quantity(f2x, fu)
    copies = (np.array(lam, copy=True), None if f2x is None else np.array(f2x, copy=True))
    fb = (3.74 if f2x is None else np.asarray(f2x, float) * factor("flux", fu))
    lb = np.asarray(lam, float) * factor("feedback", lu)
    want = -fb / lb
    ctx.at({"lambda": [repr(lam), lu], "f2x": [repr(f2x), fu], "form": form})
    got = call(ql, qf, form)
    k = kelvin(got, "ecs", lam=repr(lam), unit=lu)
    require(near(k, want, rtol), "not minus f2x over lambda", got=repr(k), expected=repr(want), lam=repr(lam), unit=lu, f2x=repr(f2x), f2x_unit=fu)
    require(np.array_equal(copies[0], ql.magnitude) and ql.units == ur.Quantity(1, lu).units, "lambda was changed", got=str(ql))
    if qf is not None:
        require(np.array_equal(copies[1], qf.magnitude) and qf.units == ur.Quantity(1, fu).units, "f2x was changed", got=str(qf))
    if isinstance(lam, np.ndarray):
        require(not np.shares_memory(np.asarray(got.magnitude), lam), "result shares memory with the argument")
        require(np.shape(got.magnitude) == np.broadcast(copies[0], 0 if f2x is None else copies[1]).shape, "shape", got=np.shape(got.magnitude))
    back = call(got, qf, form + 1)
    b = back.to("W/m^2/delta_degC").magnitude
    require(near(b, np.broadcast_to(lb, np.shape(b)), rtol), "applying it twice does not give lambda back", got=repr(b), expected=repr(lb))
    ctx.step(2)
    ctx.evaluate(2)
    ctx.trace()
    ctx.state(repr(lam), lu, repr(f2x), fu)
    ctx.outcome(repr(np.round(np.asarray(k, float), 12)))
    return got


def run(case, ctx):
    group = case["group"]
    if group == "scalars":
        for i, lam in enumerate(LAMBDAS):
            for j, f in enumerate(F2X):
                if f is None and case["funit"] != FUNITS[0]:
                    continue
                if 1e290 < abs(lam) or abs(lam) < 1e-290:
                    if case["unit"] != LUNITS[0] or case["funit"] != FUNITS[0]:
                        continue  # overflow of the conversion
                    if f is not None and abs(f) > 1e5:
                        continue
                for form in range(6):
                    if form % (1 if f is None else 3) == 0 or (i + j) % 2:
                        check(lam, case["unit"], f, case["funit"], form, ctx)
                for conv in (np.float64, np.float32) if -10 < lam < 0 else ():
                    check(conv(lam), case["unit"], f, case["funit"], 1, ctx, rtol=1e-5 if conv is np.float32 else 1e-12)
        ctx.sample({"lambda": [lam, case["unit"]], "f2x": [f, case["funit"]]})
    elif group == "arrays":
        for name, arr in arrays():
            tol = 1e-5 if name == "float32" else 1e-12
            for f, fu in ((None, "W/m^2"), (3.0, "W/m^2"), (3000.0, "mW/m^2"), (-4, "kW/m^2")):
                for form in range(3):
                    check(arr, case["unit"], f, fu, form, ctx, rtol=tol)
            # arrays in both places
            f = np.abs(np.asarray(arr, float)) + 1.0
            check(arr, case["unit"], f, "W/m^2", 0, ctx, rtol=tol)
            if name in ("one", "float64"):
                check(-1.1, case["unit"], np.array([3.0, 3.7, 4.5]), "W/m^2", 1, ctx)
        ctx.sample({"array forms": [n for n, _ in arrays()], "unit": case["unit"]})
    elif group == "types":
        good, gf = ur.Quantity(-1.1, "W/m^2/K"), ur.Quantity(3.7, "W/m^2")
        bad = [1, -1.1, 1.0, "1 W/m^2/K", None, [1.0], (1.0,), np.array([1.0]), np.float64(-1.1), {"a": 1}, True, ur.Unit("W/m^2"), object(), CLS["tl"]]
        for b in bad:
            for form in range(3):
                ctx.at({"not a quantity": repr(b)})
                expect(TypeError, lambda: call(b, None, form), ctx, "lambda is no quantity", value=repr(b))
                expect(TypeError, lambda: call(b, gf, form), ctx, "lambda is no quantity", value=repr(b))
                if b is not None:
                    expect(TypeError, lambda: call(good, b, form), ctx, "f2x is no quantity", value=repr(b))
                    expect(TypeError, lambda: call(b, b, form), ctx, "lambda and f2x are no quantities", value=repr(b))
                ctx.step(4)
                ctx.trace()
            ctx.state("type", repr(type(b)))
            expect(TypeError, lambda: convert_lambda_to_ecs(good, f2x=b), ctx, "f2x is no quantity", value=repr(b))
            ctx.outcome("refused", type(b).__name__)
        ctx.sample({"types": [type(b).__name__ for b in bad]})
    elif group == "registry":
        units = list(registry.units(case["kind"]).items())
        for i in case["idx"]:
            u, fac = units[i]
            if not 1e-30 < fac < 1e30:
                continue
            for v in (1.1, -3.74, 250.0):
                if case["kind"] == "feedback":
                    fu = FUNITS[i % len(FUNITS)]
                    check(v / fac, u, None, "W/m^2", i, ctx, rtol=1e-9)
                    check(v / fac, u, 3.0 / ref.UNITS["flux"][fu], fu, i, ctx, rtol=1e-9)
                    check(np.array([v, 2.0 * v, 1.0]) / fac, u, 3.0 / ref.UNITS["flux"][fu], fu, i, ctx, rtol=1e-9)
                else:
                    lu = LUNITS[i % len(LUNITS)]
                    check(-1.1 / ref.UNITS["feedback"][lu], lu, v / fac, u, i, ctx, rtol=1e-9)
        ctx.sample({"units": [units[i][0] for i in case["idx"]]})
    elif group == "sequences":
        for rest in itertools.product(CORE, repeat=case["depth"] - 1):
            for k, kind in enumerate((case["first"],) + rest):
                ctx.at({"sequence": (case["first"],) + rest, "at": k})
                if kind == "default":
                    check(-1.1, "W/m^2/delta_degC", None, "W/m^2", 0, ctx)
                elif kind == "explicit":
                    check(-1.1, "W/m^2/delta_degC", 3.0, "W/m^2", 1, ctx)
                elif kind == "array":
                    check(np.array([-1.1, -2.0]), "W/m^2/K", None, "W/m^2", 0, ctx)
                elif kind == "f2x array":
                    check(np.array([-1.1, -2.0]), "W/m^2/K", np.array([3.0, 4.0]), "W/m^2", 0, ctx)
                elif kind == "units":
                    check(-1100.0, "mW/m^2/K", 3.74e-3, "kW/m^2", 2, ctx)
                elif kind == "bad lambda":
                    expect(TypeError, lambda: convert_lambda_to_ecs(-1.1), ctx, "lambda is no quantity")
                else:
                    expect(TypeError, lambda: convert_lambda_to_ecs(ur.Quantity(-1.1, "W/m^2/K"), 3.0), ctx, "f2x is no quantity")
            ctx.trace()
        ctx.sample({"sequences from": case["first"], "length": case["depth"]})
