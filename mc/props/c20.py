"""C20: reuse of a model across run_scenarios calls"""
import contextlib
import itertools

import numpy as np

from .. import ref
from ..world import (
    PARAMS, all_same, build, canon_frame, chunked, dt, drive, expect, forcing, observe, q, require, row, run_of, same_frames,
    ur, UnitError, years, months,
)
from . import _dyn
from ._scen import frozen, physical

RULE = (
    "all words over 17 operations on one model (run_scenarios with yearly, monthly, trimmed, single-point and other-variable "
    "data; four kinds of refused run_scenarios; direct run; partial direct run; parameter change; refused parameter change; "
    "timestep change), followed by every kind of run: each output is compared with a new model's, parameters with "
    "the abstract state, and at the end every earlier output with the copy taken when it was returned"
)
BOUNDS = {
    "quick": "all words of length <= 2 over 17 operations (both models) and of length 3 over 7 (two-layer) or 4 (impulse response), each operation 14 times, all operations twice in a row in both orders, 20 calls after a single point; series of 1 to 29 values in turn; each parameter alone changed by 20%, a factor and 1e-9 or written in another unit, pairs with their sum, product or ratio kept",
    "thorough": "all words of length <= 3 over 17 operations and of length 5 over 5, both models",
}
CONFORMANCE = "model state = (parameters); every transition is executed on the real model and its output compared with a new model's"
ASSUMPTIONS = ["outputs of a new model are checked by C01-C03 and C19"]

nan = np.nan
YEARS, MONTHS = years(2001, 4), months(2000, 4, 11)
DATA = {
    "yearly": ([row([3.74, -2.5, 6.0, 1.0], "a"), row([1.0, 2.0, 3.0, 4.0], "b", unit="mW/m^2")], YEARS, {}),
    "monthly": ([row([5.0, -2.0, 1.0, 1.0], "a"), row([0.5, 2.0, 9.0, 4.0], "c")], MONTHS, {}),
    "trimmed": ([row([nan, -2.5, 6.0, nan], "a"), row([1.0, 2.0, nan, nan], "b")], YEARS, {}),
    "point": ([row([2.0], "a")], YEARS[:1], {}),
    "other": ([row([9.0, 9.0, 1.0], "a", variable="RF"), row([1.0, 2.0, 3.0], "a")], YEARS[:3], {"driver_var": "RF"}),
}
BAD = {
    "gap": ([row([3.74, 1.0, 6.0, 1.0], "a"), row([1.0, nan, 3.0, 4.0], "b")], YEARS, (NotImplementedError,)),
    "axis": ([row([1.0, 2.0, 3.0], "a")], [dt.datetime(2001, 1, 1), dt.datetime(2001, 1, 2), dt.datetime(2001, 1, 3)], (NotImplementedError,)),
    "none": ([row([1.0, 2.0, 3.0], "a", region="R5ASIA")], YEARS[:3], (ValueError,)),
    "unit": ([row([3.74, 1.0, 6.0], "a"), row([1.0, 2.0, 3.0], "b", unit="K")], YEARS[:3], (UnitError,)),
}
PARAM_OPS = ("change", "change_all", "reunit", "nudge", "refused", "delta_t")
DIRECT_OPS = ("direct", "partial")
OPS = tuple(DATA) + tuple(BAD) + PARAM_OPS + DIRECT_OPS
CORE = ("yearly", "monthly", "trimmed", "unit", "change", "direct", "delta_t")
CORE_IR = ("yearly", "monthly", "unit", "change")
SMALL = ("yearly", "monthly", "gap", "change_all", "partial")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        ws = [list(w) for n in (1, 2) + ((3,) if deep else ()) for w in itertools.product(OPS, repeat=n)]
        if not deep:
            ws += [list(w) for w in itertools.product(CORE if kind == "tl" else CORE_IR, repeat=3)]
        else:
            ws += [list(w) for w in itertools.product(SMALL, repeat=5)]
        # each parameter on its own
        for n in PARAMS[kind]:
            for how in ("scale", "nudge", "small", "same"):
                op = "only {} {}".format(n, how)
                ws += [["yearly", op], ["monthly", op, "yearly"], [op, "yearly", op], ["direct", op], ["unit", op]]
        # two parameters at once, so that a combination of them stays as it is
        for x, y in TWINS[kind]:
            for how in ("sum", "product", "ratio"):
                op = "both {} {} {}".format(x, y, how)
                ws += [["yearly", op], ["monthly", op, "yearly"], ["direct", op]]
        for c in chunked(ws, 20):
            out.append({"kind": kind, "words": c})
        # long histories
        ws = [[op] * 14 for op in OPS] + [list(OPS) * 2, list(OPS[::-1]) * 2, ["point"] + ["yearly"] * 20, ["point"] + ["monthly"] * 20,
              ["length {}".format(n) for n in range(1, 21)], ["length {}".format(n) for n in range(20, 1, -3)] * 2, ["months {}".format(n) for n in range(2, 30, 3)]]
        for c in chunked(ws, 3):
            out.append({"kind": kind, "words": c})
    return out


TWINS = {
    "tl": [("du", "dl"), ("lambda0", "eta"), ("efficacy", "eta"), ("dl", "eta")],
    "ir": [("d1", "d2"), ("q1", "q2"), ("q1", "d1"), ("q2", "d2"), ("efficacy", "q1")],
}


def data(name):
    """Scenarios of a name: listed, or as many values as the name says"""
    if name in DATA:
        return DATA[name]
    kind, n = name.split()
    n = int(n)
    rows = [row([3.0 * np.sin(1.7 * i + k) + i / 7.0 for i in range(n)], "s{}".format(k)) for k in range(2)]
    return rows, years(1950, n) if kind == "length" else months(1950, n, 5), {}


REUNIT = {
    "tl": {"eta": ("W/m^2/delta_degC", "mW/m^2/delta_degC"), "dl": ("m", "cm"), "efficacy": ("dimensionless", "cm/m")},
    "ir": {"q2": ("delta_degC/(W/m^2)", "mK/(W/m^2)"), "efficacy": ("dimensionless", "cm/m"), "d1": ("yr", "month")},
}


SAME_UNITS = {
    "length": ("m", "cm"), "time": ("yr", "month"), "ratio": ("dimensionless", "cm/m"), "feedback": ("W/m^2/delta_degC", "mW/m^2/K"),
    "feedback2": ("W/m^2/delta_degC^2", "mW/m^2/K^2"), "sens": ("delta_degC/(W/m^2)", "mK/(W/m^2)"),
}


def changed(kind, spec, what):
    """Parameters after a change operation (cycles through three values)"""
    spec = dict(spec)
    if what == "change":
        n = "lambda0" if kind == "tl" else "q2"
        cyc = [[1.1, spec[n][1]], [0.7, spec[n][1]]]
        spec[n] = cyc[1] if spec[n] == cyc[0] else cyc[0]
        return spec, [n]
    if what.startswith("only"):
        _, n, how = what.split()
        if how == "same":
            # the same amount in another unit
            to = [u for u in SAME_UNITS[ref.KIND[n]] if u != spec[n][1]][0]
            spec[n] = [spec[n][0] * ref.UNITS[ref.KIND[n]][spec[n][1]] / ref.UNITS[ref.KIND[n]][to], to]
            return spec, [n]
        factor = {"scale": 0.8, "nudge": 1 - 1e-9, "small": 1e-3}[how]
        if n == "d2":
            factor = {"scale": 0.8, "nudge": 1 - 1e-9, "small": 0.4}[how]
        spec[n] = [spec[n][0] * factor, spec[n][1]]
        return spec, [n]
    if what.startswith("both"):
        _, x, y, how = what.split()
        vx, vy = spec[x][0], spec[y][0]
        vx, vy = {"sum": (vx + 0.125 * vx, vy - 0.125 * vx), "product": (vx * 1.25, vy * 0.8), "ratio": (vx * 1.25, vy * 1.25)}[how]
        spec[x], spec[y] = [vx, spec[x][1]], [vy, spec[y][1]]
        return spec, [x, y]
    if what == "reunit":
        # the same numbers in other units
        for n, units in REUNIT[kind].items():
            spec[n] = [spec[n][0], units[1] if spec[n][1] == units[0] else units[0]]
        return spec, list(REUNIT[kind])
    if what == "nudge":
        for n in PARAMS[kind]:
            spec[n] = [spec[n][0] * (1 + 1e-9), spec[n][1]]
        return spec, list(PARAMS[kind])
    for n in PARAMS[kind]:
        spec[n] = [spec[n][0] * (1.25 if spec[n][0] < 1e4 else 0.1) or 0.01, spec[n][1]]
    return spec, list(PARAMS[kind])


_NEW = {}


def new_output(kind, spec, name):
    """Output of a new model"""
    key = (kind, repr(sorted(spec.items())), name)
    if key not in _NEW:
        if len(_NEW) > 400:
            _NEW.clear()
        rows, axis, kw = data(name)
        s = dict(spec, delta_t=[2.0, "yr"])
        _NEW[key] = canon_frame(build(kind, s).run_scenarios(run_of(rows, axis), progress=False, **kw))
    return _NEW[key]


_INPUT = {}


def data_of(name):
    """Input shared by the calls of one process (runs do not change it: C14)"""
    if name not in _INPUT:
        rows, axis = (BAD[name] if name in BAD else data(name))[:2]
        _INPUT[name] = run_of(rows, axis)
    return _INPUT[name]


def run(case, ctx):
    kind = case["kind"]
    for w in case["words"]:
        spec = dict(_dyn.base_points(kind)[1])
        spec.pop("delta_t")
        m = build(kind, dict(spec, delta_t=[1.0, "day"]))
        kept = []
        for i, op in enumerate(w + ["yearly" if len(w) % 2 else "monthly"]):
            ctx.at({"kind": kind, "word": w, "at": i})
            ctx.step()
            if op in DATA or op.split()[0] in ("length", "months"):
                kw = data(op)[2]
                out = m.run_scenarios(data_of(op), progress=False, **kw)
                got = canon_frame(out)
                want = new_output(kind, spec, op)
                require(same_frames(got, want), "output differs from a new model's", word=w, at=i, got=lambda: str(got)[:1500], expected=lambda: str(want)[:1500])
                kept.append((out, frozen(out), i))
                ctx.evaluate()
            elif op in BAD:
                expect(BAD[op][2], lambda: m.run_scenarios(data_of(op), progress=False), ctx, "run has to be refused", word=w, at=i)
            elif op in ("change", "change_all", "reunit", "nudge") or op.startswith(("only", "both")):
                spec, names = changed(kind, spec, op)
                for n in names:
                    setattr(m, n, q(spec[n]))
            elif op == "refused":
                for n in PARAMS[kind]:
                    expect((UnitError,), lambda: setattr(m, n, ur.Quantity(1.0, "kg")), ctx, "wrong unit")
            elif op == "delta_t":
                m.delta_t = ur.Quantity(7.0, "day")
            elif op == "direct":
                drive(m, np.array([1.0, 5.0, -2.0, 0.5, 3.0]))
            elif op == "partial":
                m.set_drivers(forcing([4.0, 3.0, 2.0]))
                m.reset()
                m.step()
                m.step()
            reads = physical(kind, m)
            want_reads = {n: (q(spec[n]).magnitude, str(q(spec[n]).units)) for n in PARAMS[kind]}
            require(reads == want_reads, "parameters changed", word=w, at=i, got=reads, expected=want_reads)
            ctx.state(kind, sorted(spec.items()), op, i)
        for out, copy, i in kept:
            require(frozen(out) == copy, "an earlier output was altered", word=w, output=i)
        for k, (out, _, i) in enumerate(kept):
            # each output belongs to the caller alone
            out["scenario"] = ["renamed {}".format(j) for j in range(len(out.meta))]
            out["remark"] = "changed"
            with contextlib.suppress(Exception):
                out._df.iloc[:, :] = -1e9  # pylint: disable=protected-access
            for other, copy, j in kept[k + 1 :]:
                require(frozen(other) == copy, "changing one output altered another one", word=w, changed=i, output=j)
        ctx.trace()
        ctx.outcome(kind, tuple(w))
    ctx.sample({"kind": kind, "word": w})
