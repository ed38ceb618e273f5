"""C13: recovery after a fault at every point"""
import numpy as np

from .. import sched
from ..engine import Violation
from ..world import (
    CLS, DEFAULTS, PARAMS, all_same, build, by_series, canon_frame, drive, expect, forcing, observe, q, require, row,
    run_of, same, same_frames, ur, UnitError, years, months,
)
from . import _dyn
from ._scen import frozen, physical

LEVEL = "fault_enumeration"
RULE = (
    "an exception (KeyboardInterrupt, RuntimeError) is raised before every executed line of the package "
    "(each visit for direct runs, assignments, conversions; for run_scenarios first and last visit of each line in the quick "
    "tier), one fault per execution; then parameters, caller data and the recovered results are compared "
    "with an untouched twin. Natural faults: a bad scenario at every position of a set. A case is "
    "non-trivial when the fault actually struck"
)
BOUNDS = {
    "quick": "all fault points of 11 operations x 2 exceptions x 2 models x 2 parameter sets; the same point struck up to 9 times in a row; representative points of run_scenarios",
    "thorough": "all points of run_scenarios, and all pairs of faults (second during recovery) for direct runs",
}
CONFORMANCE = "faults are injected into the real code"
ASSUMPTIONS = ["faults strike between lines of the package (what a library call leaves half done is the library's)"]

F = [3.74, -2.5, 6.0]
G = [1.0, 2.0]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}
DIRECT_OPS = ("run", "drive", "step", "reset", "set_drivers")
OTHER_OPS = ("assign", "convert", "construct")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("tl", "ir"):
        for b in (1, 0):
            for op in DIRECT_OPS:
                for e in EXC:
                    out.append({"group": "direct", "kind": kind, "base": b, "op": op, "exc": e})
                out.append({"group": "repeat", "kind": kind, "base": b, "op": op})
            for op in OTHER_OPS:
                out.append({"group": "other", "kind": kind, "base": b, "op": op, "exc": "KeyboardInterrupt"})
        for axis in ("yearly", "monthly"):
            for bad in ("gap", "unit", "axis", "none", "step"):
                out.append({"group": "bad", "kind": kind, "base": 1, "axis": axis, "bad": bad})
        parts = 16
        for e in EXC:
            for rec in ("again", "direct"):
                if not deep and (e == "RuntimeError", rec == "direct", kind == "ir").count(True) > 1:
                    continue
                for p in range(parts):
                    out.append({"group": "scen", "kind": kind, "base": 1, "exc": e, "rec": rec, "part": p, "parts": parts})
        for p in range(parts):
            out.append({"group": "scen", "kind": kind, "base": 1, "exc": "KeyboardInterrupt", "rec": "again", "part": p, "parts": parts, "times": 3})
        if deep:
            for op in ("run", "drive"):
                for p in range(16):
                    out.append({"group": "double", "kind": kind, "base": 1, "op": op, "part": p, "parts": 16})
    return out


_W = {}


def twin(kind, spec, FF):
    key = (kind, repr(spec), tuple(FF))
    if key not in _W:
        _W[key] = observe(kind, drive(build(kind, spec), FF))
    return _W[key]


def prepared(kind, spec, op):
    """(model, operation) with the model brought to where the operation starts"""
    m = build(kind, spec)
    f = forcing(F)
    if op == "drive":
        def go():
            m.set_drivers(f)
            m.reset()
            m.run()
    elif op == "run":
        m.set_drivers(f)
        m.reset()
        go = m.run
    elif op == "step":
        m.set_drivers(f)
        m.reset()
        m.step()
        go = m.step
    elif op == "reset":
        drive(m, G)
        go = m.reset
    else:
        drive(m, G)

        def go():
            m.set_drivers(f)
    return m, go, f


def struck(res, exc, what):
    """The injected exception has to reach the caller"""
    kind_of, line = res
    if kind_of == "same":
        return line
    if isinstance(kind_of, tuple):
        raise Violation("a failure inside {} was swallowed".format(what), line=line)
    # another exception took its place: still a failure the caller sees
    return line


def recover(kind, m, spec, f, before, line, ctx, what):
    names = list(DEFAULTS[kind])
    after = {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in names}
    require(after == before, "parameters changed by an interrupted {}".format(what), line=line, before=before, after=after)
    require(same(f.magnitude, np.array(F)), "drivers changed by an interrupted {}".format(what), line=line)
    for FF, fq in ((F, f), (G, forcing(G)), (F, forcing(F))):
        m.set_drivers(fq)
        m.reset()
        for o in observe(kind, m):
            require(len(o) == len(FF) and np.isnan(o).all(), "reset after an interrupted {} leaves results".format(what), line=line)
        m.run()
        require(all_same(observe(kind, m), twin(kind, spec, FF)), "results after an interrupted {} differ".format(what),
                line=line, got=[g.tolist() for g in observe(kind, m)], expected=[g.tolist() for g in twin(kind, spec, FF)])
    ctx.trace()


def readings(kind, m):
    return {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in DEFAULTS[kind]}


def run(case, ctx):
    kind = case["kind"]
    spec = _dyn.base_points(kind)[case["base"]]
    if case["group"] == "direct":
        op = case["op"]
        m, go, f = prepared(kind, spec, op)
        n = len(sched.count_points(go))
        for p in range(n):
            m, go, f = prepared(kind, spec, op)
            before = readings(kind, m)
            exc = EXC[case["exc"]]("injected")
            ctx.at({"kind": kind, "operation": op, "fault": case["exc"], "point": p})
            line = struck(sched.fault_at(go, p, exc), exc, op)
            ctx.step()
            ctx.state(kind, case["base"], op, p)
            ctx.outcome(kind, op, line)
            recover(kind, m, spec, f, before, line, ctx, op)
            ctx.evaluate()
        ctx.sample({"kind": kind, "operation": op, "points": n, "exception": case["exc"]})
    elif case["group"] == "repeat":
        # interrupted several times in a row, on the same model
        op = case["op"]
        m, go, f = prepared(kind, spec, op)
        n = len(sched.count_points(go))
        for times in (2, 3, 5, 9):
            for p in range(n):
                m, go, f = prepared(kind, spec, op)
                before = readings(kind, m)
                for _ in range(times):
                    exc = KeyboardInterrupt("injected")
                    ctx.at({"kind": kind, "operation": op, "point": p, "times": times})
                    m.set_drivers(f)
                    m.reset()
                    if op == "step":
                        m.step()
                    res = sched.fault_at(go, p, exc)
                    if res[1] is not None:
                        struck(res, exc, op)
                    ctx.step()
                ctx.state(kind, case["base"], op, p, times)
                recover(kind, m, spec, f, before, res[1], ctx, op)
                ctx.evaluate()
        ctx.sample({"kind": kind, "operation": op, "points": n, "times": times})
    elif case["group"] == "double":
        op = case["op"]
        m, go, f = prepared(kind, spec, op)
        n = len(sched.count_points(go))
        for p in range(case["part"], n, case["parts"]):
            for r in range(n):
                m, go, f = prepared(kind, spec, op)
                before = readings(kind, m)
                e1, e2 = KeyboardInterrupt("first"), RuntimeError("second")
                ctx.at({"kind": kind, "operation": op, "points": [p, r]})
                struck(sched.fault_at(go, p, e1), e1, op)

                def again():
                    m.set_drivers(forcing(F))
                    m.reset()
                    m.run()

                res = sched.fault_at(again, r, e2)
                if res[1] is not None:
                    struck(res, e2, "recovery")
                ctx.step(2)
                ctx.state(kind, op, p, r)
                recover(kind, m, spec, f, before, res[1], ctx, op)
                ctx.evaluate()
        ctx.sample({"kind": kind, "operation": op, "pairs": n * n})
    elif case["group"] == "other":
        other(kind, spec, case, ctx)
    elif case["group"] == "bad":
        bad_sets(kind, spec, case, ctx)
    else:
        scen(kind, spec, case, ctx)


def other(kind, spec, case, ctx):
    op = case["op"]
    alt = _dyn.base_points(kind)[2]
    if op == "assign":
        for name in DEFAULTS[kind]:
            m = build(kind, spec)
            n = len(sched.count_points(lambda: setattr(m, name, q(alt[name]))))
            for p in range(n):
                m = drive(build(kind, spec), G)
                before = readings(kind, m)
                exc = KeyboardInterrupt("injected")
                ctx.at({"kind": kind, "assign": name, "point": p})
                line = struck(sched.fault_at(lambda: setattr(m, name, q(alt[name])), p, exc), exc, "assignment")
                for k, v in readings(kind, m).items():
                    require(k == name or v == before[k], "interrupted assignment changed another parameter",
                            assigned=name, changed=k, line=line)
                # assigning again, to either value, makes the model whole
                for s in (dict(spec, **{name: alt[name]}), spec):
                    setattr(m, name, q(s[name]))
                    drive(m, F)
                    require(all_same(observe(kind, m), twin(kind, s, F)), "model inconsistent after interrupted assignment",
                            assigned=name, line=line)
                ctx.step()
                ctx.state(kind, "assign", name, p)
                ctx.outcome(kind, "assign", line)
                ctx.trace()
                ctx.evaluate()
        ctx.sample({"kind": kind, "assign": name, "points": n})
        return
    if op == "convert":
        s = dict(spec)
        if kind == "tl":
            s["a"] = [0.0, s["a"][1]]

        def conv(m):
            return m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()

        m = build(kind, s)
        want = {k: repr(v) for k, v in conv(m).items()}
        n = len(sched.count_points(lambda: conv(m)))
        for p in range(n):
            m = build(kind, s)
            m.set_drivers(forcing(F))
            m.reset()
            m.step()
            before = readings(kind, m)
            exc = KeyboardInterrupt("injected")
            ctx.at({"kind": kind, "convert": p})
            line = struck(sched.fault_at(lambda: conv(m), p, exc), exc, "conversion")
            require(readings(kind, m) == before, "interrupted conversion changed a parameter", line=line)
            require({k: repr(v) for k, v in conv(m).items()} == want, "conversion after an interrupted one differs", line=line)
            m.step(), m.step()
            require(all_same(observe(kind, m), twin(kind, s, F)), "run differs after interrupted conversion", line=line)
            ctx.step()
            ctx.state(kind, "convert", p)
            ctx.outcome(kind, "convert", line)
            ctx.trace()
            ctx.evaluate()
        ctx.sample({"kind": kind, "conversion points": n})
        return
    base = readings(kind, CLS[kind]())
    n = len(sched.count_points(lambda: build(kind, alt)))
    for p in range(n):
        exc = KeyboardInterrupt("injected")
        ctx.at({"kind": kind, "construct": p})
        line = struck(sched.fault_at(lambda: build(kind, alt), p, exc), exc, "construction")
        require(readings(kind, CLS[kind]()) == base, "interrupted construction changed defaults", line=line)
        require(all_same(observe(kind, drive(build(kind, spec), F)), twin(kind, spec, F)), "other models changed", line=line)
        ctx.step()
        ctx.state(kind, "construct", p)
        ctx.outcome(kind, "construct", line)
        ctx.trace()
        ctx.evaluate()
    ctx.sample({"kind": kind, "construction points": n})


def scenario_set(axis="yearly"):
    nan = np.nan
    return run_of(
        [row([3.74, -2.5, 6.0, 1.0], "a"), row([1.0, 2.0, nan, nan], "b", unit="mW/m^2")],
        years(2001, 4) if axis == "yearly" else months(2001, 4, 11),
    )


def scen(kind, spec, case, ctx):
    data = scenario_set()
    m = build(kind, spec)
    want = canon_frame(m.run_scenarios(scenario_set(), progress=False))
    other_set = scenario_set("monthly")
    want_other = canon_frame(build(kind, spec).run_scenarios(other_set, progress=False))
    lines = sched.count_points(lambda: m.run_scenarios(data, progress=False))
    if ctx.tier == "thorough":
        pts = list(range(len(lines)))
    else:
        first, last = {}, {}
        for i, ln in enumerate(lines):
            first.setdefault(ln, i)
            last[ln] = i
        pts = sorted(set(first.values()) | (set(last.values()) if case.get("times", 1) == 1 else set()))
    pts = pts[case["part"] :: case["parts"]]
    f0 = frozen(data)
    for p in pts:
        m = build(kind, spec)
        before = physical(kind, m)
        exc = EXC[case["exc"]]("injected")
        ctx.at({"kind": kind, "run_scenarios fault": case["exc"], "point": p, "line": lines[p], "times": case.get("times", 1)})
        for _ in range(case.get("times", 1) - 1):
            again = EXC[case["exc"]]("injected")
            res = sched.fault_at(lambda: m.run_scenarios(data, progress=False), p, again)
            if res[1] is not None:
                struck(res, again, "run_scenarios")
        line = struck(sched.fault_at(lambda: m.run_scenarios(data, progress=False), p, exc), exc, "run_scenarios")
        require(physical(kind, m) == before, "parameters changed by interrupted run_scenarios", line=line,
                before=before, after=physical(kind, m))
        require(frozen(data) == f0, "caller's scenarios changed by interrupted run_scenarios", line=line)
        if case["rec"] == "again":
            require(same_frames(canon_frame(m.run_scenarios(data, progress=False)), want),
                    "run_scenarios after an interrupted one differs", line=line)
            if p % 4 == 0 or ctx.tier == "thorough":
                require(same_frames(canon_frame(m.run_scenarios(other_set, progress=False)), want_other),
                        "run_scenarios (monthly) after an interrupted one differs", line=line)
        else:
            m.delta_t = q(spec["delta_t"])
            drive(m, F)
            require(all_same(observe(kind, m), twin(kind, spec, F)), "direct run after interrupted run_scenarios differs", line=line)
        ctx.step()
        ctx.state(kind, "scen", p, case["rec"])
        ctx.outcome(kind, "scen", line)
        ctx.trace()
        ctx.evaluate()
    ctx.sample({"kind": kind, "run_scenarios points": len(lines), "explored here": len(pts)})


def bad_sets(kind, spec, case, ctx):
    """One bad scenario at every position of a set"""
    nan = np.nan
    axis = years(2001, 4) if case["axis"] == "yearly" else months(2001, 4, 11)
    good = [[3.74, -2.5, 6.0, 1.0], [1.0, 2.0, 3.0, 4.0], [0.5, 0.5, nan, nan]]
    want = canon_frame(build(kind, spec).run_scenarios(run_of([row(g, "g{}".format(i)) for i, g in enumerate(good)], axis), progress=False))
    for pos in range(4):
        names = ["g0", "g1", "g2"]
        rows = [row(g, "g{}".format(i)) for i, g in enumerate(good)]
        use, exc, var = list(axis), NotImplementedError, None
        label = "{}x{}".format("abcd"[pos] if pos < 3 else "z", pos)
        # order of running follows the scenario labels
        badname = ["a", "g0x", "g1x", "z"][pos]
        if case["bad"] == "gap":
            rows.insert(pos, row([1.0, nan, 2.0, 3.0], badname))
        elif case["bad"] == "unit":
            rows.insert(pos, row([1.0, 1.0, 2.0, 3.0], badname, unit="K"))
            exc = UnitError
        elif case["bad"] == "axis":
            use[-1] = use[-1].replace(year=use[-1].year + 9)
        elif case["bad"] == "step":
            extra = (months if case["axis"] == "yearly" else years)(2030, 4)
            use = list(axis) + extra
            for r in rows:
                r["values"] = r["values"] + [nan] * 4
            rows.insert(pos, row([nan] * 4 + [1.0, 2.0, 3.0, 4.0], badname))
        else:
            exc, var = ValueError, "Effective Radiative Forcing|CO2"
        bad = run_of(rows, use)
        f0 = frozen(bad)
        m = build(kind, spec)
        before = physical(kind, m)
        ctx.at({"kind": kind, "bad scenario": case["bad"], "position": pos, "axis": case["axis"]})
        for times in range(2):
            kw = {"progress": False}
            if var:
                kw["driver_var"] = var
            expect(exc, lambda: m.run_scenarios(bad, **kw), ctx, "set with a bad scenario ({})".format(case["bad"]))
            require(physical(kind, m) == before, "parameters changed by a refused set", bad=case["bad"], position=pos)
            require(frozen(bad) == f0, "caller's scenarios changed by a refused set", bad=case["bad"], position=pos)
            ctx.step()
        good_set = run_of([row(g, "g{}".format(i)) for i, g in enumerate(good)], axis)
        require(same_frames(canon_frame(m.run_scenarios(good_set, progress=False)), want), "results after a refused set differ",
                bad=case["bad"], position=pos)
        m.delta_t = q(spec["delta_t"])
        drive(m, F)
        require(all_same(observe(kind, m), twin(kind, spec, F)), "direct run after a refused set differs", bad=case["bad"])
        ctx.state(kind, case["axis"], case["bad"], pos)
        ctx.outcome(kind, case["bad"], pos)
        ctx.trace()
    ctx.sample({"kind": kind, "bad": case["bad"], "positions": 4})
