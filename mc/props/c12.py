"""C12: instance isolation"""
import itertools
import json
import os

import numpy as np

from .. import ref, sched, spaces
from ..engine import Violation
from ..world import (
    CLS, DEFAULTS, PARAMS, all_same, build, drive, forcing, in_unit, observe, q, require, row, run_of, same, ur, years, months,
)
from . import _dyn

RULE = (
    "operation level: all interleavings of the operation sequences of two (and three) instances, every "
    "combination of classes; thread level: all schedules of two threads with up to the stated number of "
    "preemptions, a preemption being possible before every executed line of the package; each "
    "instance's readings and results compared with its solo run; all ordered pairs of instances that "
    "differ in one parameter (same number in another unit, same amount, close values), the first alive or "
    "deleted, each compared with the reference system, and exactly with what the only model of a new process does; aliasing of handed-out objects"
)
BOUNDS = {
    "quick": "op level: two instances x 7 operations (all C(14,7) interleavings of 2 pairs, 2 preemptions for others) and three x 3; series of 7 to 266 values in interleaved blocks; threads: all schedules with <= 1 preemption for construct-configure-3-step programs; <= 1 preemption at the first visit of every line for run_scenarios; <= 2 preemptions at the first visits of every line of 2-step runs",
    "thorough": "2 preemptions at every point of 3-step programs, 1 at every point of run_scenarios, three threads with 3 preemptions",
}
CONFORMANCE = "every schedule is executed on the real code under a scheduler that controls each switch"
ASSUMPTIONS = [
    "switches happen at line granularity inside the package; library calls (numpy, pint, pandas) are atomic",
]

CONF = {
    # kind, spec changes, drivers
    "tlA": ("tl", {}, [3.74, -2.5, 6.0]),
    "tlB": ("tl", {"lambda0": [0.8, "W/m^2/K"], "dl": [0.3, "km"], "efficacy": [1.3, "dimensionless"],
                   "delta_t": [1.0, "month"]}, [1.0, 8.0, 2.0, 0.5]),
    "irA": ("ir", {}, [3.74, -2.5, 6.0]),
    "irB": ("ir", {"q2": [0.2, "K*m^2/W"], "d2": [50.0, "yr"], "efficacy": [1.3, "dimensionless"],
                   "delta_t": [1.0, "yr"]}, [1.0, 8.0, 2.0, 0.5]),
}
PAIRS = [("tlA", "tlB"), ("irA", "irB"), ("tlB", "irB"), ("tlA", "tlA"), ("irB", "irB"), ("tlB", "tlA"), ("irB", "irA")]


def program(name, steps=None):
    """The operations of one instance"""
    kind, change, F = CONF[name]
    F = F if steps is None else F[:steps]
    box = {}

    def create():
        box["m"] = CLS[kind]()

    def configure():
        for k, v in change.items():
            setattr(box["m"], k, q(v))

    def drivers():
        box["m"].set_drivers(forcing(F))

    ops = [create, configure, drivers, lambda: box["m"].reset()]
    ops += [lambda: box["m"].step() for _ in F]
    return kind, box, ops


def result(kind, box):
    m = box["m"]
    read = {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in DEFAULTS[kind]}
    return read, observe(kind, m)


_SOLO = {}


def solo(name, steps=None):
    key = (name, steps)
    if key not in _SOLO:
        kind, box, ops = program(name, steps)
        for o in ops:
            o()
        _SOLO[key] = result(kind, box)
    return _SOLO[key]


def compare(name, got, want, what):
    require(got[0] == want[0], "another instance changed parameter readings", instance=name, schedule=what,
            got=got[0], expected=want[0])
    require(all_same(got[1], want[1]), "another instance changed results", instance=name, schedule=what,
            got=[g.tolist() for g in got[1]], expected=[w.tolist() for w in want[1]])


_ALONE = {}


def alone(kind, spec):
    """Results and converted parameters of a model which is the only one of its process"""
    out_fd, in_fd = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(out_fd)
            with os.fdopen(in_fd, "wb") as f:
                f.write(json.dumps(bits(kind, spec, drive(build(kind, spec), CROSS_F))).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(in_fd)
    with os.fdopen(out_fd, "rb") as f:
        data = f.read()
    if os.waitpid(pid, 0)[1]:
        return None
    return json.loads(data)


def bits(kind, spec, m):
    """Results, heat capacities and converted parameters, to be compared exactly"""
    out = [[repr(float(x)) for x in o] for o in observe(kind, m)]
    if kind == "tl":
        out.append([str(m.heat_capacity_upper), str(m.heat_capacity_lower)])
    if kind == "ir" or not spec["a"][0]:
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
        out.append([[k, repr(v.magnitude), str(v.units)] for k, v in sorted(p.items())])
    return out


def setup():
    # before anything else is run here
    for kind in ("tl", "ir"):
        for name in DEFAULTS[kind]:
            for v in cross_values(kind, name):
                _ALONE[(kind, name, repr(v))] = alone(kind, dict(cross_base(kind, name), **{name: v}))
    for n in CONF:
        for s in (None, 1, 2, 3):
            solo(n, s)
    for n in CONF:
        scen_solo(n)


def scen_prog(name):
    kind, change, F = CONF[name]
    axis = years(2000, len(F)) if name.endswith("A") else months(2001, len(F), 11)

    def go():
        m = CLS[kind]()
        for k, v in change.items():
            setattr(m, k, q(v))
        return m.run_scenarios(run_of([row(F, name)], axis), progress=False).timeseries().values

    return go


def scen_solo(name):
    if ("scen", name) not in _SOLO:
        _SOLO[("scen", name)] = scen_prog(name)()
    return _SOLO[("scen", name)]


def cases(tier):
    deep = tier == "thorough"
    out = [{"group": "alias", "kind": k, "n": i} for k in ("tl", "ir") for i in range(len(PARAMS[k]) + 1)]
    out += [{"group": "defaults", "kind": k} for k in ("tl", "ir")]
    for name in dict.fromkeys(list(DEFAULTS["tl"]) + list(DEFAULTS["ir"]) + ["erf"]):
        out.append({"group": "shared", "name": name})
    for kind in ("tl", "ir"):
        for name in DEFAULTS[kind]:
            for mode in ("alive", "deleted"):
                out.append({"group": "cross", "kind": kind, "name": name, "mode": mode})
    for p in range(len(PAIRS)):
        full = deep or p in (0, 2)
        for s in range(6):
            out.append({"group": "ops", "pair": p, "part": s, "full": full})
    trios = [("tlA", "tlB", "irB"), ("irB", "irA", "tlB"), ("tlA", "tlA", "tlB"), ("irB", "irB", "irA")]
    for t in itertools.product(("tlA", "tlB", "irB"), repeat=3) if deep else trios:
        out.append({"group": "ops3", "trio": list(t)})
    out.append({"group": "many"})
    for p in range(len(PAIRS)):
        for n in (7, 13, 50, 265):
            for same in (True, False):
                out.append({"group": "series", "pair": p, "n": n, "same": same})
    for p in range(len(PAIRS)):
        out.append({"group": "threads", "pair": p, "steps": 3, "preempt": 1, "part": 0, "parts": 1})
    for p in range(len(PAIRS)) if deep else (0, 2):
        parts = 32 if deep else 8
        for i in range(parts):
            out.append({"group": "threads", "pair": p, "steps": 3 if deep else 2, "preempt": 2, "part": i, "parts": parts})
    for p in range(len(PAIRS)) if deep else (0, 2):
        for i in range(8):
            out.append({"group": "scen", "pair": p, "part": i, "parts": 8})
    if deep:
        for p in range(3):
            for i in range(32):
                out.append({"group": "threads3", "pair": p, "part": i, "parts": 32})
    return out


def interleavings(n, m):
    """All merges of n and m operations, as tuples of 0/1"""
    for c in itertools.combinations(range(n + m), n):
        w = [1] * (n + m)
        for i in c:
            w[i] = 0
        yield tuple(w)


def changes(w):
    return sum(1 for a, b in zip(w, w[1:]) if a != b)


def run_ops(names, w, ctx, steps=None):
    progs = [program(n, steps) for n in names]
    at = [0] * len(names)
    for t in w:
        progs[t][2][at[t]]()
        at[t] += 1
        ctx.step()
        ctx.state(tuple(names), tuple(at), t)
    for n, (kind, box, _) in zip(names, progs):
        compare(n, result(kind, box), solo(n, steps), w)
    ctx.trace()
    ctx.evaluate(len(names))


def series_model(name, F):
    kind, change, _ = CONF[name]
    m = CLS[kind]()
    for k, v in change.items():
        setattr(m, k, q(v))
    return kind, m


def series(case, ctx):
    """Two instances with longer series (of the same number of values, or not), blocks of their operations interleaved"""
    names = PAIRS[case["pair"]]
    n = case["n"]
    Fs = [spaces.long_forcing(n), [1.5 * f - 1 for f in spaces.long_forcing(n if case["same"] else n + 1)]]
    alone = []
    for name, F in zip(names, Fs):
        kind, m = series_model(name, F)
        alone.append(result(kind, {"m": drive(m, F)}))
    ways = list(interleavings(4, 4))
    if n > 20 and ctx.tier != "thorough":
        ways = ways[:: 7 if n < 100 else 23]
    for w in ways:
        ctx.at({"instances": names, "values": [len(F) for F in Fs], "interleaving": w})
        ms = [series_model(name, F) for name, F in zip(names, Fs)]
        at = [0, 0]
        for t in w:
            m, F = ms[t][1], Fs[t]
            if at[t] == 0:
                m.set_drivers(forcing(F))
            elif at[t] == 1:
                m.reset()
            else:
                for _ in range(len(F) // 2 if at[t] == 2 else len(F) - len(F) // 2):
                    m.step()
            at[t] += 1
            ctx.step()
            ctx.state(tuple(names), n, tuple(at), t)
        for name, (kind, m), want in zip(names, ms, alone):
            compare(name, result(kind, {"m": m}), want, w)
        ctx.trace()
        ctx.evaluate(2)
        ctx.outcome(w)


def run(case, ctx):
    g = case["group"]
    if g == "series":
        series(case, ctx)
        return
    if g == "ops":
        names = PAIRS[case["pair"]]
        ns = [len(program(n, 3)[2]) for n in names]
        for i, w in enumerate(interleavings(*ns)):
            if i % 6 != case["part"]:
                continue
            if not case["full"] and changes(w) > 5:
                continue
            ctx.at({"instances": names, "interleaving": w})
            run_ops(names, w, ctx, 3)
            ctx.outcome(w)
        ctx.sample({"instances": names, "interleaving": w})
    elif g == "ops3":
        names = case["trio"]
        ns = [len(program(n, 1)[2]) for n in names]
        # blocks: create+configure, drive+reset, steps
        blocks = [(2, 2, n - 4) for n in ns]
        for perm in multiset3():
            w, at = [], [0, 0, 0]
            for t in perm:
                w += [t] * blocks[t][at[t]]
                at[t] += 1
            ctx.at({"instances": names, "interleaving": w})
            run_ops(names, w, ctx, 1)
        ctx.sample({"instances": names, "interleaving": w})
    elif g == "many":
        many(ctx)
    elif g == "threads":
        names = PAIRS[case["pair"]]
        threads(names, case, ctx)
    elif g == "threads3":
        threads3(case, ctx)
    elif g == "scen":
        scen(case, ctx)
    elif g == "alias":
        alias(case, ctx)
    elif g == "cross":
        cross(case["kind"], case["name"], case["mode"], ctx)
    elif g == "shared":
        shared_object(case["name"], ctx)
    else:
        defaults(case["kind"], ctx)


def multiset3():
    """All orders of three blocks each of three instances (1680)"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for t in range(3):
            if left[t]:
                n = list(left)
                n[t] -= 1
                for rest in rec(n):
                    yield (t,) + rest

    return rec([3, 3, 3])


def many(ctx):
    """Tens of live instances, stepped round robin"""
    names = [n for n in CONF] * 8
    progs = [program(n, 3) for n in names]
    for i in range(7):
        for p in progs:
            p[2][i]()
            ctx.step()
    for n, (kind, box, _) in zip(names, progs):
        compare(n, result(kind, box), solo(n, 3), "round robin of {}".format(len(names)))
        ctx.trace()
    ctx.sample({"instances": len(names)})


def body(name, steps):
    kind, box, ops = program(name, steps)

    def go():
        for o in ops:
            o()
        return result(kind, box)

    return go


def execute(names, funcs, wants, schedule, first, ctx, cmp):
    ctx.at({"threads": names, "preemptions (thread, line number in trace)": schedule, "first": first})
    b = sched.Baton(funcs, schedule, first)
    res, err = b.run()
    ctx.step(sum(b.count))
    ctx.state(tuple(names), tuple(schedule), first)
    for n, r, e, w in zip(names, res, err, wants):
        if e is not None:
            raise Violation("thread raised {}: {}".format(type(e).__name__, e), threads=names, schedule=schedule, instance=n)
        cmp(n, r, w, schedule)
    ctx.trace()
    ctx.evaluate()
    ctx.outcome(tuple(b.count), b.switches)


def representative(lines, start=0, last=True):
    """First (and last) visit of every line from point start on"""
    first, final = {}, {}
    for i, ln in enumerate(lines):
        if i >= start:
            first.setdefault(ln, i)
            final[ln] = i
    return sorted(set(first.values()) | (set(final.values()) if last else set()))


def driving_points(name, steps):
    """Representative points after construction and configuration"""
    key = ("drv", name, steps)
    if key not in _POINTS:
        kind, box, ops = program(name, steps)
        n0 = len(sched.count_points(lambda: [o() for o in ops[:2]]))
        _POINTS[key] = representative(sched.count_points(body(name, steps)), n0, last=False)
    return _POINTS[key]


_POINTS = {}


def points(name, steps):
    key = (name, steps)
    if key not in _POINTS:
        _POINTS[key] = len(sched.count_points(body(name, steps)))
    return _POINTS[key]


def threads(names, case, ctx):
    steps = case["steps"]
    n = [points(x, steps) for x in names]
    wants = [solo(x, steps) for x in names]
    k = 0
    for first in (0, 1):
        other = 1 - first
        for p in range(n[first]):
            k += 1
            if k % case["parts"] != case["part"]:
                continue
            if case["preempt"] == 1:
                execute(names, [body(x, steps) for x in names], wants, [(first, p)], first, ctx, compare)
            else:
                quick = ctx.tier != "thorough"
                if quick and p not in driving_points(names[first], steps):
                    continue
                for r in driving_points(names[other], steps) if quick else range(n[other]):
                    execute(names, [body(x, steps) for x in names], wants, [(first, p), (other, r)], first, ctx, compare)
    ctx.sample({"threads": names, "points": n, "preemptions": case["preempt"]})


def threads3(case, ctx):
    names = [PAIRS[case["pair"]][0], PAIRS[case["pair"]][1], "irA"]
    n = [points(x, 1) for x in names]
    wants = [solo(x, 1) for x in names]
    k = 0
    for p in range(0, n[0], 2):
        for r in range(0, n[1], 2):
            k += 1
            if k % case["parts"] != case["part"]:
                continue
            for s in range(0, n[2], 8):
                execute(names, [body(x, 1) for x in names], wants, [(0, p), (1, r), (2, s)], 0, ctx, compare)
    ctx.sample({"threads": names, "points": n, "preemptions": 3})


def scen(case, ctx):
    names = PAIRS[case["pair"]]
    funcs = [scen_prog(x) for x in names]
    lines = [sched.count_points(f) for f in funcs]
    n = [len(x) for x in lines]
    pts = [
        range(x) if ctx.tier == "thorough" else representative(y, start_of_run(nm), last=False)
        for x, y, nm in zip(n, lines, names)
    ]
    wants = [scen_solo(x) for x in names]

    def cmp(name, r, w, schedule):
        require(same(r, w), "another instance changed run_scenarios results", instance=name, schedule=schedule)

    k = 0
    for first in (0, 1):
        for p in pts[first]:
            k += 1
            if k % case["parts"] == case["part"]:
                execute(names, funcs, wants, [(first, p)], first, ctx, cmp)
    ctx.sample({"run_scenarios threads": names, "points": n})


def start_of_run(name):
    """Points spent on construction and configuration"""
    _, _, ops = program(name)
    return len(sched.count_points(lambda: [o() for o in ops[:2]]))


def alias(case, ctx):
    """Objects handed in or out never connect two instances"""
    kind = case["kind"]
    names = list(PARAMS[kind]) + ["delta_t"]
    name = names[case["n"]]
    other = _dyn.base_points(kind)[1]
    F = [3.74, -2.5, 6.0]
    plain = observe(kind, drive(build(kind, DEFAULTS[kind]), F))
    d0 = observe(kind, drive(CLS[kind](), F))
    # same quantity object given to two instances, then replaced in one
    shared = q(other[name])
    a, b = CLS[kind](), CLS[kind]()
    setattr(a, name, shared)
    setattr(b, name, shared)
    solo_b = observe(kind, drive(b, F))
    setattr(a, name, q(DEFAULTS[kind][name]))
    drive(a, [9.0, 9.0])
    require(getattr(b, name) == shared, "parameter of one instance changed by another", parameter=name)
    require(all_same(observe(kind, drive(b, F)), solo_b), "results changed by another instance", parameter=name)
    require(all_same(observe(kind, drive(a, F)), plain) or name == "delta_t", "results", parameter=name)
    # handed-out quantities used in arithmetic (new objects) and given to another instance
    c = CLS[kind]()
    setattr(c, name, getattr(c, name) * 2)
    require(all_same(observe(kind, drive(CLS[kind](), F)), d0), "defaults changed by an instance", parameter=name)
    e = CLS[kind]()
    setattr(e, name, getattr(b, name))
    require(all_same(observe(kind, drive(e, F)), solo_b), "handed-over parameter", parameter=name)
    # in-place change of a handed-out default must not reach other instances' results
    # drivers: the same forcing object given to two instances
    f = forcing(F)
    g1, g2 = CLS[kind](), CLS[kind]()
    g1.set_drivers(f)
    g2.set_drivers(f)
    g1.reset(), g2.reset()
    g1.step()
    g2.run()
    g1.step(), g1.step()
    require(all_same(observe(kind, g1), d0) and all_same(observe(kind, g2), d0), "instances sharing drivers interfere")
    r = observe(kind, g1)
    g2.reset()
    require(all_same(observe(kind, g1), r), "reset of one instance changed another")
    g2.run()
    for x in (g2,):
        x.set_drivers(forcing([100.0, 100.0, 100.0]))
        x.reset()
        x.run()
    require(all_same(observe(kind, g1), r), "run of one instance changed another's results")
    # converted parameters shared between instances
    conv = build("tl", DEFAULTS["tl"]).get_impulse_response_parameters()
    i1 = CLS["ir"](**conv)
    i2 = CLS["ir"](**conv)
    i1.q1 = i1.q1 * 3
    i1.d1 = i1.d1 * 2
    require(all(getattr(i2, k) == v for k, v in conv.items()), "conversion result shared")
    ctx.step(20)
    ctx.trace(6)
    ctx.state(kind, name)
    ctx.outcome(kind, name)
    ctx.sample({"kind": kind, "shared": name})


def reading(m, kind):
    return {n: (repr(getattr(m, n).magnitude), str(getattr(m, n).units)) for n in DEFAULTS[kind]}


def lifecycle(kind, m, name, obj, F):
    """All that can be done with an instance that was given obj"""
    drive(m, F)
    yield "run"
    if kind == "tl":
        if not m.a.magnitude:
            m.get_impulse_response_parameters()
    else:
        m.get_two_layer_parameters()
    yield "conversion"
    m.run_scenarios(run_of([row(F, "x")], years(2000, len(F))), progress=False)
    m.delta_t = q(DEFAULTS[kind]["delta_t"])
    yield "run_scenarios"
    if name != "erf":
        setattr(m, name, obj)
        drive(m, F)
        yield "assigned again"
        setattr(m, name, q(_dyn.base_points(kind)[1][name]))
    drive(m, [9.0, 9.0])
    yield "replaced"


def shared_object(name, ctx):
    """One quantity object given to two instances, in every unit: each behaves as if it had its own"""
    F = [3.74, -2.5, 6.0]
    kinds = [k for k in ("tl", "ir") if name in DEFAULTS[k] or name == "erf"]
    for ka, kb in itertools.product(kinds, repeat=2):
        for unit in ref.UNITS[ref.KIND[name]]:
            if name == "erf":
                spec = [[x / ref.UNITS["flux"][unit] for x in F], unit]
            else:
                s = _dyn.base_points(kb)[1][name]
                spec = in_unit(name, ref.base(name, s), unit)

            def give(kind, obj):
                m = CLS[kind](**({} if name == "erf" else {name: obj}))
                m.set_drivers(obj if name == "erf" else forcing(F))
                m.reset()
                m.run()
                return m

            alone = give(kb, q(spec))
            want = reading(alone, kb), observe(kb, alone)
            for order in ("AB", "BA"):
                obj = q(spec)
                first = (repr(obj.magnitude), str(obj.units))
                ctx.at({"classes": [ka, kb], "shared": name, "unit": unit, "order": order})
                if order == "AB":
                    a = give(ka, obj)
                    b = give(kb, obj)
                else:
                    b = give(kb, obj)
                    a = give(ka, obj)
                for what in [None] + list(("run", "conversion", "run_scenarios", "assigned again", "replaced")):
                    if what == "run":
                        life = lifecycle(ka, a, name, obj, F)
                    if what is not None and next(life, None) is None:
                        break
                    require((repr(obj.magnitude), str(obj.units)) == first, "a shared quantity was changed by an instance", after=what, got=str(obj))
                    require(reading(b, kb) == want[0], "parameter readings changed by another instance", after=what, got=reading(b, kb), expected=want[0])
                    require(all_same(observe(kb, b), want[1]), "results changed by another instance", after=what)
                    ctx.step()
                    ctx.state(ka, kb, name, unit, order, what)
                b.reset()
                b.run()
                require(all_same(observe(kb, b), want[1]), "a repeated run was changed by another instance")
                ctx.trace()
                ctx.evaluate()
    ctx.outcome(name)
    ctx.sample({"shared": name, "units": list(ref.UNITS[ref.KIND[name]])})


def cross_values(kind, name):
    """Values that a confusion of two instances would mix up: same number, same amount, close numbers"""
    mag, unit = _dyn.base_points(kind)[1][name]
    units = ref.UNITS[ref.KIND[name]]
    out = [[mag, u] for u in units]
    out += [in_unit(name, mag * units[unit], u) for u in units if u != unit]
    out += [[mag * (1 + 1e-7), unit], [mag * (1 + 1e-9), unit], [mag * (1 + 1e-13), unit], [mag * 1.5, unit], [float(round(mag) + 1), unit], [int(round(mag) + 1), unit]]
    return out


def modest(name, v, kind):
    r = ref.base(name, v) / ref.base(name, _dyn.base_points(kind)[1][name])
    return 0.2 < r < 5


def cross_check(kind, spec, m, name, F, ctx, before):
    """One instance against the reference system, which knows of no other instance"""
    from ..world import check_steps, near

    want = _ALONE[(kind, name, repr(spec[name]))]
    require(want is not None, "a model fails when it is the only one", spec=spec)
    got = bits(kind, spec, m)
    require(got == want, "not the same as the only model of a process", spec=spec, other_instance=before, got=got, expected=want)
    check_steps(kind, spec, m, F, ctx, what=("temp",) if name in ("d1", "d2") else ("temp", "uptake"))
    if kind == "tl":
        for layer, n in (("upper", "du"), ("lower", "dl")):
            require(near(getattr(m, "heat_capacity_" + layer).to("J/delta_degC/m^2").magnitude, ref.base(n, spec[n]) * ref.RHO_CP, 1e-12),
                    "heat capacity is not that of the instance", layer=layer, spec=spec, other_instance=before)
    if modest(name, spec[name], kind) and not (kind == "tl" and spec["a"][0]):
        if kind == "ir":
            got, want = m.get_two_layer_parameters(), ref.IR(spec).two_layer()
            unit = {"lambda0": "W/m^2/K", "eta": "W/m^2/K", "du": "m", "dl": "m", "efficacy": "dimensionless"}
        else:
            got, want = m.get_impulse_response_parameters(), ref.to_impulse_response(ref.TL(spec).p)
            unit = {"q1": "K*m^2/W", "q2": "K*m^2/W", "d1": "s", "d2": "s", "efficacy": "dimensionless"}
        for k, u in unit.items():
            require(near(got[k].to(u).magnitude, want[k], 1e-7), "converted parameter is not that of the instance", parameter=k,
                    got=str(got[k].to(u)), expected=want[k], spec=spec, other_instance=before)


def cross(kind, name, mode, ctx):
    """All ordered pairs of instances that differ in one parameter"""
    F = CROSS_F
    base = cross_base(kind, name)
    vals = cross_values(kind, name)
    cross_pairs(kind, name, mode, base, vals, F, ctx)


CROSS_F = [3.74, -2.5, 6.0]


def cross_base(kind, name):
    base = dict(_dyn.base_points(kind)[1])
    if kind == "tl":
        base["a"] = [0.0, base["a"][1]] if name != "a" else base["a"]
    if name == "d2":
        base["d1"] = [1e-9, "s"]
    if name == "d1":
        base["d2"] = [1e9, "yr"]
    return base


def cross_pairs(kind, name, mode, base, vals, F, ctx):
    for va, vb in itertools.permutations(range(len(vals)), 2):
        sa, sb = dict(base, **{name: vals[va]}), dict(base, **{name: vals[vb]})
        ctx.at({"kind": kind, "instances": [vals[va], vals[vb]], "parameter": name, "mode": mode})
        a = drive(build(kind, sa), F)
        cross_check(kind, sa, a, name, F, ctx, None)
        if mode == "deleted":
            del a
            b = drive(build(kind, sb), F)
        else:
            b = build(kind, sb)
            drive(a, F)
            drive(b, F)
            cross_check(kind, sa, a, name, F, ctx, vals[vb])
        cross_check(kind, sb, b, name, F, ctx, vals[va])
        ctx.state(kind, name, va, vb, mode)
        ctx.trace()
    ctx.outcome(kind, name, mode)
    ctx.sample({"kind": kind, "parameter": name, "values": vals, "pairs": len(vals) * (len(vals) - 1)})


def defaults(kind, ctx):
    """Defaults are the same for every new instance, whatever was done to others"""
    def reading(m):
        return {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in DEFAULTS[kind]}

    first = reading(CLS[kind]())
    names = list(DEFAULTS[kind])
    for n in names:
        v = DEFAULTS[kind][n]
        require(abs(q(v).to(first[n][1]).magnitude - first[n][0]) <= 1e-12 * abs(first[n][0]), "default value", parameter=n, got=first[n])
    for b in range(3):
        for subset in range(2 ** len(names)):
            kw = {n: q(_dyn.base_points(kind)[b][n]) for i, n in enumerate(names) if subset >> i & 1}
            ctx.at({"kind": kind, "constructed with": list(kw), "base": b})
            m = CLS[kind](**kw)
            r = reading(m)
            for n in names:
                if n in kw:
                    require(getattr(m, n) == kw[n], "argument not taken", parameter=n)
                else:
                    require(r[n] == first[n], "default differs", parameter=n, got=r[n], expected=first[n])
            for n in names:
                setattr(m, n, q(_dyn.base_points(kind)[1][n]))
            drive(m, [1.0, 2.0])
            require(reading(CLS[kind]()) == first, "defaults of new instances changed", constructed_with=list(kw))
            ctx.step()
            ctx.state(kind, b, subset)
            ctx.trace()
    ctx.sample({"kind": kind, "keyword subsets": 2 ** len(names)})
