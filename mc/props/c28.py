"""C28: looking at a model changes nothing"""
import copy
import itertools

import numpy as np

from .. import ref
from ..world import DEFAULTS, PARAMS, all_same, build, forcing, observe, q, require, row, run_of, years
from . import _dyn
from .c10 import CHANGES

RULE = (
    "all insertions of every read (each parameter, drivers, heat capacities, conversion, ECS, text form, comparison, shallow and deep copy, "
    "changing what a read handed out) at every point of every program, all ordered pairs of reads at every point, and all reads at "
    "all points: results after every operation equal those without reads; each read gives what it gives to a model not read before"
)
BOUNDS = {
    "quick": "12 programs of up to 13 operations (one for every parameter assigned in the middle of a run), single reads at every point, ordered pairs at every point of the programs without run_scenarios, 3 base points (1 with run_scenarios), both models; each read before each step of a 60-step run; all reads between all operations for 10 awkward values of every parameter in every unit",
    "thorough": "the same with triples at every point",
}
CONFORMANCE = "each program is executed on the real code with and without the reads"
ASSUMPTIONS = ["quantities handed out are not changed in place by the caller, except those calculated on request"]

F1, F2 = [3.74, -2.5, 6.0], [1.0, 8.0, 2.0, 0.5]
PROGRAMS = [
    ["d1", "reset", "step", "step", "step", "reset", "run"],
    ["d1", "reset", "step", "d2", "reset", "run"],
    ["p0", "d2", "reset", "run", "p1", "dt", "reset", "step", "step", "d1", "reset", "run"],
    ["scen", "d1", "reset", "run", "scen"],
    ["bad", "d1", "badd", "reset", "step", "bad", "step", "p1", "step", "scen", "d1", "reset", "run"],
    # every assignment in the middle of a run
    *(["d3", "reset", "step", "set {}".format(i), "step", "reset", "run"] for i in range(7)),
]
# drivers handed over by the caller, as they were
HANDED = []


def apply(kind, m, op):
    if op in ("d1", "d2"):
        m.set_drivers(forcing(F1 if op == "d1" else F2))
    elif op == "d3":
        F = forcing([3.74e3, -2.5e3, 6.0e3], "mW/m^2")
        HANDED.append((F, text(F)))
        m.set_drivers(F)
    elif op.startswith("set"):
        names = list(DEFAULTS[kind])
        n = names[int(op.split()[1]) % len(names)]
        setattr(m, n, 0.9 * getattr(m, n))
    elif op == "scen":
        out = m.run_scenarios(run_of([row(F2, "a"), row(F1 + [np.nan], "b")], years(2000, 4)), progress=False)
        return out.timeseries().values
    elif op == "bad":
        for n in DEFAULTS[kind]:
            try:
                setattr(m, n, 3.0)
            except TypeError:
                pass
    elif op == "badd":
        try:
            m.set_drivers(forcing([1.0, 2.0], "W"))
        except ValueError:
            pass
    elif op in ("p0", "p1", "dt"):
        name, v = CHANGES[kind][op]
        setattr(m, name, q(v))
    else:
        getattr(m, op)()
    return None


def text(v):
    mag = np.asarray(v.magnitude, float)
    return mag.tobytes(), str(v.units)


def convert(kind, m):
    try:
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
    except (ValueError, ZeroDivisionError) as exc:
        return type(exc).__name__
    out = {k: text(v) for k, v in p.items()}
    # what was handed out belongs to the caller
    for k in p:
        if k != "efficacy":
            p[k].ito_base_units()
    p.clear()
    return sorted(out.items())


def reads(kind):
    out = {n: (lambda m, n=n: text(getattr(m, n))) for n in DEFAULTS[kind]}
    out["erf"] = lambda m: (np.array(getattr(m.erf, "magnitude", m.erf), float).tobytes(), str(getattr(m.erf, "units", "")))
    if kind == "tl":
        def capacity(m, layer):
            c = getattr(m, "heat_capacity_" + layer)
            r = text(c)
            c.ito("kJ/K/cm^2")
            c *= 3
            return r

        out["capacity upper"] = lambda m: capacity(m, "upper")
        out["capacity lower"] = lambda m: capacity(m, "lower")
    out["conversion"] = lambda m: convert(kind, m)
    out["text"] = lambda m: (type(m).__name__, len(repr(m)) > 0, len(str(m)) > 0)[:1]
    out["compare"] = lambda m: (m == m, bool(m), hash(m) == hash(m))  # pylint: disable=comparison-with-itself
    out["shallow copy"] = lambda m: type(copy.copy(m)).__name__
    out["deep copy"] = lambda m: type(copy.deepcopy(m)).__name__
    out["attributes"] = lambda m: [getattr(m, n, None) is None for n in dir(m) if not n.startswith("__")][:0]
    return out


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in range(3):
            for p in range(len(PROGRAMS)):
                if ("scen" in PROGRAMS[p] or p >= 5) and b != 1 and tier != "thorough":
                    continue
                for at in range(len(PROGRAMS[p]) + 1):
                    out.append({"group": "at", "kind": kind, "base": b, "program": p, "at": at})
                out.append({"group": "everywhere", "kind": kind, "base": b, "program": p})
        for b in range(3):
            for r in list(reads(kind)) + ["all"]:
                out.append({"group": "long", "kind": kind, "base": b, "read": r})
        for n in DEFAULTS[kind]:
            out.append({"group": "values", "kind": kind, "name": n})
    return out


_PLAIN = {}


def plain(kind, spec, b, p, upto=None):
    """States without any read"""
    if (kind, b, p) not in _PLAIN:
        m = build(kind, spec)
        res = [(observe(kind, m), None)]
        for op in PROGRAMS[p]:
            out = apply(kind, m, op)
            res.append((observe(kind, m), out))
        _PLAIN[(kind, b, p)] = res
    return _PLAIN[(kind, b, p)]


def answer(kind, spec, b, p, at, name, func):
    """What the read gives on a model that was not read before"""
    key = (kind, b, p, at, name)
    if key not in _PLAIN:
        m = build(kind, spec)
        for op in PROGRAMS[p][:at]:
            apply(kind, m, op)
        _PLAIN[key] = func(m)
    return _PLAIN[key]


def play(kind, spec, b, p, reading, ctx, from_=0):
    """The program with reading(position, model) before every operation"""
    want = plain(kind, spec, b, p)
    del HANDED[:]
    m = build(kind, spec)
    for i in range(len(PROGRAMS[p]) + 1):
        if i:
            out = apply(kind, m, PROGRAMS[p][i - 1])
            if i >= from_:
                require(out is None or all_same([out], [want[i][1]]), "run_scenarios gives something else after reads", program=PROGRAMS[p][:i])
        reading(i, m)
        for obj, was in HANDED:
            require(text(obj) == was, "reading changed the drivers of the caller", program=PROGRAMS[p][:i], got=str(obj))
        if i >= from_:
            got = observe(kind, m)
            require(all_same(got, want[i][0]), "results differ from those of a model that was not read", program=PROGRAMS[p][:i],
                    got=lambda: [g.tolist() for g in got], expected=lambda: [w.tolist() for w in want[i][0]])
        ctx.step()
    ctx.trace()


# numbers whose conversion between units rounds in many ways
AWKWARD = [1 / 3, 0.137, 0.411, 0.959, 1.0000001, 1.37, 2.2, 3.3, 7.7, 1234.567 / 1e3]


def values(kind, name, ctx):
    base, unit = DEFAULTS[kind][name][0] or 0.05, DEFAULTS[kind][name][1]
    rs = reads(kind)
    units = ref.UNITS[ref.KIND[name]]
    for other in units:
        for x in AWKWARD:
            v = x * base * units[unit] / units[other]
            spec = {n: list(w) for n, w in DEFAULTS[kind].items()}
            spec[name] = [v, other]
            ctx.at({"kind": kind, "spec": spec, "reads": "all, before every operation"})
            pair = [build(kind, spec), build(kind, spec)]
            first = None
            for i, op in enumerate(["new", "d1", "reset", "step", "step", "step", "reset", "run"]):
                if i:
                    for m in pair:
                        apply(kind, m, op)
                if i in (0, 3, 5):
                    answers = [rs[n](pair[1]) for n in rs]
                    again = [rs[n](pair[1]) for n in rs]
                    for n, a, b, c in zip(rs, answers, again, answers if i == 0 or first is None else first):
                        require(a == b and (n == "erf" or a == c), "a read depends on earlier reads", read=n, first=repr(c), then=[repr(a), repr(b)])
                    first = answers
                x0, x1 = observe(kind, pair[0]), observe(kind, pair[1])
                require(all_same(x0, x1), "results differ from those of a model that was not read", after=op,
                        got=lambda: [g.tolist() for g in x1], expected=lambda: [w.tolist() for w in x0])
                ctx.step()
            ctx.state(kind, name, other, x)
            ctx.trace()
            ctx.evaluate()


def long_run(kind, b, name, ctx):
    """Reads between all steps of longer runs, at one step only, and at every third"""
    # all digits in use
    spec = {n: [v * 1.0123456789012345, u] for n, (v, u) in _dyn.base_points(kind)[b].items()}
    rs = reads(kind)
    names = list(rs) if name == "all" else [name]
    n = 60 if name != "all" else 24
    F = [(7 * i % 23) / 3.0 - 2.0 + 1 / 3 for i in range(n)]

    def life(at):
        m = build(kind, spec)
        res = []
        for again in range(2):
            m.set_drivers(forcing(F))
            m.reset()
            for i in range(n):
                for r in names if i in at else ():
                    rs[r](m)
                m.step()
                ctx.step()
            res += observe(kind, m)
        return res

    want = life(())
    for at in [range(n), range(0, n, 3), range(n // 2, n)] + [[i] for i in range(n)]:
        ctx.at({"kind": kind, "spec": spec, "read": names, "before steps": list(at)})
        require(all_same(life(at), want), "results differ from those of a model that was not read", steps=n)
        ctx.state(kind, b, name, tuple(at))
        ctx.trace()
        ctx.evaluate()
    ctx.outcome(*(w.tobytes() for w in want))
    ctx.sample({"kind": kind, "read": names, "steps": n})


def run(case, ctx):
    if case["group"] == "long":
        long_run(case["kind"], case["base"], case["read"], ctx)
        return
    if case["group"] == "values":
        values(case["kind"], case["name"], ctx)
        ctx.sample({"parameter": case["name"], "values": AWKWARD})
        return
    kind, b, p = case["kind"], case["base"], case["program"]
    spec = _dyn.base_points(kind)[b]
    rs = reads(kind)
    if case["group"] == "everywhere":
        for order in (list(rs), list(rs)[::-1]):
            def everything(i, m):
                for _ in range(2):
                    for n in order:
                        ctx.at({"kind": kind, "program": PROGRAMS[p][:i], "read": n, "after": order[: order.index(n)]})
                        require(rs[n](m) == answer(kind, spec, b, p, i, n, rs[n]), "a read depends on other reads", read=n)
                        ctx.evaluate()

            play(kind, spec, b, p, everything, ctx)
            ctx.state(kind, b, p, "all")
        return
    at = case["at"]
    names = list(rs)
    combos = [(n,) for n in names] + list(itertools.product(names, repeat=2))
    if ctx.tier == "thorough":
        combos += list(itertools.product(names, repeat=3))
    slow = {"conversion", "deep copy", "attributes"}
    for c in combos:
        if len(c) > 1 and ctx.tier != "thorough" and not slow & set(c):
            # pairs of plain attribute reads: in reading order only
            if names.index(c[0]) > names.index(c[1]):
                continue

        def some(i, m):
            if i == at:
                for n in c:
                    require(rs[n](m) == answer(kind, spec, b, p, i, n, rs[n]), "a read depends on other reads", read=n, reads=c)

        ctx.at({"kind": kind, "program": PROGRAMS[p], "reads": c, "after operation": at})
        if len(c) > 1 and "scen" in PROGRAMS[p] and ctx.tier != "thorough":
            # run_scenarios costs a thousand times an operation
            continue
        play(kind, spec, b, p, some, ctx, at)
        ctx.state(kind, b, p, at, c)
        ctx.evaluate()
    ctx.outcome(kind, b, p, at)
    ctx.sample({"kind": kind, "program": PROGRAMS[p], "reads": names, "after operation": at})
