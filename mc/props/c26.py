"""C26: deep copies and pickles continue like the original, and independently"""
import copy
import itertools
import pickle

import numpy as np
import pint

from .. import spaces
from ..engine import Violation
from ..world import CLS, DEFAULTS, all_same, chunked, forcing, build, observe, q, require, row, run_of, ur, years
from . import _dyn

RULE = (
    "explicit-state exploration with a fork: all operation words up to the stated depth, a copy (deepcopy, pickle, copy of a "
    "copy) at their end, then all pairs of continuations for original and copy in three interleavings; after every operation "
    "each of the two is compared (exceptions, readings, result arrays) with a model that was never copied and did the same operations"
)
BOUNDS = {
    "quick": "words of length <= 3 over 9 operations before the fork and 60 longer ones (4 to 8), 6 x 6 continuations (every fifth pair at length 3, and fewer with run_scenarios), 3 interleavings, 4 ways to copy (in rotation), 2 models; every parameter value of the sweeps, and series of 5 to 1100 values copied part-way; drivers and every parameter of one changed in place at 7 points of life",
    "thorough": "words of length <= 4 before the fork, every way to copy, 3 base points",
}
CONFORMANCE = "every fork and continuation is executed on the real code; the never-copied model is the oracle"
ASSUMPTIONS = ["pickles are loaded with the openscm unit registry as pint's application registry, as pint requires"]

OPS = ["dA", "dB", "reset", "step", "run", "p0", "p1", "dt", "scen"]
SERIES = {"A": [3.74, -2.5, 6.0], "B": [1.0, 8.0, 2.0, 0.5]}
CHANGES = {
    "tl": {"p0": ("lambda0", [800.0, "mW/m^2/K"]), "p1": ("dl", [0.3, "km"]), "dt": ("delta_t", [1.0, "month"])},
    "ir": {"p0": ("q1", [450.0, "mK/(W/m^2)"]), "p1": ("d2", [660.0, "month"]), "dt": ("delta_t", [0.75, "yr"])},
}
SUFFIXES = [
    ["step", "step"], ["reset", "run"], ["p0", "step", "run"], ["dB", "reset", "run"], ["p1", "dt", "dA", "reset", "step"], ["scen", "step"],
]
# points of life beyond the depth of the words
LIVES = [
    ["dA", "reset", "step", "step"], ["dB", "reset", "step", "step", "step"], ["dB", "reset", "step", "p0", "step"],
    ["dA", "reset", "run", "dB", "reset", "step"], ["dA", "reset", "run", "step", "p1", "reset", "run"], ["p0", "p1", "dt", "scen", "step"],
]
WAYS = ("deepcopy", "pickle2", "pickle5", "twice")


def setup():
    pint.set_application_registry(ur)


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in (0, 1, 2) if tier == "thorough" else (1,):
            out.append({"kind": kind, "base": b, "prefix": [], "depth": 1})
            for i in range(len(OPS)):
                out.append({"kind": kind, "base": b, "prefix": [i], "depth": 1})
                for j in range(len(OPS)):
                    out.append({"kind": kind, "base": b, "prefix": [i, j], "depth": 4 if tier == "thorough" else 3})
            for i, life in enumerate(LIVES):
                for last in [None] + OPS:
                    out.append({"kind": kind, "base": b, "life": i, "last": last})
    for kind in ("tl", "ir"):
        for b in range(3):
            for way in WAYS:
                out.append({"kind": kind, "base": b, "in place": way})
        for n in (5, 17, 33, 50, 64, 100, 128, 300, 1100):
            out.append({"kind": kind, "base": 1 if n % 2 else 0, "n": n})
        for c in chunked(range(len(star(kind))), 24):
            out.append({"kind": kind, "base": None, "idx": c})
    return out


_STAR = {}


def star(kind):
    """Every parameter value on its own, at both base points"""
    if kind not in _STAR:
        specs = _dyn.specs(kind, "quick")[0]
        _STAR[kind] = [s for s in specs if not _dyn.degenerate(kind, s)]
    return _STAR[kind]


def part_way(kind, spec, F, at, way, mode, ctx):
    """Copied after `at` steps of a run over F; then both go on, each in its own way"""
    ctx.at({"kind": kind, "spec": spec, "values": len(F), "copied after": at, "by": way, "then": mode})

    def fresh():
        m = build(kind, spec)
        m.set_drivers(forcing(F))
        m.reset()
        for _ in range(at):
            m.step()
        return m

    def finish(m):
        for _ in range(len(F) - at):
            m.step()

    def restart(m):
        m.reset()
        m.step()

    def other(m):
        m.set_drivers(forcing([2.0 * f + 1 for f in F]))
        m.reset()
        m.run()

    def again(m):
        m.reset()
        m.run()

    name, value = CHANGES[kind]["p0"]

    def diverge(m):
        setattr(m, name, q(value))
        finish(m)

    m = fresh()
    c = duplicate(m, way)
    acts = {"finish": (finish, finish), "restart": (restart, finish), "other": (other, finish), "copy": (finish, other), "again": (again, again), "diverge": (diverge, finish)}[mode]
    pairs = [(m, acts[0]), (c, acts[1])]
    if at % 2:
        pairs.reverse()
    for x, act in pairs:
        act(x)
    for x, act in pairs:
        t = fresh()
        act(t)
        require(reading(kind, x) == reading(kind, t), "readings differ from those of a model that was never copied",
                who="copy" if x is c else "original")
        require(all_same(observe(kind, x), observe(kind, t)), "results differ from those of a model that was never copied",
                who="copy" if x is c else "original", got=lambda: [g.tolist()[:20] for g in observe(kind, x)],
                expected=lambda: [g.tolist()[:20] for g in observe(kind, t)])
    ctx.step(2 * (len(F) - at))
    ctx.state(kind, repr(spec), len(F), at, way, mode)
    ctx.trace()
    ctx.evaluate()


INPLACE = {
    "drivers' numbers": lambda m: m.erf.magnitude.__setitem__(slice(None), 99.0),
    "one driver value": lambda m: m.erf.magnitude.__setitem__(1, -7.0),
    "drivers' unit": lambda m: m.erf.ito("mW/m^2"),
}
PLACES = ([], ["dB"], ["dB", "reset"], ["dB", "reset", "step", "step"], ["dB", "reset", "run"], ["dA", "reset", "step", "dB", "p0"], ["dB", "reset", "step", "bad"])


def in_place(kind, b, way, ctx):
    """What one of the two holds is changed in place; the other one does not notice"""
    spec = _dyn.base_points(kind)[b]
    acts = dict(INPLACE)
    for n in DEFAULTS[kind]:
        acts["unit of " + n] = lambda m, n=n: getattr(m, n).ito_base_units()
        acts["half of " + n] = lambda m, n=n: setattr(m, n, getattr(m, n).__imul__(0.5))
        if n not in ("a",):
            acts["all of " + n] = lambda m, n=n: setattr(m, n, getattr(m, n).__iadd__(getattr(m, n)))
    for before, (name, act), which, rest in itertools.product(PLACES, acts.items(), (0, 1), (["step", "step"], ["reset", "run"], ["p1", "step", "reset", "run"])):
        if not before and name in INPLACE:
            continue
        ctx.at({"kind": kind, "before": before, "copied by": way, "changed in place": name, "whose": ("original", "copy")[which], "then": rest})
        m, twin = build(kind, spec), build(kind, spec)
        for op in before:
            apply(kind, m, op)
            apply(kind, twin, op)
        both = (m, duplicate(m, way))
        act(both[which])
        other = both[1 - which]
        require(reading(kind, other) == reading(kind, twin), "what is changed in one shows in the other", got=str(reading(kind, other)), expected=str(reading(kind, twin)))
        for op in rest:
            x, y = look(kind, other, apply(kind, other, op)), look(kind, twin, apply(kind, twin, op))
            require(same_look(x, y), "what is changed in one changes what the other does", after=op, got=repr(x)[:600], expected=repr(y)[:600])
            ctx.step()
        ctx.state(kind, b, way, before, name, which, rest)
        ctx.trace()
        ctx.evaluate()
    ctx.outcome(kind, b, way)
    ctx.sample({"kind": kind, "copied by": way, "changed in place": list(acts)})


MODES = ("finish", "diverge", "restart", "other", "copy", "again")


def duplicate(m, way):
    if way == "deepcopy":
        return copy.deepcopy(m)
    if way == "pickle2":
        return pickle.loads(pickle.dumps(m, protocol=2))
    if way == "pickle5":
        return pickle.loads(pickle.dumps(m, protocol=5))
    return copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(m))))


_SCEN = []


def apply(kind, m, op):
    """Do it; what can be told from the outside"""
    extra = None
    try:
        if op in ("dA", "dB"):
            m.set_drivers(forcing(SERIES[op[1]]))
        elif op == "scen":
            if not _SCEN:
                _SCEN.append(run_of([row([2.0, -1.0, 4.0], "x"), row([0.0, 9.0, 9.0], "y")], years(2000, 3)))
            extra = m.run_scenarios(_SCEN[0], progress=False).timeseries().values
        elif op in ("reset", "step", "run"):
            getattr(m, op)()
        else:
            name, v = CHANGES[kind][op]
            setattr(m, name, q(v))
        return None, extra
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__, extra


def reading(kind, m):
    out = {n: (getattr(m, n).magnitude, str(getattr(m, n).units)) for n in DEFAULTS[kind]}
    e = m.erf
    out["erf"] = (np.array(getattr(e, "magnitude", e), float).tobytes(), str(getattr(e, "units", None)))
    return out


def look(kind, m, res):
    extra = [res[1]] if res[1] is not None else []
    return res[0], reading(kind, m), observe(kind, m) + extra


def same_look(x, y):
    return x[0] == y[0] and x[1] == y[1] and all_same(x[2], y[2])


_SOLO = {}


def solo(kind, spec, b, word):
    """What a never-copied model shows after the last operation of the word"""
    key = (kind, b, tuple(word))
    if key not in _SOLO:
        if len(_SOLO) > 6000:
            _SOLO.clear()
        m = build(kind, spec)
        res = (None, None)
        for op in word:
            res = apply(kind, m, op)
        _SOLO[key] = look(kind, m, res)
    return _SOLO[key]


ORDERS = ("copy first", "original first", "alternating")


def merge(order, s0, s1):
    a, b = [(0, o) for o in s0], [(1, o) for o in s1]
    if order == "original first":
        return a + b
    if order == "copy first":
        return b + a
    out = []
    for x, y in itertools.zip_longest(a, b):
        out += [z for z in (x, y) if z]
    return out


def fork(kind, spec, b, prefix, ctx, count):
    start = solo(kind, spec, b, prefix)
    ways = WAYS if ctx.tier == "thorough" or len(prefix) < 2 else (WAYS[count % 4],)
    for way in ways:
        for i, s0 in enumerate(SUFFIXES):
            for j, s1 in enumerate(SUFFIXES):
                if ctx.tier != "thorough":
                    # run_scenarios costs a thousand times an operation
                    slow = prefix.count("scen") + ("scen" in s0) + ("scen" in s1)
                    if len(prefix) > 2 and (slow or (i * 2 + j + count) % 5):
                        continue
                    if slow and len(prefix) > 1 and (i * 2 + j + count) % 12:
                        continue
                    if slow and len(prefix) == 1 and (i * 2 + j + WAYS.index(way)) % 4:
                        continue
                    if slow > 1 and (i * 2 + j + count) % 6:
                        continue
                order = ORDERS[(i + j + count) % 3]
                ctx.at({"kind": kind, "before": prefix, "copied by": way, "original then": s0, "copy then": s1, "order": order})
                m = build(kind, spec)
                for op in prefix:
                    apply(kind, m, op)
                try:
                    c = duplicate(m, way)
                except Exception as exc:
                    raise Violation("model cannot be copied: {}: {}".format(type(exc).__name__, exc), way=way, before=prefix)
                both = [m, c]
                done = [[], []]
                for who in (0, 1):
                    got = look(kind, both[who], (start[0], None))
                    require(got[1] == start[1] and all_same(got[2], start[2][:3]), "copying shows", who=("original", "copy")[who])
                for who, op in merge(order, s0, s1):
                    res = apply(kind, both[who], op)
                    done[who].append(op)
                    other = 1 - who
                    for x in (0, 1):
                        if x == other and not done[x]:
                            continue
                        want = solo(kind, spec, b, prefix + done[x])
                        got = look(kind, both[x], res if x == who else (want[0], None))
                        ok = same_look(got, want) if x == who else got[1] == want[1] and all_same(got[2], want[2][:3])
                        require(ok, "{} behaves differently from a model that was never copied".format(("original", "copy")[x]),
                                done=done, got=lambda: repr(got)[:800], expected=lambda: repr(want)[:800])
                    ctx.step()
                ctx.state(kind, b, prefix, way, i, j, order)
                ctx.trace()
                ctx.evaluate()


def run(case, ctx):
    kind, b = case["kind"], case["base"]
    if "in place" in case:
        in_place(kind, b, case["in place"], ctx)
        return
    if "n" in case:
        n = case["n"]
        for i, at in enumerate((1, n // 2, n - 1, n)):
            for j, way in enumerate(WAYS):
                for k, mode in enumerate(MODES):
                    if n < 100 or ctx.tier == "thorough" or (i + j + k) % 4 == 0 or k == 1 and n < 400 or at == n and kind == "tl":
                        part_way(kind, _dyn.base_points(kind)[b], spaces.long_forcing(n), at, way, mode, ctx)
        ctx.outcome(kind, b, n)
        ctx.sample({"kind": kind, "values": n, "copied after": [1, n // 2, n - 1, n]})
        return
    if "idx" in case:
        for i in case["idx"]:
            for k, mode in enumerate(MODES):
                part_way(kind, star(kind)[i], spaces.F_MIX[:6], 3, WAYS[(i + k) % 4], mode, ctx)
        ctx.outcome(kind, case["idx"])
        ctx.sample({"kind": kind, "spec": star(kind)[i]})
        return
    spec = _dyn.base_points(kind)[b]
    if "life" in case:
        words = [LIVES[case["life"]] + ([case["last"]] if case["last"] else [])]
    elif len(case["prefix"]) < 2:
        words = [[OPS[i] for i in case["prefix"]]]
    else:
        p = [OPS[i] for i in case["prefix"]]
        words, layer = [p], [p]
        for _ in range(case["depth"] - 2):
            layer = [w + [o] for w in layer for o in OPS]
            words += layer
    for n, w in enumerate(words):
        fork(kind, spec, b, w, ctx, n)
    ctx.outcome(kind, b, str(case))
    ctx.sample({"kind": kind, "before the copy": words[-1], "then (original, copy)": [SUFFIXES[2], SUFFIXES[4]]})
