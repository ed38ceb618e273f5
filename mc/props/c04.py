"""C04: causality"""
import numpy as np

from .. import spaces
from ..world import (
    DEFAULTS, VARS, build, by_series, drive, months, near, observe, require, row, run_of, same, series_near, years,
)
from . import _dyn

RULE = (
    "for every forcing word, every position i and every alternative future (changed value, zero, "
    "huge, +inf, -inf, truncation after i, extension) the outputs up to and including i are compared "
    "with those of the original forcing; and a change at i must show at i+1"
)
BOUNDS = {
    "quick": "words of length <= 4 over 3 values, 31 levels from 1e-9 to 1e30, 2 long series, and lengths 5 to 70 with pasts and futures of 8 sizes each, all positions, 8 futures, 3 base points + product corner points, both models, run_scenarios on both axes",
    "thorough": "words of length <= 5 over 3 values, long series to 100 steps",
}
CONFORMANCE = "self-composition: pairs of real executions that share a past are enumerated and compared"
ASSUMPTIONS = ["prefixes compared to 1e-12 of the largest value (bit-identical on the current tree)"]

ALPHA = [3.74, 0.0, -2.5]


# nearly nothing happens for a while: what comes later must still not matter
QUIET = [[0.0, 1e-6, 0.0, 0.0, 0.0, 0.0, 0.0], [1e-12, 0.0, 0.0, 0.0, 0.0], [0.0] * 6, [3.0, 0.0, 0.0, 0.0, 0.0, 0.0]]


def corner_specs(kind):
    """Base points plus sharp deviations"""
    out = list(_dyn.base_points(kind))
    devs = {
        "tl": {"eta": 0.0, "a": 0.3, "dl": 1e15, "efficacy": 0.5, "du": 2.0},
        "ir": {"efficacy": 3.0, "q2": 2.0, "q1": 1e-6},
    }[kind]
    for k, v in devs.items():
        s = dict(DEFAULTS[kind])
        s[k] = [v, s[k][1]]
        out.append(s)
    for dt in ([1, "day"], [20, "yr"]):
        s = dict(DEFAULTS[kind])
        s["delta_t"] = dt
        out.append(s)
    return out


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for s in range(len(corner_specs(kind))):
            out.append({"kind": kind, "spec": s, "group": "words", "depth": 5 if tier == "thorough" else 4})
            for scale in (1e-7, 1e7) if tier == "thorough" or s < 3 else ():
                out.append({"kind": kind, "spec": s, "group": "words", "depth": 4 if tier == "thorough" else 3, "scale": scale})
            out.append({"kind": kind, "spec": s, "group": "levels"})
            for n, w in enumerate(QUIET):
                out.append({"kind": kind, "spec": s, "group": "quiet", "n": n})
            out.append({"kind": kind, "spec": s, "group": "series", "n": 100 if tier == "thorough" else 40 if kind == "tl" else 14})
            for n in (5, 13, 25, 40, 70):
                if n <= 25 or kind == "tl" or tier == "thorough":
                    out.append({"kind": kind, "spec": s, "group": "scales", "n": n})
        for axis in ("yearly", "monthly"):
            for b in range(3):
                out.append({"kind": kind, "group": "scenarios", "axis": axis, "spec": b})
    return out


def futures(w, i):
    """Alternatives for w[i:]"""
    rest = list(w[i:])
    yield "change", [rest[0] + 1.0] + rest[1:]
    yield "zero", [0.0] * len(rest)
    yield "negate", [-x - 0.5 for x in rest]
    yield "huge", [1e30] + rest[1:]
    yield "inf", [np.inf] * len(rest)
    yield "-inf", [-np.inf] + rest[1:]
    yield "truncate", rest[:1]
    yield "extend", rest + [9.0, -1e6, 0.0]


def prefix_same(x, y, n):
    return all(
        same(a[:n], b[:n]) or series_near(a[:n], b[:n], 1e-12) for a, b in zip(x, y)
    )


def explore(kind, spec, w, ctx, m):
    base = observe(kind, drive(m, w))
    require(all(b[0] == 0 for b in base), "first outputs not zero", spec=spec, F=w)
    ctx.trace()
    unit = observe(kind, drive(m, [1.0, 0.0]))[0][1]
    for i in range(len(w)):
        for name, alt in futures(w, i):
            F = list(w[:i]) + alt
            ctx.at({"kind": kind, "spec": spec, "F": list(w), "i": i, "future": name})
            got = observe(kind, drive(m, F))
            ctx.step(len(F))
            ctx.state(kind, str(spec), tuple(F))
            n = min(i + 1, len(F))
            require(all(len(g) == len(F) for g in got), "output length")
            require(prefix_same(base, got, n), "output depends on present or future forcing",
                    spec=spec, F=w, alternative=F, i=i,
                    before=[b[:n].tolist() for b in base], after=[g[:n].tolist() for g in got])
            ctx.evaluate()
            ctx.trace()
            if i + 1 < min(len(w), len(F)) and alt[0] != w[i]:
                with np.errstate(invalid="ignore"):
                    d = got[0][i + 1] - base[0][i + 1]
                size = abs(base[0][i]) + abs(base[1][i]) + abs(base[0][i + 1])
                if not size < 1e200 or abs((alt[0] - w[i]) * unit) < 1e-9 * size:
                    continue  # lost in the rounding of the temperature
                up = alt[0] > w[i]
                if np.isfinite(alt[0]):
                    ok = d > 0 if up else d < 0
                else:
                    ok = not np.isfinite(d)  # inf, or NaN where it meets its opposite
                require(ok, "forcing at i does not reach step i+1", spec=spec, F=w, alternative=F, i=i, change=float(d))
                ctx.outcome(kind, str(spec), i, float(d))
    return base


LEVELS = _dyn.GRID_F + [40.0, -40.0, 120.0, 700.0, -700.0, 5e3, 1e7, -1e7, 1e30, -1e30]


def levels(kind, spec, ctx):
    """Every level counts: a slightly different forcing shows at the next step, and not before, wherever it is on the scale"""
    m = build(kind, spec)
    for L in LEVELS:
        for before in ([], [0.0], [L], [-2.5, 0.0, L / 2]):
            F = before + [L, 0.0, 0.0]
            i = len(before)
            base = observe(kind, drive(m, F))
            for x in (L * 1.001, L * 0.999, L + abs(L) * 0.3, 0.0, -L):
                if x == L:
                    continue
                G = before + [x, 0.0, 0.0]
                ctx.at({"kind": kind, "spec": spec, "F": F, "alternative": G})
                got = observe(kind, drive(m, G))
                ctx.step(len(F))
                ctx.state(kind, str(spec), tuple(G))
                ctx.trace()
                ctx.evaluate()
                require(prefix_same(base, got, i + 1), "output depends on present or future forcing", spec=spec, F=F, alternative=G)
                with np.errstate(invalid="ignore", over="ignore"):
                    d = got[0][i + 1] - base[0][i + 1]
                # what one step makes of the difference, against the rounding of the temperature it is added to
                first = observe(kind, drive(m, [x - L, 0.0]))[0][1]
                if not np.isfinite(d) or abs(first) < 1e-9 * (abs(base[0][i]) + abs(base[1][i])) or abs(base[0][i]) > 1e20:
                    continue
                require((d > 0) == (x > L) and d != 0, "forcing at i does not reach step i+1", spec=spec, F=F, alternative=G, change=float(d))
                if i == 0:
                    require(abs(d - first) <= 1e-9 * (abs(got[0][1]) + abs(base[0][1])), "first response is not that of the difference", spec=spec, F=F,
                            alternative=G, change=float(d), expected=float(first))


SCALES = (1e-12, 1e-6, 1e-3, 0.1, 1.0, 30.0, 1e4, 1e8)


def scales(kind, spec, n, ctx):
    """Series of one size, followed by what is of another size: the first part has to stay the same"""
    m = build(kind, spec)
    shape = [(7 * i % 11 - 4) / 3.0 + 0.01 * i for i in range(n)]
    for s in SCALES:
        w = [x * s for x in shape]
        base = observe(kind, drive(m, w))
        for i in sorted({n, n - 1, n // 2}):
            for t in SCALES:
                for tail in ([x * t for x in shape[i:]], [t, -t], [t] * 30):
                    F = w[:i] + list(tail)
                    if len(F) == i:
                        continue
                    ctx.at({"kind": kind, "spec": spec, "length": n, "scale": s, "from": i, "future scale": t, "future length": len(tail)})
                    got = observe(kind, drive(m, F))
                    ctx.step(len(F))
                    ctx.state(kind, str(spec), n, s, i, t, len(tail))
                    require(prefix_same(base, got, min(i + 1, n)), "output depends on present or future forcing", spec=spec, F=w, alternative=F, i=i)
                    ctx.evaluate()
                    ctx.trace()


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "levels":
        spec = corner_specs(kind)[case["spec"]]
        levels(kind, spec, ctx)
        ctx.sample({"spec": spec, "levels": LEVELS})
        return
    if case["group"] == "words":
        spec = corner_specs(kind)[case["spec"]]
        m = build(kind, spec)
        stack = [(x,) for x in ALPHA]
        while stack:
            w = stack.pop(0)
            if len(w) < case["depth"] and (kind == "tl" or len(w) < case["depth"] - 1 or ctx.tier == "thorough"):
                stack += [w + (x,) for x in ALPHA]
            explore(kind, spec, [x * case.get("scale", 1.0) for x in w], ctx, m)
        ctx.sample({"spec": spec, "alphabet": ALPHA, "depth": case["depth"]})
    elif case["group"] == "scales":
        spec = corner_specs(kind)[case["spec"]]
        scales(kind, spec, case["n"], ctx)
        ctx.sample({"spec": spec, "length": case["n"], "scales": SCALES})
    elif case["group"] == "quiet":
        spec = corner_specs(kind)[case["spec"]]
        explore(kind, spec, QUIET[case["n"]], ctx, build(kind, spec))
        ctx.sample({"spec": spec, "forcing": QUIET[case["n"]]})
    elif case["group"] == "series":
        spec = corner_specs(kind)[case["spec"]]
        m = build(kind, spec)
        w = (spaces.F_MIX * 8)[: case["n"]] if kind == "tl" or ctx.tier == "thorough" else spaces.F_MIX[:9]
        explore(kind, spec, w, ctx, m)
        ctx.sample({"spec": spec, "forcing": w})
    else:
        scenarios(case, ctx)


def scenarios(case, ctx):
    """Pairs of scenarios with common past in run_scenarios"""
    kind = case["kind"]
    spec = dict(_dyn.base_points(kind)[case["spec"]])
    w = spaces.F_MIX[:8]
    rows, plan = [row(w, "base")], []
    for i in range(len(w)):
        for name, alt in futures(w, i):
            if name in ("extend", "truncate", "inf", "-inf"):
                continue
            s = "{}-{}".format(name, i)
            rows.append(row(list(w[:i]) + alt, s))
            plan.append((s, i))
    axis = years(2001, 8) if case["axis"] == "yearly" else months(2003, 8, 6)
    m = build(kind, spec)
    ctx.at({"kind": kind, "spec": spec, "axis": case["axis"]})
    got = by_series(m.run_scenarios(run_of(rows, axis), progress=False))
    for s, i in plan:
        for v in VARS[kind]:
            a, b = got[("base", v)], got[(s, v)]
            require(prefix_same([a], [b], i + 1), "run_scenarios output depends on the future",
                    scenario=s, variable=v, i=i)
            ctx.step()
            ctx.evaluate()
        ctx.state(kind, case["spec"], s)
    # truncated and extended axes
    for n in range(1, len(w) + 1):
        if n < 3:
            continue
        short = by_series(build(kind, spec).run_scenarios(run_of([row(w[:n], "base")], axis[:n]), progress=False))
        for v in VARS[kind]:
            require(prefix_same([got[("base", v)]], [short[("base", v)]], n), "truncation changes the past",
                    n=n, variable=v)
        ctx.trace()
    ctx.sample({"spec": spec, "axis": case["axis"], "scenarios": [p[0] for p in plan][:8]})
