"""C05: linearity and time invariance"""
import itertools

import numpy as np

from .. import ref, spaces
from ..world import (
    DEFAULTS, VARS, build, by_series, chunked, drive, observe, require, row, run_of, years, series_near,
)
from . import _dyn

RULE = (
    "all pairs of forcing words x weights x delays: response of the combination compared with the "
    "combination of responses; at every single-parameter deviation and (in bulk) product points with a = 0"
)
BOUNDS = {
    "quick": "words of length 3 over {0,1,-2.5} (pairs) at base points; 3 pairs x 9 weights x 5 delays at every deviation and 1 in 4 product points; 28 levels from 1e-9 to 1e7 of both signs",
    "thorough": "words of length 4; every product point",
}
CONFORMANCE = "self-composition: related real executions are enumerated and compared"
ASSUMPTIONS = ["agreement to 1e-9 of the largest contribution so far"]

WEIGHTS = [(1.0, 1.0), (2.0, 0.0), (-1.0, 0.0), (1e6, 1.0), (1e-6, -3.0), (0.5, -0.5), (-2.0, 3.0), (0.0, 0.0), (1e12, -1e12)]
DELAYS = [1, 2, 3, 7, 30]
PAIRS = [
    ([3.74] * 6, [0.0, -2.5, 1.0, 0.0, 8.0, 0.0]),
    ([1.0, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0, 0.0, 0.0]),
    ([5.0, 5.0, -20.0, 5.0, 5.0, 0.1], [1e-7, 2e-7, -1e-7, 0.0, 3e-7, 1.0]),
]


def linear_specs(kind, tier):
    key = (kind, tier)
    if key not in _CACHE:
        star = [s for s in spaces.star_specs(kind, DEFAULTS[kind], _dyn.T_UNITS)]
        if kind == "tl":
            for s in star:
                s["a"] = [0.0, s["a"][1]]
        prod = [
            s for s in spaces.product_specs(kind, DEFAULTS[kind], drop=("a",))
            if kind == "tl" or spaces.valid_ir(s, _dyn.T_UNITS)
        ]
        stride = 1 if tier == "thorough" else (2 if kind == "tl" else 6)
        seen, out = set(), []
        for s in star + prod[::stride]:
            if str(s) not in seen and not _dyn.degenerate(kind, s):
                seen.add(str(s))
                out.append(s)
        _CACHE[key] = out
    return _CACHE[key]


_CACHE = {}


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for b in range(3):
            for first in range(3):
                out.append({"kind": kind, "group": "words", "base": b, "first": first})
            out.append({"kind": kind, "group": "scenarios", "base": b})
        for i in range(len(level_specs(kind))):
            out.append({"kind": kind, "group": "levels", "spec": i})
    for kind in ("tl", "ir"):
        for c in chunked(range(len(linear_specs(kind, tier))), 20):
            out.append({"kind": kind, "group": "specs", "idx": c})
    return out


LEVELS = [x * s for x in (1e-9, 1e-5, 1e-3, 0.03, 0.4, 2.0, 7.0, 20.0, 45.0, 90.0, 250.0, 1e3, 1e4, 1e7) for s in (1.0, -1.0)]
SHAPES = [[1.0] * 12, [1.0] + [0.0] * 11, [1.0] * 3 + [-1.0] * 9, [0.0, 1.0, 0.5, 0.0, -0.25, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0, 0.0]]


def level_specs(kind):
    out = []
    for s in _dyn.grid_specs(kind):
        s = dict(s)
        if kind == "tl":
            s["a"] = [0.0, s["a"][1]]
        if s not in out:
            out.append(s)
    return out


def base_spec(kind, b):
    s = dict(_dyn.base_points(kind)[b])
    if kind == "tl":
        s["a"] = [0.0, s["a"][1]]
    return s


def tolerances(kind, spec, contrib, forc):
    """Running scale of the contributions, per output"""
    mags = [np.maximum.accumulate(c) for c in contrib]
    tol = [1e-9 * m for m in mags]
    if kind == "tl":
        r = ref.TL(spec)
        y = (r.C * mags[0] + r.CD * mags[1]) / r.dt
        tol[2] = tol[2] + 256 * ref.EPS * y
        # temperature increments
        tol[0] = tol[0] + 1e-9 * mags[1] * min(1.0, r.eta * r.dt / r.C)
    else:
        q = ref.IR(spec).q
        # slow boxes move by a tiny part of q F in a step: rounding of q F itself shows
        n = np.arange(1, len(mags[0]) + 1)
        for i in (0, 1):
            tol[i] = tol[i] + 8 * ref.EPS * n * abs(q[i]) * np.maximum.accumulate(forc)
        tol[2] = tol[2] + (1e-9 * (mags[0] + mags[1]) + tol[0] + tol[1]) / abs(sum(q))
    return tol


def compare(kind, spec, combo, parts, weights, ctx, Fs, F=None):
    want = [sum(w * p[j] for w, p in zip(weights, parts)) for j in range(3)]
    contrib = [sum(abs(w) * np.abs(p[j]) for w, p in zip(weights, parts)) for j in range(3)]
    if not all(np.isfinite(c).all() for c in contrib) or max(c.max() for c in contrib) > 1e250:
        return
    forc = sum(abs(w) * np.abs(np.array(f, float)) for w, f in zip(weights, Fs))
    tol = tolerances(kind, spec, contrib, forc)
    for j, (g, w, t) in enumerate(zip(combo, want, tol)):
        ctx.evaluate()
        require(bool((np.abs(g - w) <= t + 1e-290).all()), "response is not linear in the forcing",
                spec=spec, output=j, weights=weights, got=g.tolist(), expected=w.tolist(), F=F)


def response(kind, m, F, ctx):
    ctx.step(len(F))
    return observe(kind, drive(m, F))


def shift_check(kind, spec, m, F, R, ctx):
    for n in DELAYS if kind == "tl" or ctx.tier == "thorough" else DELAYS[:4]:
        G = [0.0] * n + list(F)
        got = response(kind, m, G, ctx)
        ctx.at({"kind": kind, "spec": spec, "delay": n, "F": list(F)})
        for j in range(3):
            require(not np.any(got[j][: n + 1]), "response before the forcing", spec=spec, delay=n)
            require(series_near(got[j][n:], R[j], 1e-12), "delayed forcing does not delay the response",
                    spec=spec, delay=n, output=j, got=got[j].tolist(), expected=R[j].tolist())
        ctx.trace()


def run(case, ctx):
    kind = case["kind"]
    if case["group"] == "levels":
        spec = level_specs(kind)[case["spec"]]
        m = build(kind, spec)
        for shape in SHAPES:
            for other in SHAPES[:3]:
                R1, R2 = response(kind, m, shape, ctx), response(kind, m, other, ctx)
                for n, k in enumerate(LEVELS):
                    # alone, and on top of a much smaller or larger forcing
                    for w in ((k, 0.0), (k, LEVELS[n - 5])) if other is SHAPES[0] or kind == "tl" else ((k, LEVELS[n - 8]),):
                        F = [w[0] * a + w[1] * b for a, b in zip(shape, other)]
                        ctx.at({"kind": kind, "spec": spec, "F1": shape, "F2": other, "weights": w})
                        ctx.state(kind, case["spec"], str(shape), str(other), w)
                        compare(kind, spec, response(kind, m, F, ctx), (R1, R2), w, ctx, (shape, other), F)
                        ctx.trace()
        ctx.outcome(kind, "levels", case["spec"])
        ctx.sample({"spec": spec, "levels": LEVELS})
    elif case["group"] == "words":
        spec = base_spec(kind, case["base"])
        m = build(kind, spec)
        alpha = [0.0, 1.0, -2.5]
        n = 4 if ctx.tier == "thorough" else 3
        ws = list(itertools.product(alpha, repeat=n))
        R = {w: response(kind, m, list(w) + [0.0], ctx) for w in ws}
        weights = WEIGHTS[:3] + WEIGHTS[4:6]
        for w1 in ws:
            if w1[0] != alpha[case["first"]]:
                continue
            for w2 in ws:
                for k in weights if kind == "tl" or ctx.tier == "thorough" else [(1.0, 1.0), (-2.0, 3.0)]:
                    F = [k[0] * a + k[1] * b for a, b in zip(w1, w2)] + [0.0]
                    ctx.at({"kind": kind, "spec": spec, "F1": w1, "F2": w2, "weights": k})
                    ctx.state(kind, case["base"], w1, w2, k)
                    compare(kind, spec, response(kind, m, F, ctx), (R[w1], R[w2]), k, ctx, (list(w1) + [0.0], list(w2) + [0.0]), F)
                    ctx.trace()
            shift_check(kind, spec, m, w1, observe(kind, drive(m, list(w1))), ctx)
        ctx.outcome(kind, case["base"], case["first"])
        ctx.sample({"spec": spec, "words": ws[:4], "weights": weights})
    elif case["group"] == "specs":
        for i in case["idx"]:
            spec = linear_specs(kind, ctx.tier)[i]
            m = build(kind, spec)
            pairs = PAIRS if ctx.tier == "thorough" or kind == "tl" else PAIRS[i % 3 : i % 3 + 1]
            for F1, F2 in pairs:
                ctx.at({"kind": kind, "spec": spec, "F1": F1, "F2": F2})
                R1, R2 = response(kind, m, F1, ctx), response(kind, m, F2, ctx)
                for k in WEIGHTS if ctx.tier == "thorough" or kind == "tl" else WEIGHTS[i % 2 :: 2]:
                    F = [k[0] * a + k[1] * b for a, b in zip(F1, F2)]
                    ctx.at({"kind": kind, "spec": spec, "F1": F1, "F2": F2, "weights": k})
                    ctx.state(kind, str(spec), k)
                    compare(kind, spec, response(kind, m, F, ctx), (R1, R2), k, ctx, (F1, F2), F)
                    ctx.trace()
                ctx.outcome(kind, R1[0].tobytes())
            shift_check(kind, spec, m, F2, R2, ctx)
        ctx.sample({"spec": spec, "pairs": len(pairs), "weights": WEIGHTS})
    else:
        spec = base_spec(kind, case["base"])
        rows, plan = [], []
        for p, (F1, F2) in enumerate(PAIRS):
            rows += [row(F1, "a{}".format(p)), row(F2, "b{}".format(p))]
            for n, k in enumerate(WEIGHTS):
                s = "c{}-{}".format(p, n)
                rows.append(row([k[0] * a + k[1] * b for a, b in zip(F1, F2)], s))
                plan.append((p, k, s))
        m = build(kind, spec)
        got = by_series(m.run_scenarios(run_of(rows, years(1900, 6)), progress=False))
        spec["delta_t"] = [1.0, "yr"]
        names = [n for n in VARS[kind] if n != "Surface Temperature"]
        for p, k, s in plan:
            ctx.at({"kind": kind, "spec": spec, "scenario": s})
            parts = [[got[("{}{}".format(x, p), v)] for v in names] for x in "ab"]
            compare(kind, spec, [got[(s, v)] for v in names], parts, k, ctx, PAIRS[p])
            ctx.step()
            ctx.trace()
        ctx.sample({"spec": spec, "scenarios": len(rows)})
