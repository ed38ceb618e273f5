"""C22: dynamic equivalence of the two models"""
import itertools

import numpy as np

from .. import ref
from ..world import (
    CLS, build, by_series, chunked, drive, months, observe, q, require, row, run_of, ur, years,
)
from . import _dyn
from ._scen import STEP

RULE = (
    "all parameter sets over a product alphabet, in both directions of the conversion, x all forcing words over {0, 3.7, -2} x timesteps: "
    "(1) the equivalent impulse response at the grid points is the matrix exponential solution of the two-layer equations, "
    "temperatures and heat uptake; (2) dividing every step by k leaves the grid point values unchanged; (3) the difference of "
    "the two models' surface temperature and heat uptake halves whenever the timestep halves"
)
BOUNDS = {
    "quick": "243 + 216 parameter sets; words of length 3 on 6 sets, one mixed forcing on all; k in 2, 3, 12; 5 timesteps (convergence: every set with efficacy 1, every other one without)",
    "thorough": "the same with 4 values per parameter, words of length 5, k in 2, 3, 5, 12, 30; 5 timesteps",
}
CONFORMANCE = "matrix exponential of the 2x2 system (closed form), forward differences by the implementation"
ASSUMPTIONS = ["convergence order judged by the ratio of successive errors (0.42-0.58) for timesteps below a sixteenth of d1"]

F_MIX = [3.7, 3.7, -2.0, 0.0, 5.0, 5.0, -1.0, 0.25]
TL_ALPHA = [[50.0, 7.5, 250.0, 110.0], [1200.0, 120.0, 9000.0, 3000.0], [3.74 / 3, 0.5, 2.5, 0.9], [0.8, 0.1, 2.0, 0.6], [1.0, 1.3, 0.7, 1.05]]
IR_ALPHA = [[0.3, 0.05, 1.0, 0.5], [0.4, 0.08, 1.1, 0.25], [9.0, 0.8, 3.0, 20.0], [400.0, 61.5, 2000.0, 150.0], [1.0, 1.3, 0.7, 1.05]]
TLN = ("du", "dl", "lambda0", "eta", "efficacy")
IRN = ("q1", "q2", "d1", "d2", "efficacy")
TLU = ("m", "m", "W/m^2/delta_degC", "W/m^2/delta_degC", "dimensionless")
IRU = ("delta_degC/(W/m^2)", "delta_degC/(W/m^2)", "yr", "yr", "dimensionless")
STEPS = [[1.0, "yr"], [1.0, "month"], [10.0, "yr"], [5.0, "day"], [900.0, "s"]]


def alpha(kind, tier):
    a = TL_ALPHA if kind == "tl" else IR_ALPHA
    return a if tier == "thorough" else [x[:3] for x in a]


def sets(kind, tier):
    return list(itertools.product(*alpha(kind, tier)))


FEW = {"tl": [(50.0, 1200.0, 3.74 / 3, 0.8, 1.0), (7.5, 120.0, 0.5, 2.0, 1.3), (250.0, 9000.0, 2.5, 0.1, 0.7)],
       "ir": [(0.3, 0.4, 9.0, 400.0, 1.0), (0.05, 1.1, 0.8, 61.5, 1.3), (1.0, 0.08, 3.0, 2000.0, 0.7)]}


def edge_sets(kind):
    """Nearly coinciding and very different timescales, efficacies far from one"""
    out = []
    if kind == "tl":
        for du, lam, eta, eff in itertools.product((1.0, 50.0, 400.0), (0.3, 3.0), (0.05, 0.8, 3.0), (0.01, 0.03, 0.1, 0.3, 1.0, 3.0, 10.0)):
            same_rate = eta * du / (lam + eff * eta)
            for x in (1.0, 1.001, 0.9, 1.5, 0.3, 1e3, 1e5):
                out.append((du, same_rate * x, lam, eta, eff))
    else:
        for (q1, q2), d1, ratio, eff in itertools.product(
            ((0.3, 0.4), (1e-3, 1.0), (1.0, 1e-3)), (0.5, 9.0), (1.0001, 1.003, 1.05, 1.4, 20.0, 1e3, 1e5), (0.03, 0.3, 0.99, 1.0, 1.01, 3.0, 10.0)
        ):
            out.append((q1, q2, d1, d1 * ratio, eff))
    return out


def cond_tol(pair):
    """Digits which the equivalence formulas lose (as in C21)"""
    r = ref.to_impulse_response(pair.tl_base)
    d, g = r["d2"] / r["d1"], r["q1"] / r["q2"]
    return 64 * 2.3e-16 * d * ((d + 1) / (d - 1)) ** 2 * (1 + g + 1 / g)


def cases(tier):
    out = []
    for kind in ("tl", "ir"):
        for c in chunked(range(len(edge_sets(kind))), 30):
            out.append({"group": "edges", "kind": kind, "from": c[0], "to": c[-1] + 1})
    for kind in ("tl", "ir"):
        for i in range(3):
            for first in (0.0, 3.7, -2.0):
                out.append({"group": "words", "kind": kind, "few": i, "first": first})
            out.append({"group": "scenarios", "kind": kind, "few": i})
        n = len(sets(kind, tier))
        for c in chunked(range(n), 12):
            out.append({"group": "exact", "kind": kind, "from": c[0], "to": c[-1] + 1})
            out.append({"group": "order", "kind": kind, "from": c[0], "to": c[-1] + 1})
    return out


class Pair:
    """The two-layer model, its equivalent impulse response model and the exact solution"""

    def __init__(self, kind, p, step):
        names, units = (TLN, TLU) if kind == "tl" else (IRN, IRU)
        self.spec = {n: [v, u] for n, v, u in zip(names, p, units)}
        base = {n: ref.base(n, s) for n, s in self.spec.items()}
        if kind == "tl":
            self.tl_base = base
        else:
            g = ref.IR(dict(self.spec, delta_t=[1.0, "yr"])).two_layer()
            self.tl_base = {n: g[n] for n in TLN}
        self.kind = kind
        self.own = build(kind, dict(self.spec, delta_t=step))
        conv = self.own.get_impulse_response_parameters() if kind == "tl" else self.own.get_two_layer_parameters()
        self.other = CLS["ir" if kind == "tl" else "tl"](delta_t=q(step), **conv)
        self.tl, self.ir = (self.own, self.other) if kind == "tl" else (self.other, self.own)
        r = ref.to_impulse_response(self.tl_base)
        self.d = (r["d1"], r["d2"])
        b = self.tl_base
        self.C, self.CD = b["du"] * ref.RHO_CP, b["dl"] * ref.RHO_CP
        lam, eff, eta = b["lambda0"], b["efficacy"], b["eta"]
        self.M = ((-(lam + eff * eta) / self.C, eff * eta / self.C), (eta / self.CD, -eta / self.CD))

    def set_step(self, seconds):
        for m in (self.tl, self.ir):
            m.delta_t = ur.Quantity(seconds, "s")

    def exact(self, F, seconds):
        """Temperatures and heat uptake at the grid points"""
        b = self.tl_base
        lam, eff, eta = b["lambda0"], b["efficacy"], b["eta"]
        E = ref.expm2(self.M, seconds)
        T, D, N = [0.0], [0.0], [0.0]
        for f in F[:-1]:
            eq = f / lam
            N.append(f - lam * T[-1] - (eff - 1) * eta * (T[-1] - D[-1]))
            x, y = T[-1] - eq, D[-1] - eq
            T.append(eq + E[0][0] * x + E[0][1] * y)
            D.append(eq + E[1][0] * x + E[1][1] * y)
        return np.array(T), np.array(D), np.array(N)

    def terms(self, T, D):
        """Largest of the terms that make up the heat uptake"""
        b = self.tl_base
        return max(abs(b["lambda0"]) * np.abs(T).max(), abs((b["efficacy"] - 1) * b["eta"]) * (np.abs(T).max() + np.abs(D).max()))

    def run_ir(self, F):
        a, b, n = observe("ir", drive(self.ir, F))
        return a + b, n

    def run_tl(self, F):
        a, b, n = observe("tl", drive(self.tl, F))
        return a, n


def within(got, want, tol, what, **detail):
    err = np.abs(np.asarray(got) - np.asarray(want)).max()
    scale = max(1e-12, np.abs(np.asarray(want)).max())
    require(len(got) == len(want) and err <= tol * scale, what, error=float(err), scale=float(scale), got=np.asarray(got).tolist()[:20],
            expected=np.asarray(want).tolist()[:20], **detail)


def check_exact(pair, F, step, ctx, ks, tol=1e-8, htol=0.0):
    """Impulse response = exact solution; the same for divided steps"""
    sec = ref.base("delta_t", step)
    ctx.at({"kind": pair.kind, "params": pair.spec, "step": step, "F": list(F)})
    pair.set_step(sec)
    T, D, N = pair.exact(F, sec)
    t, n = pair.run_ir(F)
    within(t, T, tol, "impulse response is not the exact solution of the two-layer equations", params=pair.spec, step=step)
    fl = max(abs(f) for f in F) or 1.0
    require(np.abs(n - N).max() <= (1e-7 + htol) * max(fl, np.abs(N).max(), pair.terms(T, D)), "heat uptake is not that of the exact two-layer solution", params=pair.spec,
            step=step, got=n.tolist(), expected=N.tolist())
    ctx.step(len(F))
    for k in ks:
        fine = [f for f in F for _ in range(k)]
        pair.set_step(sec / k)
        tk, nk = pair.run_ir(fine)
        within(tk[::k], t, 1e-9, "result depends on the timestep dividing the pieces", params=pair.spec, step=step, k=k)
        # the first value of each piece shows the previous (sub)step's budget, at the exact state there
        Tk, Dk, Nk = pair.exact(fine, sec / k)
        require(np.abs(nk - Nk).max() <= (1e-7 + htol) * max(fl, np.abs(Nk).max(), pair.terms(T, D)), "heat uptake is not that of the exact two-layer solution",
                params=pair.spec, step=step, k=k)
        ctx.step(len(fine))
    ctx.trace(1 + len(ks))
    ctx.evaluate(2 + 2 * len(ks))
    ctx.state(pair.kind, sorted(pair.spec.items()), step, F)


def check_order(pair, ctx, halvings):
    """Errors halve with the timestep"""
    d1 = pair.d[0]
    horizon = 6.0 * d1
    pieces = [4.0, 4.0, -2.0, 1.0]
    errs = {"temperature": [], "heat uptake": []}
    n0 = (24 if halvings > 3 else 14) * len(pieces)
    for h in range(halvings):
        n = n0 * 2 ** h // len(pieces)
        F = [f for f in pieces for _ in range(n)] + [0.0]
        pair.set_step(horizon / (n * len(pieces)))
        t1, h1 = pair.run_tl(F)
        t2, h2 = pair.run_ir(F)
        errs["temperature"].append(float(np.abs(t1 - t2).max()))
        errs["heat uptake"].append(float(np.abs(h1 - h2).max()))
        scale = {"temperature": float(np.abs(t2).max()), "heat uptake": float(np.abs(h2).max())}
        ctx.step(2 * len(F))
    ctx.at({"kind": pair.kind, "params": pair.spec, "errors": errs})
    for k, e in errs.items():
        require(e[-1] < 0.1 * scale[k], "models differ at a small timestep", what=k, errors=e, scale=scale[k], params=pair.spec)
        for a, b in zip(e[-3:], e[-2:]):
            if a <= 1e-9 * scale[k]:
                continue  # identical already
            require(0.42 <= b / a <= 0.58, "models do not converge at first order", what=k, errors=e, params=pair.spec)
    ctx.outcome(pair.kind, sorted(pair.spec.items()), *errs["temperature"])
    ctx.trace(halvings)
    ctx.evaluate(4)
    ctx.state(pair.kind, "order", sorted(pair.spec.items()))


def run(case, ctx):
    kind, group = case["kind"], case["group"]
    deep = ctx.tier == "thorough"
    ks = (2, 3, 5, 12, 30) if deep else (2, 3, 12)
    if group == "words":
        p = FEW[kind][case["few"]]
        for step in STEPS:
            pair = Pair(kind, p, step)
            for n in range(1, 6 if deep else 4):
                for w in itertools.product((0.0, 3.7, -2.0), repeat=n - 1):
                    F = [case["first"]] + list(w)
                    check_exact(pair, F, step, ctx, ks[:2])
            ctx.outcome(kind, p, step)
        ctx.sample({"kind": kind, "params": p, "steps": STEPS, "first": case["first"]})
    elif group == "exact":
        for i, p in enumerate(sets(kind, ctx.tier)[case["from"] : case["to"]]):
            step = STEPS[(case["from"] + i) % len(STEPS)]
            pair = Pair(kind, p, step)
            # with efficacy other than one the implementation converts at every step, which is slow
            check_exact(pair, F_MIX if p[4] == 1.0 or deep else F_MIX[:4], step, ctx, ks if deep else (ks[i % 2],))
            ctx.outcome(kind, p, step)
        ctx.sample({"kind": kind, "params": pair.spec, "step": step, "forcing": F_MIX})
    elif group == "edges":
        for i, p in enumerate(edge_sets(kind)[case["from"] : case["to"]]):
            # (very small steps lose digits in the decay over a step)
            steps = STEPS[:4] if deep else [STEPS[i % 4]]
            for step in steps:
                pair = Pair(kind, p, step)
                tol = cond_tol(pair)
                if tol > 1e-5:
                    continue
                check_exact(pair, F_MIX if deep else F_MIX[:4], step, ctx, ks[:1], tol=1e-8 + tol, htol=tol)
            ctx.outcome(kind, p)
        ctx.sample({"kind": kind, "params": pair.spec, "step": step})
    elif group == "order":
        for i, p in enumerate(sets(kind, ctx.tier)[case["from"] : case["to"]]):
            if not deep and p[4] != 1.0 and (i // 3) % 2:
                continue
            pair = Pair(kind, p, [1.0, "yr"])
            check_order(pair, ctx, 6 if deep else 3)
        ctx.sample({"kind": kind, "params": pair.spec, "d1_seconds": pair.d[0]})
    elif group == "scenarios":
        p = FEW[kind][case["few"]]
        F = F_MIX + [2.0] * 5
        for axis, name in ((years(1999, 13), "yearly"), (months(1999, 13), "monthly")):
            pair = Pair(kind, p, [3.0, "day"])
            sec = ref.base("delta_t", STEP[name])
            T, D, N = pair.exact(F, sec)
            got = by_series(pair.ir.run_scenarios(run_of([row(F, "a"), row(F[::-1], "b")], axis), progress=False))
            ctx.at({"kind": kind, "params": pair.spec, "axis": name})
            within(got[("a", "Surface Temperature")], T, 1e-8, "impulse response is not the exact solution of the two-layer equations",
                   params=pair.spec, axis=name)
            within(got[("a", "Heat Uptake")], N, 1e-7, "heat uptake is not that of the exact two-layer solution", params=pair.spec, axis=name)
            tl = by_series(pair.tl.run_scenarios(run_of([row(F, "a"), row(F[::-1], "b")], axis), progress=False))
            if name == "monthly" and pair.d[0] > 24 * sec:
                require(np.abs(tl[("a", "Surface Temperature|Upper")] - T).max() <= 0.1 * np.abs(T).max(), "models differ at a small timestep",
                        params=pair.spec)
            ctx.trace(2)
            ctx.step(4 * len(F))
            ctx.state(kind, "scen", p, name)
        ctx.sample({"kind": kind, "params": p, "axes": ["yearly", "monthly"]})
