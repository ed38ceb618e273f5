"""C23: order of the timescales"""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import ref, registry
from ..world import CLS, DEFAULTS, all_same, build, chunked, drive, expect, observe, q, require, ur

RULE = (
    "all pairs of durations from an alphabet of 22 x all pairs of 7 units x argument forms (number types, order of keywords, positional, other "
    "parameters set): refused exactly when d1 is not shorter than d2 as a duration; pairs of "
    "neighbouring floats; each one with the other at its default"
)
BOUNDS = {"quick": "22 x 22 durations x 49 unit pairs, 40 neighbours, 4 forms in rotation; all pairs of the units of time of the registry with 4 pairs of durations", "thorough": "all forms for each pair"}
CONFORMANCE = "order of the exact rational durations"
ASSUMPTIONS = [
    "in different units, durations within 1e-12 of each other may be ordered either way (rounding of the conversion) unless both are representable exactly",
]

UNITS = ["yr", "month", "day", "h", "s", "kyr", "ms"]
EXACT = {  # seconds, as exact numbers
    "yr": Fraction(31557600), "month": Fraction(2629800), "day": Fraction(86400), "h": Fraction(3600), "s": Fraction(1),
    "kyr": Fraction(31557600000), "ms": Fraction(1, 1000),
}
# durations in seconds
DUR = [31557600.0 * y for y in (9, 400, 1, 2, 3.5, 9.5, 8.99, 9.01, 10, 12, 399, 401, 1000, 0.5, 1 / 12, 12 * 9, 1e-3, 1e6)] + [86400.0, 3600.0, 1.0, 366 * 86400.0]
SAME = [("12", "month", "1", "yr"), ("1", "kyr", "1000", "yr"), ("24", "h", "1", "day"), ("24", "month", "2", "yr"),
        ("4800", "month", "400", "yr"), ("9", "yr", "108", "month"), ("1461", "day", "4", "yr"), ("1000", "ms", "1", "s")]
FORMS = ("keywords", "reversed", "positional", "with others")


def cases(tier):
    deep = tier == "thorough"
    out = []
    pairs = list(itertools.product(range(len(DUR)), repeat=2))
    for i, (u1, u2) in enumerate(itertools.product(UNITS, repeat=2)):
        out.append({"group": "pairs", "units": [u1, u2], "forms": list(range(4)) if deep else [i % 4, (i + 1) % 4]})
    out.append({"group": "neighbours"})
    out.append({"group": "same"})
    tu = list(registry.units("time"))
    for c in chunked(range(len(tu)), 6):
        out.append({"group": "registry", "idx": c})
    out.append({"group": "defaults"})
    out.append({"group": "types"})
    return out


def construct(a, b, form):
    """Impulse response model with d1 = a, d2 = b"""
    cls = CLS["ir"]
    if form == "keywords":
        return cls(d1=a, d2=b)
    if form == "reversed":
        return cls(d2=b, d1=a)
    if form == "positional":
        return cls(ur.Quantity(0.5, "K/(W/m^2)"), ur.Quantity(0.2, "K/(W/m^2)"), a, b)
    return cls(efficacy=ur.Quantity(1.3, "dimensionless"), delta_t=ur.Quantity(2, "day"), q2=ur.Quantity(0.1, "K/(W/m^2)"), d2=b, d1=a)


def verdict(a, ua, b, ub):
    """True (accepted), False (refused), None (rounding decides)"""
    x, y = Fraction(float(a)) * EXACT[ua], Fraction(float(b)) * EXACT[ub]
    if ua != ub and abs(x - y) <= max(x, y) / 10 ** 12:
        return None
    return x < y


def check(a, ua, b, ub, form, ctx, want="ask"):
    if want == "ask":
        want = verdict(a, ua, b, ub)
    qa, qb = ur.Quantity(a, ua), ur.Quantity(b, ub)
    ctx.at({"d1": [repr(a), ua], "d2": [repr(b), ub], "form": form})
    ctx.step()
    ctx.trace()
    ctx.state(repr(a), ua, repr(b), ub, form)
    if want is None:
        try:
            construct(qa, qb, form)
        except ValueError:
            pass
        return
    if not want:
        exc = expect(ValueError, lambda: construct(qa, qb, form), ctx, "d1 is not shorter than d2", d1=str(qa), d2=str(qb))
        from ..world import UnitError

        require(not isinstance(exc, UnitError), "refused as wrong unit", d1=str(qa), d2=str(qb))
        ctx.outcome("refused", ua, ub, form)
        return
    ctx.evaluate()
    m = construct(qa, qb, form)
    require(m.d1.magnitude == a and m.d2.magnitude == b and m.d1.units == qa.units and m.d2.units == qb.units,
            "timescales do not read back", d1=str(m.d1), d2=str(m.d2))
    ctx.outcome("accepted", ua, ub, form)


def run(case, ctx):
    group = case["group"]
    if group == "pairs":
        u1, u2 = case["units"]
        for s1, s2 in itertools.product(DUR, repeat=2):
            a, b = s1 / ref.UNITS["time"][u1], s2 / ref.UNITS["time"][u2]
            for f in case["forms"]:
                check(a, u1, b, u2, FORMS[f], ctx)
        # numbers in the other order than the durations
        for a, b in itertools.product((1.0, 5.0, 100.0, 4e3), repeat=2):
            for f in range(4):
                check(a, u1, b, u2, FORMS[f], ctx)
        ctx.sample({"units": case["units"], "d1": a, "d2": b})
    elif group == "neighbours":
        for v in (9.0, 400.0, 0.1, 1e-3, 1e6, 1 / 3):
            for u in UNITS:
                up = math.nextafter(v, math.inf)
                up3 = v
                for _ in range(3):
                    up3 = math.nextafter(up3, math.inf)
                for f in FORMS:
                    check(v, u, v, u, f, ctx)
                    if u == "yr":
                        # the model's own unit: no conversion, no rounding
                        check(v, u, up, u, f, ctx)
                        check(up, u, v, u, f, ctx)
                    for rel in (1e-13, 1e-9, 1e-6, 1e-3):
                        check(v, u, v * (1 + rel), u, f, ctx)
                        check(v * (1 + rel), u, v, u, f, ctx)
                        for u2 in UNITS:
                            w = v * ref.UNITS["time"][u] / ref.UNITS["time"][u2]
                            check(v, u, w * (1 + rel), u2, f, ctx)
                            check(v * (1 + rel), u, w, u2, f, ctx)
        ctx.sample({"values": "floats next to each other"})
    elif group == "registry":
        # every pair of units of time of the registry
        fac = registry.units("time")
        names = list(fac)
        n = 0
        for i in case["idx"]:
            for j, u2 in enumerate(names):
                u1 = names[i]
                for s1, s2 in ((3e8, 1e10), (1e10, 3e8), (3e8, 3e8 * 1.001), (3e8 * 1.001, 3e8)):
                    a, b = s1 / fac[u1], s2 / fac[u2]
                    check(a, u1, b, u2, FORMS[(i + j) % 4], ctx, want=s1 < s2)
                    n += 1
        ctx.sample({"units": [names[i] for i in case["idx"]], "pairs": n})
    elif group == "same":
        for a, ua, b, ub in SAME:
            a, b = float(a), float(b)
            for f in FORMS:
                check(a, ua, b, ub, f, ctx, want=False)
                check(b, ub, a, ua, f, ctx, want=False)
        ctx.sample({"equal durations": SAME})
    elif group == "defaults":
        for s in DUR:
            for u in UNITS:
                v = s / ref.UNITS["time"][u]
                for which, other in (("d1", DEFAULTS["ir"]["d2"]), ("d2", DEFAULTS["ir"]["d1"])):
                    a = (v, u, other[0], other[1]) if which == "d1" else (other[0], other[1], v, u)
                    want = verdict(*a)
                    ctx.at({which: [v, u], "other": "default"})
                    ctx.step()
                    ctx.state(which, v, u)
                    if want is None:
                        continue
                    if want:
                        CLS["ir"](**{which: ur.Quantity(v, u)})
                    else:
                        expect(ValueError, lambda: CLS["ir"](**{which: ur.Quantity(v, u)}), ctx, "d1 is not shorter than d2", which=which,
                               value=[v, u])
                    ctx.outcome(which, want, u)
                    ctx.trace()
                    # a refused construction leaves nothing behind
                    d = CLS["ir"]()
                    require([d.d1.magnitude, str(d.d1.units), d.d2.magnitude] == [9.0, str(ur.Quantity(1, "yr").units), 400.0], "defaults changed",
                            d1=str(d.d1), d2=str(d.d2))
        for v, u in ((9.0, "yr"), (400.0, "yr"), (108.0, "month"), (4800.0, "month"), (0.4, "kyr")):
            qv = ur.Quantity(v, u)
            if v in (9.0, 108.0):
                expect(ValueError, lambda: CLS["ir"](d2=qv), ctx, "d1 is not shorter than d2", d2=str(qv))
            elif u != "kyr":
                expect(ValueError, lambda: CLS["ir"](d1=qv), ctx, "d1 is not shorter than d2", d1=str(qv))
        ctx.sample({"other timescale": "default"})
    elif group == "types":
        for conv in (int, float, np.int64, np.float64, np.float32, np.int32):
            for a, b in itertools.product((1, 2, 9, 10, 108, 400, 401), repeat=2):
                for u1, u2 in itertools.product(("yr", "month", "day"), repeat=2):
                    check(conv(a), u1, conv(b), u2, "keywords", ctx, want="ask" if u1 == u2 else
                          (None if conv in (np.float32,) and abs(a * ref.UNITS["time"][u1] / (b * ref.UNITS["time"][u2]) - 1) < 1e-5 else "ask"))
        ctx.sample({"number types": "int, float, numpy"})
