"""C15: driver selection"""
import itertools

import numpy as np

from ..world import (
    DRIVER, build, canon_frame, chunked, expect, require, row, run_of, same_frames, dt, years, months,
)
from . import _dyn
from ._scen import verify_row, rows_of

RULE = (
    "all subsets of a pool of 11 timeseries (drivers; other regions; sub- and super-variables; other units; other "
    "time axes; other metadata) x choices of driver_var; the output has to equal the output for exactly the matching "
    "timeseries, and the refusal has to come exactly when there are none"
)
BOUNDS = {
    "quick": "all 2047 subsets for the default choice with the two-layer model; subsets of size <= 2 and >= 10 for 6 other choices and the impulse response model; 13 region names which nearly are World",
    "thorough": "all subsets for all choices and both models",
}
CONFORMANCE = "the selection rule's verdict on every subset is compared with the real run_scenarios"
ASSUMPTIONS = ["a wildcard in driver_var means what it means in scmdata filters"]

nan = np.nan
AXIS = [dt.datetime(2001, 1, 1), dt.datetime(2002, 1, 1), dt.datetime(2002, 5, 17), dt.datetime(2003, 1, 1), dt.datetime(2004, 1, 1),
        dt.datetime(2011, 6, 1)]


def on(main, extra=(nan, nan)):
    """Values at the yearly points and at the odd points"""
    return [main[0], main[1], extra[0], main[2], main[3], extra[1]]


POOL = [
    row(on([3.74, -2.5, 6.0, 1.0]), "a"),
    row(on([1.0, 2.0, 3.0, nan]), "b", unit="mW/m^2"),
    row(on([9.0, 9.0, 9.0, 9.0]), "a", region="World|Northern Hemisphere"),
    row(on([5.0, 5.5, 5.0, 5.0]), "a", variable=DRIVER + "|CO2"),
    row(on([7.0, nan, 2.0, 7.0], (8.0, 8.0)), "a", variable="Emissions|CO2", unit="GtC/yr"),
    row(on([nan, nan, nan, nan], (8.0, 7.0)), "c", variable="Surface Temperature", unit="K", tag="x"),
    row(on([2.0, 2.0, 2.0, 2.0]), "e", variable="Radiative Forcing"),
    row(on([4.0, 4.0, 4.0, 4.0]), "b", region="R5ASIA"),
    row(on([1.0, 1.5, 1.0, 0.0]), "d", variable=DRIVER + "|Anthropogenic"),
    row(on([nan, nan, 3.0, 2.0], (1.0, nan)), "c", region="world ocean", unit="K"),
    row(on([3.74, -2.5, 6.0, 1.0]), "f"),  # the same values as the first
]
TWINS = [
    row(on([3.74, -2.5, 6.0, 1.0]), "a"),
    row(on([3.74, -2.5, 6.0, 1.0]), "a", model="n"),
    row(on([3.74, -2.5, 6.0, 1.0]), "c", model="n", unit="mW/m^2"),
    row(on([3.74, -2.5, 6.0, 1.0]), "a", variable="Radiative Forcing"),
    row(on([3.74, -2.5, 6.0, 1.0]), "b", model="n"),
    row(on([0.0, 0.0, 0.0, 0.0]), "a", model="zero"),
    row(on([0.0, 0.0, 0.0, 0.0]), "zero", model="m"),
    row(on([nan, -2.5, 6.0, 1.0]), "part"),
]
DEEP = [
    row(on([3.74, -2.5, 6.0, 1.0]), "a", variable="F|A|B"),
    row(on([1.0, -2.5, 6.0, 1.0]), "a", variable="F|A|B|C"),
    row(on([2.0, -2.5, 6.0, 1.0]), "a", variable="F|A|B|C|D"),
    row(on([3.0, 2.5, 6.0, 1.0]), "a", variable="F|A|B|C|E"),
    row(on([4.0, 2.5, 6.0, 1.0]), "a", variable="F|A|B|C|D|G"),
    row(on([5.0, 2.5, 6.0, 1.0]), "a", variable="F|X|B|C|D"),
    row(on([6.0, 2.5, 6.0, 1.0]), "a", variable="f|a|b|c|d2"),
    row(on([7.0, 2.5, 6.0, 1.0]), "a", variable="F|A|B|C|DD"),
    row(on([8.0, 2.5, 6.0, 1.0]), "a", variable="F|A|B|C|D", region="World|A|B"),
]
V = on([3.74, -2.5, 6.0, 1.0])
# names which are nearly that of the region
REGIONS = [row([x + i for x in V], "a", region=r) for i, r in enumerate(
    ("World", "world", "WORLD", "World ", " World", "Worlds", "Worl", "World|", "World*", "*", "W.rld", "Wor ld", "World|World"))]
# drivers in four units: all of them are run
UNITS = [row([x + i for x in V], s, unit=u) for i, (s, u) in enumerate(
    (("a", "W/m^2"), ("b", "mW/m^2"), ("c", "kW/m^2"), ("d", "W/m^2"), ("e", "W / km^2"), ("f", "mW/m^2")))]
POOLS = {"units": UNITS, "main": POOL, "twins": TWINS, "deep": DEEP, "regions": REGIONS}
CHOICES = {
    "default": ({}, lambda v: v == DRIVER),
    "explicit": ({"driver_var": DRIVER}, lambda v: v == DRIVER),
    "co2": ({"driver_var": DRIVER + "|CO2"}, lambda v: v == DRIVER + "|CO2"),
    "anthro": ({"driver_var": DRIVER + "|Anthropogenic"}, lambda v: v == DRIVER + "|Anthropogenic"),
    "other": ({"driver_var": "Radiative Forcing"}, lambda v: v == "Radiative Forcing"),
    "list": ({"driver_var": [DRIVER, "Radiative Forcing"]}, lambda v: v in (DRIVER, "Radiative Forcing")),
    "wild": ({"driver_var": DRIVER + "|*"}, lambda v: v.startswith(DRIVER + "|")),
    "deep 2": ({"driver_var": "F|A|B"}, lambda v: v == "F|A|B"),
    "deep 3": ({"driver_var": "F|A|B|C"}, lambda v: v == "F|A|B|C"),
    "deep 4": ({"driver_var": "F|A|B|C|D"}, lambda v: v == "F|A|B|C|D"),
    "deep 5": ({"driver_var": "F|A|B|C|D|G"}, lambda v: v == "F|A|B|C|D|G"),
    "none": ({"driver_var": "Nothing"}, lambda v: False),
}


def subsets(tier, full, pool=POOL):
    n = len(pool)
    out = []
    for size in range(1, n + 1):
        for c in itertools.combinations(range(n), size):
            if full or size <= 2 or size >= n - 1:
                out.append(list(c))
    return out


def cases(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("tl", "ir"):
        for c in chunked(subsets(tier, False, REGIONS) + [list(range(1, k)) for k in range(4, len(REGIONS))], 24):
            out.append({"kind": kind, "choice": "default", "subsets": c, "pool": "regions"})
        for pool, choices in (("units", ("default", "explicit")), ("twins", ("default", "other")), ("deep", ("deep 2", "deep 3", "deep 4", "deep 5"))):
            for k, choice in enumerate(choices):
                full = deep or (kind == "tl" and choice in ("default", "deep 4"))
                for c in chunked(subsets(tier, full, POOLS[pool]), 24):
                    out.append({"kind": kind, "choice": choice, "subsets": c, "pool": pool})
    for choice in CHOICES:
        if choice.startswith("deep"):
            continue
        for kind in ("tl", "ir"):
            full = deep or (choice == "default" and kind == "tl")
            if not deep and kind == "ir" and choice not in ("default", "co2"):
                continue
            for c in chunked(subsets(tier, full), 24):
                out.append({"kind": kind, "choice": choice, "subsets": c})
    return out


_ONLY = {}


def only(kind, rows, idx, kw, pool):
    key = (kind, tuple(idx), repr(kw), pool)
    if key not in _ONLY:
        m = build(kind, _dyn.base_points(kind)[0])
        clean = []
        for r in rows:
            clean.append(dict(r))
        # just the matching rows, on just their own time points
        keep = [i for i in range(len(AXIS)) if any(r["values"][i] == r["values"][i] for r in clean)]
        for r in clean:
            r["values"] = [r["values"][i] for i in keep]
        ax = [AXIS[i] for i in keep]
        out = m.run_scenarios(run_of(clean, ax), progress=False, **kw)
        _ONLY[key] = (canon_frame(out), rows_of(out), clean, ax)
    return _ONLY[key]


def run(case, ctx):
    kind = case["kind"]
    kw, match = CHOICES[case["choice"]]
    pool = POOLS[case.get("pool", "main")]
    for idx in case["subsets"]:
        rows = [dict(pool[i], values=list(pool[i]["values"])) for i in idx]
        want = [i for i in idx if match(pool[i]["variable"]) and pool[i]["region"] == "World"]
        ctx.at({"kind": kind, "timeseries": idx, "choice": case["choice"]})
        data = run_of(rows, AXIS)
        m = build(kind, _dyn.base_points(kind)[0])
        ctx.step()
        ctx.state(kind, case["choice"], tuple(idx))
        if not want:
            exc = expect(ValueError, lambda: m.run_scenarios(data, progress=False, **kw), ctx, "no driver data")
            require(not isinstance(exc, NotImplementedError), "wrong refusal")
            name = str(kw.get("driver_var", DRIVER))
            require(name in str(exc), "refusal does not name driver_var", text=str(exc), driver_var=name)
            ctx.outcome("refused")
            continue
        out = m.run_scenarios(data, progress=False, **kw)
        frame, res, clean, ax = only(kind, [pool[i] for i in want], want, kw, case.get("pool"))
        drop = tuple(n for n in ("tag",) if n in canon_frame(out).index.names)
        got = canon_frame(out, drop=drop)
        require(same_frames(got, frame), "result is not that of exactly the requested drivers", subset=idx, drivers=want,
                choice=case["choice"], got=lambda: str(got)[:1500], expected=lambda: str(frame)[:1500])
        mine = rows_of(out)
        require(len(mine) == len(want) * (4 if kind == "tl" else 5), "number of series", subset=idx, got=len(mine))
        spec = _dyn.base_points(kind)[0]
        for r in clean:
            verify_row(kind, spec, mine, r, ax, [1.0, "yr"], ctx, ident=("model", "scenario", "region"))
        ctx.outcome(kind, tuple(want))
    ctx.sample({"kind": kind, "choice": case["choice"], "timeseries": idx})
