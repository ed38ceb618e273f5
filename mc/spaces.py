"""
Finite alphabets and the enumerations over them that several checks share
"""
import itertools

import numpy as np

YR = "yr"

# product alphabets (combined with each other)
TL_PROD = {
    "du": [50, 7.5, 250.0],
    "dl": [1200, 120.0, 1e15],
    "lambda0": [3.74 / 3, 0.4, 3.0],
    "a": [0.0, 0.05, -0.08, 0.3],
    "efficacy": [1.0, 1.28, 0.7, 1.005],
    "eta": [0.8, 0.0, 1.7],
    "delta_t": [[1.0, "yr"], [1.0, "month"], [1.0, "day"], [5.0, "yr"]],
}
IR_PROD = {
    "q1": [0.3, 0.05, 1.4],
    "q2": [0.4, 0.02, 1.1],
    "d1": [[9.0, "yr"], [0.4, "yr"], [60.0, "yr"]],
    "d2": [[400.0, "yr"], [61.5, "yr"], [9000.0, "yr"]],
    "efficacy": [1.0, 1.28, 0.7, 1.005],
    "delta_t": [[1 / 12, "yr"], [1.0, "yr"], [1.0, "day"], [30.0, "yr"]],
}
# one parameter at a time over a wide range
TL_STAR = {
    "du": [1, 1e-3, 0.1, 0.9, 1.1, 10, 49.999, 50.001, 77, 100, 999.0, 1e4, 1e6],
    "dl": [1, 0.1, 10, 49.0, 51.0, 100, 999, 1199.999, 1201, 3700, 1e5, 1e9, 1e15, 1e20],
    "lambda0": [1, 1e-6, 0.01, 0.5, 0.999, 1.001, 2, 5.0, 10.0, 100.0, 0, -0.2, -1.5],
    "a": [1e-9, 1e-4, 0.01, 0.1, 0.5, 1, 2, -1e-9, -0.01, -0.1, -1, 0],
    "efficacy": [
        1, 0, 0.01, 0.5, 0.9, 0.99, 0.999, 0.999999, 1.000001, 1.001, 1.01, 1.1, 1.5, 2, 3.0,
        10.0, 100.0, -0.5, 1 + 3e-8, 1 - 3e-8, 1 + 1e-9, 1 - 1e-7,
    ],
    "eta": [1, 0, 1e-9, 1e-3, 0.1, 0.5, 0.799, 0.801, 1.5, 2, 5.0, 20.0],
    "delta_t": [
        [1, "s"], [1, "h"], [1, "day"], [5, "day"], [30, "day"], [31, "day"], [365, "day"],
        [366, "day"], [1, "month"], [3, "month"], [12, "month"], [1, "yr"], [2, "yr"],
        [10, "yr"], [100, "yr"],
    ],
}
IR_STAR = {
    "q1": [1, 1e-6, 0.01, 0.1, 0.299, 0.301, 0.4, 0.7, 2, 10.0, 0, -0.1],
    "q2": [1, 1e-6, 0.01, 0.1, 0.3, 0.399, 0.401, 0.7, 2, 10.0, 0, -0.1],
    "d1": [
        [1, "yr"], [1e-3, "yr"], [0.1, "yr"], [2.5, "yr"], [8.999, "yr"], [10, "yr"],
        [50.0, "yr"], [399.0, "yr"], [100, "day"], [17, "month"],
    ],
    "d2": [
        [10, "yr"], [9.001, "yr"], [12.0, "yr"], [50.0, "yr"], [399.9, "yr"], [1000, "yr"],
        [1e5, "yr"], [1e8, "yr"], [3e3, "month"], [2e4, "day"],
    ],
    "efficacy": [
        1, 0.01, 0.5, 0.9, 0.99, 0.999, 0.999999, 1.000001, 1.001, 1.01, 1.1, 1.5, 2, 3.0,
        10.0, 100.0, 1 + 3e-8, 1 - 3e-8, 1 + 1e-9, 1 - 1e-7,
    ],
    "delta_t": [
        [1, "s"], [1, "h"], [1, "day"], [30, "day"], [31, "day"], [365, "day"], [1, "month"],
        [3, "month"], [12, "month"], [1, "yr"], [2, "yr"], [9, "yr"], [10, "yr"], [100, "yr"],
        [400, "yr"], [1e4, "yr"], [1e6, "yr"],
    ],
}
PROD = {"tl": TL_PROD, "ir": IR_PROD}
STAR = {"tl": TL_STAR, "ir": IR_STAR}
# second base point for the sweeps: nothing at its default
OTHER = {
    "tl": {
        "du": [81.25, "m"], "dl": [640.0, "m"], "lambda0": [0.9, "W/m^2/delta_degC"],
        "a": [0.04, "W/m^2/delta_degC^2"], "efficacy": [1.31, "dimensionless"],
        "eta": [0.55, "W/m^2/delta_degC"], "delta_t": [1.0, "month"],
    },
    "ir": {
        "q1": [0.45, "delta_degC/(W/m^2)"], "q2": [0.21, "delta_degC/(W/m^2)"],
        "d1": [3.3, "yr"], "d2": [145.0, "yr"], "efficacy": [1.37, "dimensionless"],
        "delta_t": [1.0, "yr"],
    },
}

# contains every ordered pair of {0, +, -, tiny, large} neighbours that matters
F_MIX = [3.74, 3.74, -2.5, 0.0, 0.0, 1e-7, 8.0, -2.5, -1e-3, 40.0, 0.0, 3.74, 5.0]
F_ALPHA = [0.0, 3.74, -2.5, 1e-7, 60.0]


def dtypes():
    """The same whole-number forcing in different array forms"""
    vals = [4, 4, -3, 0, 0, 7, -3, 4, 12, 12, 1]
    out = []
    for name in ("float64", "int64", "int32", "int16", "float32"):
        out.append((name, np.array(vals, dtype=name)))
    big = np.zeros((len(vals), 3))
    big[:, 1] = vals
    out.append(("strided", big[:, 1]))
    out.append(("reversed", np.array(vals[::-1], float)[::-1]))
    ro = np.array(vals, float)
    ro.setflags(write=False)
    out.append(("readonly", ro))
    out.append(("bigendian", np.array(vals, dtype=">f8")))
    return out


def long_forcing(n):
    """Deterministic irregular long forcing (no randomness)"""
    out, x = [], 1
    for i in range(n):
        x = (x * 1103515245 + 12345) % (2 ** 31)
        out.append(5.0 * i / n + (x / 2 ** 31 - 0.5) * 2 - (12.0 if i % 97 == 13 else 0.0))
    return out


def product_specs(kind, defaults, drop=()):
    """All combinations of the product alphabets"""
    prod = PROD[kind]
    names = [k for k in prod if k not in drop]
    for combo in itertools.product(*(prod[k] for k in names)):
        out = {}
        for k in defaults:
            out[k] = list(defaults[k])
        for k, v in zip(names, combo):
            out[k] = list(v) if isinstance(v, list) else [v, defaults[k][1]]
        yield out


def valid_ir(spec, unit_factor):
    """d1 < d2"""
    return (
        spec["d1"][0] * unit_factor[spec["d1"][1]]
        < spec["d2"][0] * unit_factor[spec["d2"][1]]
    )


EQUAL = {
    "tl": [("du", "dl"), ("dl", "du"), ("lambda0", "eta"), ("eta", "lambda0")],
    "ir": [("q1", "q2"), ("q2", "q1"), ("d1", "delta_t"), ("d2", "delta_t"), ("delta_t", "d1"), ("delta_t", "d2")],
}


def star_specs(kind, defaults, units_time):
    """All single-parameter deviations from the two base points"""
    for b in (defaults, OTHER[kind]):
        for k, vals in STAR[kind].items():
            for v in vals:
                out = {n: list(s) for n, s in b.items()}
                out[k] = list(v) if isinstance(v, list) else [v, b[k][1]]
                if kind == "ir" and not valid_ir(out, units_time):
                    continue
                yield out
    # values equal to those of the other parameters of the same sort
    for b in (defaults, OTHER[kind]):
        for k, o in EQUAL[kind]:
            for v in (b[o], defaults[o], OTHER[kind][o]):
                out = {n: list(s) for n, s in b.items()}
                out[k] = list(v)
                if kind == "ir" and not valid_ir(out, units_time):
                    continue
                yield out
