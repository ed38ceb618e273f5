"""
Reference transition systems

Written from the published equations (Held et al. 2010, Geoffroy et al. 2013)
and the documentation, in plain Python floats, without using the code under
test, numpy or pint.
"""
import math

EPS = 2.0 ** -52
RHO_CP = 1000.0 * 4181.0  # J / delta_degC / m^3
YEAR = 365.25 * 86400.0  # s
MONTH = YEAR / 12.0

# unit -> factor to the model's base unit for that kind of quantity
UNITS = {
    "length": {"m": 1.0, "km": 1e3, "cm": 1e-2, "mm": 1e-3, "hm": 1e2},
    "time": {
        "s": 1.0,
        "yr": YEAR,
        "month": MONTH,
        "day": 86400.0,
        "h": 3600.0,
        "kyr": YEAR * 1e3,
        "ms": 1e-3,
    },
    "flux": {
        "W/m^2": 1.0,
        "kW/m^2": 1e3,
        "mW/m^2": 1e-3,
        "W/km^2": 1e-6,
        "J/s/m^2": 1.0,
        "J/day/m^2": 1.0 / 86400.0,
        "W/cm^2": 1e4,
        "mW/cm^2": 10.0,
    },
    "feedback": {
        "W/m^2/delta_degC": 1.0,
        "W/m^2/K": 1.0,
        "W/K/m^2": 1.0,
        "mW/m^2/K": 1e-3,
        "kW/m^2/delta_degC": 1e3,
        "kW/m^2/K": 1e3,
        "W/m^2/mK": 1e3,
        "W/km^2/K": 1e-6,
        "W/cm^2/K": 1e4,
    },
    "feedback2": {
        "W/m^2/delta_degC^2": 1.0,
        "W/m^2/K^2": 1.0,
        "mW/m^2/K^2": 1e-3,
        "kW/m^2/K/delta_degC": 1e3,
        "mW/cm^2/K^2": 10.0,
    },
    "ratio": {"dimensionless": 1.0, "m/km": 1e-3, "km/m": 1e3, "W/W": 1.0, "cm/m": 1e-2},
    "sens": {
        "delta_degC/(W/m^2)": 1.0,
        "K/(W/m^2)": 1.0,
        "mK/(W/m^2)": 1e-3,
        "K*m^2/W": 1.0,
        "delta_degC/(kW/m^2)": 1e-3,
        "kK*m^2/W": 1e3,
        "K*km^2/W": 1e6,
    },
    "temperature": {"K": 1.0, "delta_degC": 1.0, "mK": 1e-3, "kK": 1e3},
}

KIND = {
    "du": "length",
    "dl": "length",
    "lambda0": "feedback",
    "a": "feedback2",
    "efficacy": "ratio",
    "eta": "feedback",
    "delta_t": "time",
    "q1": "sens",
    "q2": "sens",
    "d1": "time",
    "d2": "time",
    "erf": "flux",
}


def base(name, spec):
    """Value of [magnitude, unit] in base units"""
    return spec[0] * UNITS[KIND[name]][spec[1]]


def finite(*vals):
    """Whether all values are ordinary numbers"""
    return all(math.isfinite(v) for v in vals)


class TL:
    """Two-layer model as a transition system over (T_upper, T_lower)"""

    names = ("du", "dl", "lambda0", "a", "efficacy", "eta")

    def __init__(self, spec):
        p = {k: base(k, v) for k, v in spec.items()}
        self.p = p
        self.C = p["du"] * RHO_CP
        self.CD = p["dl"] * RHO_CP
        self.lam, self.a = p["lambda0"], p["a"]
        self.eff, self.eta, self.dt = p["efficacy"], p["eta"], p["delta_t"]

    def initial(self):
        return (0.0, 0.0)

    def uptake(self, state, F):
        """(heat uptake during the step, scale of its terms)"""
        t, d = state
        r1 = self.lam * t
        r2 = self.a * t * t
        e = (self.eff - 1.0) * self.eta * (t - d)
        es = abs((self.eff - 1.0) * self.eta) * (abs(t) + abs(d))
        # conserved exchange also enters numerically
        x = abs(self.eta) * (abs(t) + abs(d)) * max(1.0, abs(self.eff))
        # storage is calculated from temperature differences
        y = (self.C * abs(t) + self.CD * abs(d)) / self.dt
        return (
            F - r1 + r2 - e,
            abs(F) + abs(r1) + abs(r2) + es + x,
            y,
        )

    def step(self, state, F):
        """(next state, scales)"""
        t, d = state
        x = self.eta * (t - d)
        xs = abs(self.eta) * (abs(t) + abs(d))
        tu = t + self.dt * (F - (self.lam - self.a * t) * t - self.eff * x) / self.C
        tl = d + self.dt * x / self.CD
        su = abs(t) + self.dt / self.C * (
            abs(F) + abs(self.lam * t) + abs(self.a * t * t) + abs(self.eff) * xs
        )
        sl = abs(d) + self.dt / self.CD * xs
        return (tu, tl), (su, sl)


class IR:
    """Two-timescale impulse response model over (T_1, T_2)"""

    names = ("q1", "q2", "d1", "d2", "efficacy")

    def __init__(self, spec):
        p = {k: base(k, v) for k, v in spec.items()}
        self.p = p
        self.q = (p["q1"], p["q2"])
        self.d = (p["d1"], p["d2"])
        self.eff, self.dt = p["efficacy"], p["delta_t"]

    def initial(self):
        return (0.0, 0.0)

    def step(self, state, F):
        """(next state, scales)"""
        out, scale = [], []
        for t, q, d in zip(state, self.q, self.d):
            k = math.exp(-self.dt / d)
            out.append(t * k + q * F * -math.expm1(-self.dt / d))
            scale.append(abs(t) + abs(q * F))
        return tuple(out), tuple(scale)

    def two_layer(self):
        """Equivalent two-layer parameters (SI, K)"""
        (q1, q2), (d1, d2) = self.q, self.d
        lam = 1.0 / (q1 + q2)
        a1, a2 = q1 * lam, q2 * lam
        C = d1 * d2 / (q1 * d2 + q2 * d1)
        CD = (lam * (d1 * a1 + d2 * a2) - C) / self.eff
        kappa = d1 * a2 + d2 * a1
        eta = CD / kappa
        return {
            "lambda0": lam,
            "C": C,
            "CD": CD,
            "eta": eta,
            "kappa": kappa,
            "du": C / RHO_CP,
            "dl": CD / RHO_CP,
            "efficacy": self.eff,
            "phi1": 1.0 / (1.0 - kappa / d1),
            "phi2": 1.0 / (1.0 - kappa / d2),
        }

    def uptake(self, state, F):
        """(heat uptake during the step, scale of its terms, 0)"""
        t1, t2 = state
        lam = 1.0 / (self.q[0] + self.q[1])
        ls = abs(lam) * (abs(t1) + abs(t2))
        if self.eff == 1.0:
            return F - lam * (t1 + t2), abs(F) + ls, 0.0
        g = self.two_layer()
        e = (self.eff - 1.0) * g["eta"] * (
            (1.0 - g["phi1"]) * t1 + (1.0 - g["phi2"]) * t2
        )
        es = abs((self.eff - 1.0) * g["eta"]) * (
            (1.0 + abs(g["phi1"])) * abs(t1) + (1.0 + abs(g["phi2"])) * abs(t2)
        )
        cond = max(self.d[1] / self.d[0], abs(g["phi2"]), 1.0 / abs(g["phi2"]))
        return F - lam * (t1 + t2) - e, abs(F) + ls + es * (1 + 1e-4 * cond), 0.0


def to_impulse_response(p):
    """
    Equivalent impulse response parameters of TL base-unit parameters

    Eigenvalues of the linear two-layer system; the smaller root of the
    characteristic polynomial is obtained without cancellation.
    """
    C, CD = p["du"] * RHO_CP, p["dl"] * RHO_CP
    lam, eff, eta = p["lambda0"], p["efficacy"], p["eta"]
    # rates r solve r^2 - b r + lam eta/(C CD) = 0
    b = (lam + eff * eta) / C + eta / CD
    c = lam * eta / (C * CD)
    # b^2 - 4c written as a sum of positive terms
    disc = ((lam + eff * eta) / C - eta / CD) ** 2 + 4 * eff * eta * eta / (C * CD)
    r_fast = (b + math.sqrt(disc)) / 2.0
    r_slow = c / r_fast
    d1, d2 = 1.0 / r_fast, 1.0 / r_slow
    # q1 + q2 = 1/lam ; q1/d1 + q2/d2 = 1/C  (initial warming rate F/C)
    q1 = (1.0 / C - r_slow / lam) / (r_fast - r_slow)
    q2 = 1.0 / lam - q1
    return {"d1": d1, "d2": d2, "q1": q1, "q2": q2, "efficacy": eff}


def expm2(M, t):
    """exp(M t) of a real 2x2 matrix with distinct real eigenvalues and b c >= 0"""
    (a, b), (c, d) = M
    tr, det = a + d, a * d - b * c
    disc = math.sqrt((a - d) ** 2 + 4 * b * c)
    l1, l2 = (tr + disc) / 2.0, (tr - disc) / 2.0
    # the eigenvalue of larger magnitude is well conditioned, the other from det
    if abs(l1) > abs(l2):
        l2 = det / l1
    else:
        l1 = det / l2
    e1, e2 = math.exp(l1 * t), math.exp(l2 * t)
    # exp(M t) = e2 I + f (M - l2 I), every difference without cancellation
    f = e2 * math.expm1(disc * t) / disc if disc * t < 1 else (e1 - e2) / disc
    x = a - d
    al = (x + disc) / 2.0 if x >= 0 else 2 * b * c / (disc - x)
    dl = (disc - x) / 2.0 if x <= 0 else 2 * b * c / (disc + x)
    return ((f * al + e2, f * b), (f * c, f * dl + e2))
