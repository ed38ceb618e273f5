"""
All units of the openscm registry, by kind of quantity

The enumerations are derived from the registry itself: every named unit of the right dimension, every SI prefix, and the compound
units made with one of them. Logarithmic units and temperatures with an offset are left out (they have no factor).
"""
from openscm_units import unit_registry as ur

PREFIXES = ["yocto", "zepto", "atto", "femto", "pico", "nano", "micro", "milli", "centi", "deci", "deca", "hecto", "kilo", "mega", "giga", "tera",
            "peta", "exa", "zetta", "yotta", "kibi", "mebi"]
BASE = {
    "length": "m", "time": "s", "flux": "W/m^2", "feedback": "W/m^2/delta_degC", "feedback2": "W/m^2/delta_degC^2", "ratio": "dimensionless",
    "sens": "delta_degC/(W/m^2)", "temperature": "delta_degC",
}
OFFSET = {"degreeC", "degreeF", "degree_Celsius", "degree_Fahrenheit", "degree_Reaumur", "decibel", "neper", "octave", "decade"}
_STORE = {}


def named():
    """{dimensionality: names} of all units of the registry"""
    if "named" not in _STORE:
        out = {}
        for n in sorted({ur._units[x].name for x in ur._units}):
            if n in OFFSET or n.startswith("decibel"):
                continue
            try:
                out.setdefault(str(ur.Quantity(1.0, n).dimensionality), []).append(n)
            except Exception:  # pylint: disable=broad-except
                continue
        _STORE["named"] = out
    return _STORE["named"]


def of(unit):
    return named()[str(ur.Quantity(1.0, unit).dimensionality)]


def units(kind):
    """{unit: factor to the base unit of the kind}"""
    if kind in _STORE:
        return _STORE[kind]
    lengths, times, powers, areas = of("m"), of("s"), of("W"), of("m^2")
    temps = [t for t in of("kelvin") if t not in OFFSET]
    pre = [p for p in PREFIXES]
    energies = [e for e in of("J")][:12]
    if kind == "length":
        out = lengths + [p + "meter" for p in pre]
    elif kind == "time":
        out = times + [p + u for p in pre for u in ("second", "year")]
    elif kind == "temperature":
        out = temps + [p + "kelvin" for p in pre]
    elif kind == "flux":
        out = ["{}/m^2".format(p) for p in powers + [x + "watt" for x in pre]] + ["W/{}^2".format(n) for n in lengths[::3] + ["kilometer", "foot"]]
        out += ["W/{}".format(a) for a in areas] + ["{}/{}/m^2".format(e, t) for e in energies[:4] for t in times[::5]] + of("W/m^2")
        out += ["kg/s^3", "g/s^3", "W*m^-2", "mW*cm^-2"]
    elif kind in ("feedback", "feedback2"):
        k = {"feedback": "", "feedback2": "^2"}[kind]
        out = ["{}/{}{}".format(f, t, k) for f in ("W/m^2", "mW/m^2", "kW/hectare") for t in temps + ["millikelvin", "kilokelvin"]]
        out += ["{}/m^2/K{}".format(p, k) for p in powers + [x + "watt" for x in pre]] + ["W/{}/K{}".format(a, k) for a in areas]
    elif kind == "ratio":
        out = of("dimensionless") + ["{}/m".format(n) for n in lengths] + ["s/{}".format(t) for t in times] + ["W/{}".format(p) for p in powers]
    elif kind == "sens":
        out = ["{}/(W/m^2)".format(t) for t in temps + [x + "kelvin" for x in pre]] + ["K*{}/W".format(a) for a in areas] + ["K*m^2/{}".format(p) for p in powers]
        out += ["K*m^2/{}watt".format(x) for x in pre]
    fac = {BASE[kind]: 1.0}
    for u in out:
        f = ur.Quantity(1.0, u).to(BASE[kind]).magnitude
        if 1e-60 < f < 1e60:
            fac[u] = float(f)
    _STORE[kind] = fac
    return fac


def everything():
    """Every named unit of the registry (of any dimension)"""
    return [n for names in named().values() for n in names]


def base_kind(unit):
    """Kinds with the dimension of the unit"""
    d = ur.Quantity(1.0, unit).dimensionality
    return [k for k, b in BASE.items() if ur.Quantity(1.0, b).dimensionality == d]
