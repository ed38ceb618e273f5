"""
A fixed body of work, run in a process of its own (see c31)

Prints {job: result} as JSON, numbers as hexadecimal floats. argv[1]: JSON options
{"order": [job names], "imports": [modules], "thread": bool, "gc": str, "twice": bool}
"""
import importlib
import json
import sys
import warnings

warnings.simplefilter("ignore")


OTHERS = {"tl": ("du", "dl", "lambda0", "efficacy", "eta", "delta_t"), "ir": ("q1", "q2", "d1", "d2", "efficacy", "delta_t")}
OTHER_UNIT = {"du": "km", "dl": "km", "lambda0": "mW/m^2/K", "eta": "mW/m^2/K", "efficacy": "m/km", "delta_t": "day", "q1": "mK*m^2/W",
              "q2": "mK*m^2/W", "d1": "month", "d2": "century"}


def main():
    opt = json.loads(sys.argv[1])
    for name in opt.get("imports", ()):
        importlib.import_module(name)
    if opt.get("gc") == "off":
        import gc

        gc.disable()
    elif opt.get("gc") == "eager":
        import gc

        gc.set_threshold(1, 1, 1)
    import logging

    logging.disable(logging.CRITICAL)
    import datetime as dt

    import numpy as np
    from openscm_units import unit_registry as ur
    from scmdata.run import ScmRun

    from openscm_twolayermodel import ImpulseResponseModel, TwoLayerModel
    from openscm_twolayermodel.errors import ModelStateError, UnitError
    from openscm_twolayermodel.utils import convert_lambda_to_ecs

    if opt.get("numpy"):
        np.set_printoptions(**opt["numpy"])

    def hx(v):
        return [float(x).hex() if x == x else "nan" for x in np.asarray(v, float).ravel()]

    def quantity(v):
        return [hx(v.magnitude), str(v.units)]

    W = "W/m^2"
    F = [3.74, -2.5, 6.0, 0.0, 1e-3, 8.0]
    SETS = {
        "tl": (TwoLayerModel, ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"), [
            {},
            {"du": ur.Quantity(0.07, "km"), "lambda0": ur.Quantity(900.0, "mW/m^2/K"), "a": ur.Quantity(0.04, "W/m^2/K^2"),
             "efficacy": ur.Quantity(1.31, "dimensionless"), "delta_t": ur.Quantity(1.0, "month")},
            # the same as the default in other units
            {"du": ur.Quantity(5000.0, "cm"), "dl": ur.Quantity(1.2, "km"), "eta": ur.Quantity(800.0, "mW/m^2/K"), "delta_t": ur.Quantity(1.0, "yr")},
        ]),
        "ir": (ImpulseResponseModel, ("_temp1_mag", "_temp2_mag", "_rndt_mag"), [
            {},
            {"q1": ur.Quantity(450.0, "mK*m^2/W"), "d1": ur.Quantity(40.0, "month"), "d2": ur.Quantity(0.2, "kyr"),
             "efficacy": ur.Quantity(1.31, "dimensionless"), "delta_t": ur.Quantity(1.0, "yr")},
            {"d1": ur.Quantity(108.0, "month"), "d2": ur.Quantity(4.0, "century"), "q2": ur.Quantity(400.0, "mK*m^2/W"), "delta_t": ur.Quantity(1.0, "month")},
        ]),
    }

    def direct(kind, i):
        cls, arrays, sets = SETS[kind]
        m = cls(**sets[i])
        m.set_drivers(ur.Quantity(np.array(F), W))
        m.reset()
        m.run()
        return [hx(getattr(m, a)) for a in arrays]

    def scen(kind, i, monthly, frame=False):
        cls, _, sets = SETS[kind]
        if monthly:
            axis = [dt.datetime(2001 + (7 + k) // 12, (7 + k) % 12 + 1, 1) for k in range(15)]
        else:
            axis = [dt.datetime(2001 + k, 1, 1) for k in range(15)]
        gap = [np.nan] * 5
        rows = [F * 2 + F[:3], (F[::-1] + F)[:12] + F[:3], [1.0] * 15, gap + [1.0, 2.0, 3.0, 4.0, 5.0] + gap, [3.0, 2.0, 1.0, 0.0, 1.0] + gap * 2]
        run = ScmRun(
            data=np.array(rows).T, index=axis,
            columns={
                "model": "m", "scenario": ["e", "b", "d", "a", "c"], "region": ["World"] * 5, "variable": "Effective Radiative Forcing",
                "unit": [W, W, "mW/m^2", W, "kW/m^2"], "note": ["x", "y", "x", "z", "y"],
            },
        )
        m = cls(**sets[i])
        if frame:
            run = run.timeseries()
        ts = m.run_scenarios(run, progress=False).timeseries()
        names = sorted(ts.index.names)
        out = []
        for label, vals in zip(ts.index, ts.values):
            meta = dict(zip(ts.index.names, label))
            out.append([[n, repr(float(meta[n])) if isinstance(meta[n], (int, float)) else str(meta[n])] for n in names] + [hx(vals)])
        # the order of columns and series as well: a process's results must not depend on it either
        return [[str(c) for c in ts.columns], list(ts.index.names), out]

    def conversion(kind, i):
        cls, _, sets = SETS[kind]
        kw = {k: v for k, v in sets[i].items() if k != "a"}
        m = cls(**kw)
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
        return [[k, hx(v.to_base_units().magnitude)] + quantity(v) for k, v in sorted(p.items())]

    def readings(kind, i):
        cls, _, sets = SETS[kind]
        m = cls(**sets[i])
        names = [n for n in ("du", "dl", "lambda0", "a", "eta", "q1", "q2", "d1", "d2", "efficacy", "delta_t") if hasattr(cls, n)]
        return [[n] + quantity(getattr(m, n)) for n in names]

    def ecs():
        return [quantity(convert_lambda_to_ecs(ur.Quantity(x, "W/m^2/K")).to("K")) for x in (-1.2, -0.7, 3.0)]

    def attempt(func):
        try:
            func()
        except (TypeError, UnitError, ModelStateError, ValueError, NotImplementedError) as exc:
            return type(exc).__name__
        return "accepted"

    def refusals():
        out = []
        for kind in ("tl", "ir"):
            cls = SETS[kind][0]
            m = cls()
            out.append(attempt(m.reset))
            out.append(attempt(lambda: m.set_drivers(np.array([1.0]))))
            out.append(attempt(lambda: m.set_drivers(ur.Quantity(np.array([1.0]), "W"))))
            out.append(attempt(lambda: setattr(m, "efficacy", 1.0)))
            out.append(attempt(lambda: cls(efficacy=ur.Quantity(1.0, "m"))))
            m.set_drivers(ur.Quantity(np.array([1.0, np.nan]), W))
            out.append(attempt(m.reset))
        out.append(attempt(lambda: ImpulseResponseModel(d1=ur.Quantity(500.0, "yr"))))
        out.append(attempt(lambda: TwoLayerModel(a=ur.Quantity(0.1, "W/m^2/K^2")).get_impulse_response_parameters()))
        out.append(attempt(lambda: convert_lambda_to_ecs(1.0)))
        return out

    def empty(kind):
        """Results before they are calculated"""
        cls, arrays, sets = SETS[kind]
        m = cls(**sets[1])
        out = [[hx(getattr(m, a)) for a in arrays]]
        for n in (40, 120, 500):
            m.set_drivers(ur.Quantity(np.array(F * n), W))
            m.reset()
            out.append([hx(getattr(m, a)) for a in arrays])
            m.step()
            m.step()
            out.append([hx(getattr(m, a)) for a in arrays])
        return out

    def other(kind, name, how):
        """Nearly the default, or the same number in another unit"""
        cls, arrays, _ = SETS[kind]
        v = getattr(cls(), name)
        v = ur.Quantity(v.magnitude * (1 + 1e-9), v.units) if how == "near" else ur.Quantity(v.magnitude, OTHER_UNIT[name])
        m = cls(**{name: v})
        m.set_drivers(ur.Quantity(np.array(F), W))
        m.reset()
        m.run()
        p = m.get_impulse_response_parameters() if kind == "tl" else m.get_two_layer_parameters()
        return [[hx(getattr(m, a)) for a in arrays], [[k] + quantity(x) for k, x in sorted(p.items())]]

    jobs = {}
    for kind, names in OTHERS.items():
        for name in names:
            for how in ("near", "unit"):
                jobs["{} {} {}".format(how, kind, name)] = lambda k=kind, n=name, h=how: other(k, n, h)
    for kind in ("tl", "ir"):
        for i in (0, 1, 2):
            jobs["direct {} {}".format(kind, i)] = lambda k=kind, n=i: direct(k, n)
            jobs["conversion {} {}".format(kind, i)] = lambda k=kind, n=i: conversion(k, n)
            jobs["readings {} {}".format(kind, i)] = lambda k=kind, n=i: readings(k, n)
            jobs["yearly {} {}".format(kind, i)] = lambda k=kind, n=i: scen(k, n, False)
            jobs["monthly {} {}".format(kind, i)] = lambda k=kind, n=i: scen(k, n, True)
        jobs["frame {}".format(kind)] = lambda k=kind: scen(k, 1, True, True)
        jobs["empty {}".format(kind)] = lambda k=kind: empty(k)
    jobs["ecs"] = ecs
    jobs["refusals"] = refusals
    order = sorted(jobs)
    if opt.get("only"):
        order = opt["only"]
    if opt.get("rotate"):
        k = opt["rotate"] % len(order)
        order = order[k:] + order[:k]
    if opt.get("reverse"):
        order = order[::-1]
    res = {}

    def work():
        for n in order:
            res[n] = jobs[n]()
        if opt.get("twice"):
            for n in order[::-1]:
                again = jobs[n]()
                if again != res[n]:
                    res[n] = ["differs the second time", res[n], again]

    if opt.get("thread"):
        import threading

        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    import openscm_twolayermodel

    print(json.dumps({"results": res, "file": openscm_twolayermodel.__file__}))


if __name__ == "__main__":
    main()
