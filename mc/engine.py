"""
Bounded exhaustive exploration engine.

A property module gives a finite, deterministically ordered list of cases
(simplest first). Every case is itself an enumeration: it drives the real
implementation through behaviours of a bounded space and compares every state
reached with a reference model. The engine runs ALL cases (no sampling), on all
cores, counts what was covered on this run and writes the evidence file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = int(os.environ.get("MC_CASE_SECONDS", "300"))


class Violation(Exception):
    """The property does not hold on an explored behaviour"""

    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class HarnessError(Exception):
    """The machinery, not the code, is at fault"""


class CaseTimeout(BaseException):
    """A behaviour did not terminate"""


def canon(obj):
    """Stable text of a (possibly nested, possibly numpy) value"""
    return json.dumps(obj, sort_keys=True, default=repr)


def digest(*parts):
    """Short hash of a model state"""
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, (bytes, bytearray)) else str(p).encode())
        h.update(b"|")
    return h.digest()


class Ctx:
    """What a case reports while it explores"""

    def __init__(self, tier):
        self.tier = tier
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.states = set()
        self.outcomes = set()
        self.where = None
        self.samples = []

    def state(self, *parts):
        """Record a visited model state"""
        self.states.add(digest(*parts))

    def step(self, n=1):
        """Record transitions taken"""
        self.transitions += n

    def trace(self, n=1):
        """Record a model trace replayed against the implementation"""
        self.traces += n

    def evaluate(self, n=1):
        """Record a comparison/verdict"""
        self.evaluations += n

    def outcome(self, *parts):
        """Record a distinct observable outcome"""
        self.outcomes.add(digest(*parts))

    def at(self, where):
        """Remember the inner behaviour being explored (for reports)"""
        self.where = where

    def sample(self, obj):
        """Keep an example for the evidence file"""
        if len(self.samples) < 1:
            self.samples.append(obj)


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(mod, case, tier):
    """Run one case; return (status, info, ctx)"""
    ctx = Ctx(tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        mod.run(case, ctx)
        return "ok", None, ctx
    except Violation as exc:
        return (
            "violation",
            {"what": exc.message, "detail": exc.detail, "where": ctx.where},
            ctx,
        )
    except HarnessError:
        return "error", {"what": traceback.format_exc(), "where": ctx.where}, ctx
    except CaseTimeout:
        return (
            "violation",
            {
                "what": "no result within {} s".format(CASE_SECONDS),
                "where": ctx.where,
            },
            ctx,
        )
    except MemoryError:
        return "error", {"what": traceback.format_exc(), "where": ctx.where}, ctx
    except Exception as exc:  # pylint: disable=broad-except
        # the implementation raised where the model says it must not
        return (
            "violation",
            {
                "what": "unexpected {}: {}".format(type(exc).__name__, exc),
                "where": ctx.where,
                "traceback": traceback.format_exc(limit=-8),
            },
            ctx,
        )
    finally:
        signal.alarm(0)


def _worker(mod, cases, tier, counter, stop, queue):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    states, outcomes = set(), set()
    tot = {"transitions": 0, "traces": 0, "evaluations": 0, "cases": 0}
    samples = []
    found = []
    n = len(cases)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= n or i > stop.value:
            break
        status, info, ctx = run_case(mod, cases[i], tier)
        tot["transitions"] += ctx.transitions
        tot["traces"] += ctx.traces
        tot["evaluations"] += ctx.evaluations
        tot["cases"] += 1
        states |= ctx.states
        outcomes |= ctx.outcomes
        if ctx.samples and len(samples) < 2:
            samples.append((i, ctx.samples[0]))
        if status != "ok":
            found.append((i, status, info))
            with stop.get_lock():
                if status == "violation" and i < stop.value:
                    stop.value = i
            if status == "error":
                break
    queue.put((tot, states, outcomes, samples, found))


def explore(mod, cases, tier, nproc):
    """Run all cases on nproc forked workers"""
    ctxm = mp.get_context("fork")
    counter = ctxm.Value("l", 0)
    stop = ctxm.Value("l", len(cases))
    queue = ctxm.Queue()
    procs = [
        ctxm.Process(target=_worker, args=(mod, cases, tier, counter, stop, queue))
        for _ in range(max(1, min(nproc, len(cases))))
    ]
    for p in procs:
        p.start()
    res = []
    dead = 0
    while len(res) < len(procs) - dead:
        try:
            res.append(queue.get(timeout=5))
        except Exception:  # pylint: disable=broad-except
            gone = [p for p in procs if not p.is_alive() and p.exitcode != 0]
            dead = len(gone)
    for p in procs:
        p.join(timeout=20)
    return res, dead


def jsonable(obj):
    """Best-effort JSON form"""
    return json.loads(json.dumps(obj, default=repr))


def main(mod, pid, tier, seed, replay=None, only=None):
    """Run the check of property pid; return the exit code"""
    t0 = time.time()
    evid = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    setup = getattr(mod, "setup", None)

    if replay is not None:
        rec = json.load(open(replay))
        if setup:
            setup()
        status, info, _ = run_case(mod, rec["case"], rec.get("tier", tier))
        print(json.dumps({"status": status, "info": jsonable(info)}, indent=1))
        if status == "violation":
            print("VIOLATION property={} replay={}".format(pid, replay))
            return 1
        return 0 if status == "ok" else 2

    if setup:
        setup()
    cases = list(mod.cases(tier))
    for c in cases:
        json.dumps(c)  # must be replayable
    if only is not None:
        cases = [cases[i] for i in only]
    nproc = int(os.environ.get("MC_PROCS", os.cpu_count() or 1))
    res, dead = explore(mod, cases, tier, nproc)

    states, outcomes, samples, found = set(), set(), [], []
    tot = {"transitions": 0, "traces": 0, "evaluations": 0, "cases": 0}
    for t, s, o, sm, f in res:
        for k in tot:
            tot[k] += t[k]
        states |= s
        outcomes |= o
        samples += sm
        found += f
    samples = [s for _, s in sorted(samples, key=lambda x: x[0])][:6]
    found.sort(key=lambda x: x[0])
    viol = [f for f in found if f[1] == "violation"]
    errs = [f for f in found if f[1] == "error"]
    known = load_known(pid)
    complete = tot["cases"] == len(cases) and not dead

    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": len(states),
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(outcomes),
        "cases_enumerated": tot["cases"],
        "cases_in_space": len(cases),
        "rule": mod.RULE,
        "bounds": mod.BOUNDS.get(tier, mod.BOUNDS.get("quick"))
        if isinstance(mod.BOUNDS, dict)
        else mod.BOUNDS,
        "samples": jsonable(samples) or [jsonable(cases[0])],
        "exhaustive": bool(complete and not viol),
        "conformance": mod.CONFORMANCE,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(evid, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    code = 0
    reported = False
    for idx, _, info in viol:
        sig = known_match(known, cases[idx], info)
        if sig:
            print("KNOWN-FINDING: property={} {}".format(pid, sig))
            continue
        path = os.path.join(evid, "replays", "{}-{}.json".format(pid, idx))
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "tier": tier,
                    "case": cases[idx],
                    "info": jsonable(info),
                },
                fh,
                indent=1,
            )
        if not reported:
            print(json.dumps(jsonable(info), indent=1)[:6000])
            print(
                "VIOLATION property={} replay={}".format(
                    pid, os.path.relpath(path, VERIF)
                )
            )
            reported = True
        code = 1
    if code == 0 and (errs or dead or not complete):
        for idx, _, info in errs:
            sys.stderr.write("harness error in case {}: {}\n".format(idx, info["what"]))
        sys.stderr.write(
            "incomplete exploration: {} of {} cases, {} workers died\n".format(
                tot["cases"], len(cases), dead
            )
        )
        return 2
    print(
        "{} {}: {} cases, {} states, {} transitions, {} traces, {} outcomes, {:.1f} s".format(
            pid,
            "FAIL" if code else "ok",
            tot["cases"],
            len(states),
            tot["transitions"],
            tot["traces"],
            len(outcomes),
            time.time() - t0,
        )
    )
    return code


def load_known(pid):
    """
    Entries of known_findings.txt which are recorded, not repaired

    ``finding: property=<id> match=<text found in the violation report> <what fails>``
    """
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields = line.split(None, 3)
        if fields[1] == "property=" + pid and fields[2].startswith("match="):
            out.append((fields[2][len("match=") :], fields[3]))
    return out


def known_match(known, case, info):
    """The listed finding this violation is, if any"""
    text = canon({"case": case, "info": jsonable(info)})
    for match, what in known:
        if match in text:
            return what
    return None
