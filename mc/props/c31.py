"""C31: results do not depend on the process they are calculated in"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from ..engine import HarnessError
from ..world import REPO, require
from . import _job

RULE = (
    "every environment (product of hash seeds, optimisation levels and time zones; all import orders; job orders: every rotation, both "
    "directions; each job as the first and only one of its process; garbage collection, filled memory, other thread, working directory) is a process of "
    "its own that does the same 60 jobs (direct runs, run_scenarios, conversions, readings, refusals): results equal bit by bit"
)
BOUNDS = {
    "quick": "3 x 2 x 2 product, 10 import orders, 30 job orders, 60 single jobs, 8 further environments",
    "thorough": "8 x 3 x 4 product, 24 import orders, all 120 job orders, 60 single jobs, 8 further environments",
}
CONFORMANCE = "self-composition over processes running the real code"
ASSUMPTIONS = ["the same machine and library versions"]

MODULES = [
    "openscm_twolayermodel.base", "openscm_twolayermodel.two_layer_model", "openscm_twolayermodel.impulse_response_model",
    "openscm_twolayermodel.utils",
]
N_JOBS = 60
PRODUCT = {
    "quick": (["0", "1", "4242"], ["", "-O"], ["UTC", "America/New_York"]),
    "thorough": (["0", "1", "2", "3", "5", "77", "4242", "random"], ["", "-O", "-OO"], ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland"]),
}


def job_names():
    names = []
    for kind in ("tl", "ir"):
        for i in (0, 1, 2):
            names += ["{} {} {}".format(g, kind, i) for g in ("direct", "conversion", "readings", "yearly", "monthly")]
        names += ["empty {}".format(kind), "frame {}".format(kind)]
    for kind, params in _job.OTHERS.items():
        names += ["{} {} {}".format(how, kind, n) for n in params for how in ("near", "unit")]
    return sorted(names + ["ecs", "refusals"])


def cases(tier):
    out = []
    for seed, flag, tz in itertools.product(*PRODUCT[tier]):
        out.append({"env": {"PYTHONHASHSEED": seed, "TZ": tz}, "flag": flag, "opt": {}})
    perms = list(itertools.permutations(range(4)))
    for p in perms if tier == "thorough" else perms[::4] + perms[:4]:
        out.append({"env": {}, "flag": "", "opt": {"imports": [MODULES[i] for i in p]}})
    for k in range(0, N_JOBS, 1 if tier == "thorough" else 4):
        for rev in (False, True):
            out.append({"env": {}, "flag": "", "opt": {"rotate": k, "reverse": rev}})
    for n in job_names():
        out.append({"env": {}, "flag": "", "opt": {"only": [n]}})
    out += [
        {"env": {"MALLOC_PERTURB_": "90"}, "flag": "", "opt": {}},
        {"env": {"MALLOC_PERTURB_": "255", "PYTHONMALLOC": "malloc"}, "flag": "", "opt": {}},
        {"env": {"PYTHONMALLOC": "debug"}, "flag": "", "opt": {}},
        {"env": {}, "flag": "", "opt": {"gc": "off"}},
        {"env": {}, "flag": "", "opt": {"gc": "eager"}},
        {"env": {}, "flag": "", "opt": {"thread": True}},
        {"env": {}, "flag": "", "opt": {"numpy": {"precision": 2, "suppress": True}}},
        {"env": {"LC_ALL": "C", "LANG": "C", "COLUMNS": "20", "HOME": "."}, "flag": "", "opt": {"twice": True}},
        {"env": {}, "flag": "-X dev", "opt": {}},
    ]
    return out


def execute(case):
    tmp = tempfile.mkdtemp(prefix="mc-c31-")
    try:
        env = dict(os.environ)
        env.update({"PYTHONPATH": os.path.join(REPO, "src"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "PYTHONHASHSEED": "0"})
        env.update(case["env"])
        if env.get("HOME") == ".":
            env["HOME"] = tmp
        cmd = [sys.executable] + case["flag"].split() + [os.path.abspath(_job.__file__), json.dumps(case["opt"])]
        p = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=250)
        if p.returncode:
            require(False, "the work fails in this environment", error=p.stderr[-1500:], case=case)
        out = json.loads(p.stdout.splitlines()[-1])
        if not os.path.realpath(out["file"]).startswith(os.path.realpath(REPO)):
            raise HarnessError("package from " + out["file"])
        require(os.listdir(tmp) in ([], [".cache"], [".config"]) or not [f for f in os.listdir(tmp) if not f.startswith(".")],
                "files left in the working directory", files=os.listdir(tmp))
        return out["results"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_BASE = {}


def setup():
    _BASE.update(execute({"env": {}, "flag": "", "opt": {}}))
    if sorted(_BASE) != job_names() or len(_BASE) != N_JOBS:
        raise HarnessError("jobs: {}".format(sorted(_BASE)))


def run(case, ctx):
    ctx.at(case)
    res = execute(case)
    want = case["opt"].get("only") or sorted(_BASE)
    require(sorted(res) == sorted(want), "jobs missing", got=sorted(res))
    for n in want:
        require(res[n] == _BASE[n], "result depends on the environment", job=n, environment=case, got=repr(res[n])[:1500], expected=repr(_BASE[n])[:1500])
        ctx.state(n, json.dumps(case, sort_keys=True))
        ctx.step()
        ctx.evaluate()
        ctx.outcome(n, repr(res[n]))
    ctx.trace(len(want))
    ctx.sample(case)
