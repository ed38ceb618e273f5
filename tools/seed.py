"""
Make and judge planted bugs (development tool; no check uses it).

    seed.py make DEFS.py [ID ..]   build /verif/seeded/<id> from definitions and judge
    seed.py judge [ID ..]          judge what is in /verif/seeded

Judging happens in scratch copies of /repo under /tmp: the patch applies, stable tests pass, the demo
passes without and fails with the patch, and what the property's check says.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = '''#!/bin/bash
cd "${PWD}" || exit 2
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

HEAD = '''import os
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd
from openscm_units import unit_registry as ur
from scmdata.run import ScmRun

import openscm_twolayermodel
from openscm_twolayermodel import ImpulseResponseModel, TwoLayerModel

assert os.path.realpath(openscm_twolayermodel.__file__).startswith(os.path.realpath("src")), openscm_twolayermodel.__file__


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def scratch(name):
    d = tempfile.mkdtemp(prefix="sd_%s_" % name, dir="/tmp")
    sh("cp -a /repo/. %s/" % d)
    sh("git checkout -q -- .", cwd=d)
    return d


def tests(d):
    w = tempfile.mkdtemp(prefix="sdw_", dir="/tmp")
    env = {"PYTHONPATH": d + "/src", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "PATH": "/opt/venv/bin:" + os.environ["PATH"], "MPLCONFIGDIR": w + "/mpl", "IPYTHONDIR": w + "/ip", "HOME": "/root",
           "JUPYTER_RUNTIME_DIR": w + "/jr", "JUPYTER_DATA_DIR": w + "/jd", "JUPYTER_CONFIG_DIR": w + "/jc"}
    pt = PY + " -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2"
    _, o1 = sh(pt + " tests --ignore=tests/regression --junitxml=%s/tests.xml" % w, cwd=d, env=env)
    _, o2 = sh(pt + " docs/source/usage --ignore=docs/source/usage/running-scenarios.ipynb --nbval-lax --nbval-current-env "
               "--sanitize-with tests/notebook-tests.cfg --no-cov --junitxml=%s/notebooks.xml" % w, cwd=d, env=env)
    sh("/usr/bin/python3 /opt/vp/results.py %s/o.json 'junit:%s/*.xml'" % (w, w))
    try:
        r = json.load(open(w + "/o.json"))
        missing = STABLE - set(r["passed"])
    except Exception as exc:
        missing = {"no results: %r" % exc}
    shutil.rmtree(w, ignore_errors=True)
    return sorted(missing)


def demo(d, folder):
    t = tempfile.mkdtemp(prefix="sdd_", dir="/tmp")
    for f in os.listdir(folder):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(folder, f), t)
    rc, out = sh("bash %s/demo.sh" % t, cwd=d, timeout=400)
    shutil.rmtree(t)
    return rc, out


def run_check(prop, d, procs=None):
    ev = tempfile.mkdtemp(prefix="sde_", dir="/tmp")
    env = {"PYTHONPATH": d + "/src:" + os.environ.get("SEED_VERIF", "/verif"), "MC_REPO": d, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
           "MC_EVIDENCE": ev, "VERIF_TIER": "quick", "VERIF_SEED": "1"}
    rc, out = sh(PY + " -m mc " + prop, cwd=os.environ.get("SEED_VERIF", "/verif"), env=env)
    shutil.rmtree(ev)
    return rc, out


def judge(bid, with_check=True):
    folder = os.path.join(SEEDED, bid)
    meta = json.load(open(folder + "/meta.json"))
    res = {"id": bid, "property": meta["property"]}
    d = scratch(bid)
    try:
        res["demo_clean"], out = demo(d, folder)
        if res["demo_clean"]:
            res["out"] = out[-800:]
        rc, out = sh("git apply %s/patch.diff" % folder, cwd=d)
        if rc:
            res["apply"] = out
            return res
        res["demo_bug"], out = demo(d, folder)
        res["demo_says"] = out.strip().splitlines()[-1][:160] if out.strip() else ""
        res["tests_broken"] = tests(d)
        if with_check:
            res["check"], out = run_check(meta["property"], d)
            res["check_says"] = [x for x in out.splitlines() if x.startswith(("VIOLATION", "  ", "violat"))][:3]
        res["counts"] = not res["demo_clean"] and bool(res["demo_bug"]) and not res["tests_broken"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def make(spec):
    bid = spec["id"]
    folder = os.path.join(SEEDED, bid)
    d = scratch(bid)
    try:
        for fname, old, new in spec["edits"]:
            p = os.path.join(d, "src/openscm_twolayermodel", fname)
            s = open(p).read()
            assert s.count(old) == 1, (bid, fname, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff -- src", cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(folder, exist_ok=True)
    open(folder + "/patch.diff", "w").write(diff)
    open(folder + "/demo.sh", "w").write(DEMO)
    open(folder + "/demo.py", "w").write(HEAD + spec["demo"].strip("\n") + "\n\nprint(\"ok\")\n")
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(folder + "/meta.json", "w"), indent=1)


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        specs = [s for s in ns["BUGS"] if not args[1:] or s["id"] in args[1:]]
        for s in specs:
            make(s)
        ids = [s["id"] for s in specs]
    else:
        ids = args or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(int(os.environ.get("SEED_PAR", "3"))) as ex:
        for r in ex.map(judge, ids):
            flag = "OK  " if r.get("counts") else "BAD "
            caught = {1: "caught", 0: "MISSED"}.get(r.get("check"), "check rc %s" % r.get("check"))
            print(flag, r["id"], caught, "|", r.get("demo_says"), "|", (r.get("check_says") or [""])[0:3], flush=True)
            if not r.get("counts"):
                print("     ", json.dumps({k: v for k, v in r.items() if k not in ("check_says",)})[:1500], flush=True)


if __name__ == "__main__":
    main()
