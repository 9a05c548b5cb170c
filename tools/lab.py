"""Validate planted bugs in scratch copies: python3 tools/lab.py [--no-tests] [id...]"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

SEED = "/verif/seeded"
LAB = "/tmp/lab"
ENV = {**os.environ, "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "COLUMNS": "80", "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONHASHSEED": "0", "RUFF_NO_CACHE": "true"}
SKIP = ["test_config", "test_countries", "test_countries_v1", "test_freeze", "test_project_pipeline", "test_schema_countries", "test_skip_unreferenced"]


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(bid, tests=True, check=True):
    d = f"{SEED}/{bid}"
    meta = json.load(open(f"{d}/meta.json"))
    copy = f"{LAB}/{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(LAB, exist_ok=True)
    sh(f"git clone -q /repo {copy}", "/")
    out = {"id": bid, "property": meta["property"]}
    rc, o = sh(f"git apply {d}/patch.diff", copy)
    if rc:
        out["error"] = "does not apply: " + o[:300]
        return out
    demo = f"{LAB}/{bid}-demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    env = {**ENV, "PYTHONPATH": copy}
    rc0, o0 = sh(f"bash {demo}/demo.sh", "/repo", 300)
    rc1, o1 = sh(f"bash {demo}/demo.sh", copy, 300, env)
    out["demo"] = [rc0, rc1]
    if rc0 or not rc1:
        out["demo_out"] = (o0 if rc0 else o1)[-1500:]
    if tests:
        ig = " ".join(f"--ignore=tests/{m}.py" for m in SKIP)
        rc, o = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --basetemp={LAB}/{bid}-tmp -W ignore::DeprecationWarning -o junit_family=xunit2 --junitxml={LAB}/{bid}.xml {ig} tests", copy, 900, env)
        rc, o = sh(f"python3 /opt/vp/results.py {LAB}/{bid}.json junit:{LAB}/{bid}.xml", copy)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            out["broken_tests"] = sorted(stable - set(json.load(open(f"{LAB}/{bid}.json"))["passed"]))[:5]
        except OSError:
            out["broken_tests"] = ["?" + o[-300:]]
    if check:
        t = time.time()
        rc, o = sh(f"/opt/venv/bin/python -B /verif/sim/run.py {meta['property']}", "/verif", 900, {**os.environ, "SIM_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        out["check"] = [rc, round(time.time() - t), [l for l in o.splitlines() if l.startswith("VIOLATION")][:1], [l.strip()[:200] for l in o.splitlines() if l.startswith("  ")][:2]]
    for x in (copy, demo, f"{LAB}/{bid}-tmp"):
        shutil.rmtree(x, ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    tests, check = "--no-tests" not in a, "--no-check" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
    # tests and demos in parallel, then the checks one after the other
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda i: one(i, tests, False), ids))
    for r in res:
        if check and not r.get("error"):
            r.update({k: v for k, v in one(r["id"], False, True).items() if k in ("check",)})
        ok = not r.get("error") and r["demo"][0] == 0 and r["demo"][1] != 0 and not r.get("broken_tests")
        print(("OK  " if ok else "BAD ") + ("caught " if r.get("check", [0])[0] == 1 else "MISSED " if check else "") + json.dumps(r), flush=True)


main()
