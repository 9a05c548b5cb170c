"""Runner: seeds -> plans -> simulated runs -> violations, minimisation, replay files, evidence."""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(Exception):
    """The machinery (not turms) misbehaved."""


def derive(*parts) -> int:
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def digest(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Outcome:
    def __init__(self, plan):
        self.plan = plan              # fully resolved plan (what a replay file stores)
        self.violations = []          # [{"cls":..., "msg":...}]
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.trace = []               # event log (JSON-able); its digest identifies the execution
        self.nontrivial = False
        self.sim_s = 0.0
        self.states = set()

    def bad(self, cls, msg):
        self.violations.append({"cls": cls, "msg": str(msg)[:1500]})

    def as_json(self):
        return {"violations": self.violations, "faults": dict(self.faults), "probes": dict(self.probes),
                "digest": digest(self.trace), "nontrivial": self.nontrivial, "sim_s": self.sim_s,
                "states": sorted(self.states)[:200], "nevents": len(self.trace)}


class Check:
    """One property. Subclasses define the plan space, the execution of a plan, and its shrinking."""
    id = "C00"
    level = "exploration"
    runs = {"quick": 200, "thorough": 4000}
    budget_s = {"quick": 300, "thorough": 3000}
    rule = ""
    real = []
    stub = []
    assumptions = []
    hashseed = "0"
    shrink_s = 60

    def setup(self):
        """Called once per worker."""

    def plan(self, seed: int, tier: str, index: int) -> dict:
        raise NotImplementedError

    def run(self, plan: dict) -> Outcome:
        raise NotImplementedError

    def shrink(self, plan: dict):
        """Yield simpler plans, most aggressive first."""
        return ()


# ---------------------------------------------------------------------------- scratch space
def scratch_base():
    d = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="turmssim-", dir=d)


_shim = None


def build_shim(into):
    so = os.path.join(into, "shim.so")
    p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"],
                       capture_output=True, text=True)
    if p.returncode:
        raise HarnessError("cannot build the seam: " + p.stderr[-800:])
    p = subprocess.run(["gcc", "-O2", "-o", os.path.join(into, "simtool"), os.path.join(HERE, "tool.c")], capture_output=True, text=True)
    if p.returncode:
        raise HarnessError("cannot build the tool: " + p.stderr[-800:])
    return so


def worker_env(so, hashseed, scratch, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("TURMS_", "PYTHON", "LC_", "LD_")) and not k.lower().endswith("_proxy") and k not in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC")}
    env.update({"PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
                "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "COLUMNS": "200", "NO_COLOR": "1",
                "TERM": "dumb", "HOME": scratch, "SIM_SCRATCH": scratch, "SIM_SO": so, "SIM_REPO": REPO,
                "RUFF_NO_CACHE": "true", "PYTHONWARNINGS": "ignore"})
    if so:
        env["LD_PRELOAD"] = so
    if extra:
        env.update(extra)
    return env


def load_check(pid) -> Check:
    sys.path.insert(0, HERE)
    if REPO not in sys.path[:2]:
        sys.path.insert(0, REPO)
    mod = importlib.import_module("props." + pid.lower())
    return mod.CHECK


# ---------------------------------------------------------------------------- worker side
def worker_main(a):
    c = load_check(a.prop)
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(devnull, 2)

    def emit(o):
        out.write(json.dumps(o, default=str) + "\n")
        out.flush()

    try:
        c.setup()
        if a.plan:
            with open(a.plan) as f:
                plan = json.load(f)
            o = c.run(plan)
            emit({"i": 0, "seed": None, "plan": o.plan, "trace": o.trace if a.trace else None, **o.as_json()})
            return 0
        deadline = time.monotonic() + a.budget
        for i in range(a.slot, a.runs, a.slots):
            if time.monotonic() > deadline:
                emit({"stopped": i})
                break
            seed = derive(a.seed, a.prop, i)
            t0 = time.monotonic()
            plan = c.plan(seed, a.tier, i)
            o = c.run(plan)
            r = {"i": i, "seed": seed, **o.as_json(), "t": time.monotonic() - t0}
            if o.violations or i < 2 * a.slots:
                r["plan"] = o.plan
            if i < 3 or a.trace:
                r["trace"] = o.trace
            emit(r)
    except BaseException:  # noqa
        emit({"harness_error": traceback.format_exc()})
        return 3
    return 0


# ---------------------------------------------------------------------------- main side
class Main:
    def __init__(self, a):
        self.a = a
        self.scratch = scratch_base()
        self.so = build_shim(self.scratch)
        self.check = load_check(a.prop)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def cmd(self, *extra):
        return [PY, "-B", os.path.join(HERE, "run.py"), self.a.prop, "--worker", *map(str, extra)]

    def spawn(self, args, hashseed=None, extra_env=None):
        d = tempfile.mkdtemp(prefix="w", dir=self.scratch)
        return subprocess.Popen(self.cmd(*args), stdout=subprocess.PIPE, stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL, text=True,
                                cwd=d, env=worker_env(self.so, hashseed if hashseed is not None else self.check.hashseed, d, extra_env))

    def run_plan(self, plan, hashseed=None, trace=False, timeout=300):
        f = os.path.join(self.scratch, "plan.json")
        with open(f, "w") as h:
            json.dump(plan, h)
        p = self.spawn(["--plan", f] + (["--trace"] if trace else []), hashseed)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None
        for line in out.splitlines():
            r = json.loads(line)
            if "harness_error" in r:
                return None
            return r
        return None

    def search(self, tier, seed, runs, budget, slots, trace=False, hashseed=None):
        import selectors
        procs = [self.spawn(["--slot", k, "--slots", slots, "--runs", runs, "--seed", seed, "--tier", tier, "--budget", budget] + (["--trace"] if trace else []), hashseed)
                 for k in range(slots)]
        sel = selectors.DefaultSelector()
        for p in procs:
            sel.register(p.stdout, selectors.EVENT_READ, p)
        results, errors, stopped = [], [], 0
        known = load_known(self.check.id)
        hard = time.monotonic() + budget + 240
        bufs = {p: b"" for p in procs}
        live = len(procs)
        nviol = 0
        while live:
            for key, _ in sel.select(timeout=5):
                p = key.data
                chunk = os.read(key.fileobj.fileno(), 1 << 16)
                if not chunk:
                    sel.unregister(key.fileobj)
                    live -= 1
                    continue
                bufs[p] += chunk
                *lines, bufs[p] = bufs[p].split(b"\n")
                for line in lines:
                    r = json.loads(line)
                    if "harness_error" in r:
                        errors.append(r["harness_error"])
                    elif "stopped" in r:
                        stopped += 1
                    else:
                        results.append(r)
                        nviol += any(not matches_known(v, known) for v in r["violations"])
            if nviol >= 12:  # enough; stop searching
                for p in procs:
                    p.kill()
                break
            if time.monotonic() > hard:
                for p in procs:
                    p.kill()
                errors.append("worker exceeded its time limit")
                break
        for p in procs:
            p.wait()
            if p.returncode not in (0, 3, -9) :
                errors.append(f"worker ended with {p.returncode}")
            p.stdout.close()
        results.sort(key=lambda r: r["i"])
        return results, errors, stopped

    # -- minimisation: greedy over the check's own shrink candidates, same violation class
    def minimise(self, plan, cls, budget):
        end = time.monotonic() + budget
        best, steps, tried = plan, 0, 0
        seen = {digest(plan)}
        improved = True
        while improved and time.monotonic() < end:
            improved = False
            for cand in self.check.shrink(json.loads(json.dumps(best))):
                if time.monotonic() > end:
                    break
                dg = digest(cand)
                if dg in seen:
                    continue
                seen.add(dg)
                tried += 1
                r = self.run_plan(cand, timeout=120)
                if r and any(v["cls"] == cls for v in r["violations"]):
                    best = r["plan"]
                    seen.add(digest(best))
                    steps += 1
                    improved = True
                    break
        return best, steps, tried


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def matches_known(v, known):
    for k in known:
        if v["cls"] == k["cls"] and k.get("contains", "") in v["msg"]:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--slots", type=int, default=0)
    ap.add_argument("--slot", type=int, default=0)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--plan")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int, help="run N seeds twice with different worker counts and hash seeds and compare event logs")
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.worker:
        return worker_main(a)

    t0 = time.monotonic()
    m = Main(a)
    try:
        if a.replay:
            return replay(m, a)
        if a.determinism:
            return determinism(m, a)
        return check(m, a, t0)
    finally:
        m.close()


def replay(m, a):
    rp = json.load(open(a.replay))
    r = m.run_plan(rp["plan"], trace=True)
    if r is None:
        print("replay: harness error")
        return 2
    print("violations:", json.dumps(r["violations"], indent=1))
    print("event log digest:", r["digest"], "(recorded:", str(rp.get("digest")) + ")")
    if a.trace:
        for e in r["trace"]:
            print("  ", json.dumps(e))
    hit = any(v["cls"] == rp["violation"]["cls"] for v in r["violations"])
    if hit:
        print(f"VIOLATION property={rp['property']} replay={a.replay}")
        return 1
    print("not reproduced on this tree")
    return 0


def determinism(m, a):
    n = a.determinism
    sets = []
    for slots, hs in ((8, "0"), (3, "0"), (5, "12345")):
        r, err, _ = m.search(a.tier, a.seed, n, 3000, slots, hashseed=hs)
        if err:
            print(err[0])
            return 2
        sets.append({x["i"]: (x["digest"], json.dumps(x["violations"])) for x in r})
    diff = [i for i in sets[0] if len({s.get(i) for s in sets}) > 1]
    print(f"{a.prop}: {n} seeds x {len(sets)} executions (worker counts 8/3/5, two hash seeds): {len(diff)} diverge {diff[:10]}")
    return 1 if diff else 0


def check(m, a, t0):
    c = m.check
    runs = a.runs or c.runs[a.tier]
    budget = a.budget or c.budget_s[a.tier]
    slots = a.slots or min(8, os.cpu_count() or 4)
    results, errors, stopped = m.search(a.tier, a.seed, runs, budget, slots)
    search_s = time.monotonic() - t0
    known = load_known(c.id)
    by_cls, known_hits = {}, {}
    for r in results:
        for v in r["violations"]:
            k = matches_known(v, known)
            if k:
                known_hits.setdefault(k["id"], (k, r, v))
            else:
                by_cls.setdefault(v["cls"], (r, v))
    for k, r, v in known_hits.values():
        print(f"KNOWN-FINDING: property={c.id} {k['what']}")
    nviol = 0
    for cls, (r, v) in list(by_cls.items())[:4]:
        nviol += 1
        best, steps, tried = m.minimise(r["plan"], cls, c.shrink_s)
        fin = m.run_plan(best, trace=True)
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{c.id}-{cls}-{r['seed']}.json")
        vv = next((x for x in (fin or {"violations": []})["violations"] if x["cls"] == cls), v)
        with open(path, "w") as f:
            json.dump({"property": c.id, "seed": r["seed"], "index": r["i"], "violation": vv, "plan": best,
                       "digest": fin and fin["digest"], "trace": fin and fin["trace"],
                       "minimised": {"accepted_steps": steps, "candidates_tried": tried},
                       "how_to_replay": f"{PY} /verif/sim/run.py {c.id} --replay {path}"}, f, indent=1)
        print(f"  {cls}: {vv['msg'][:600]}")
        print(f"VIOLATION property={c.id} replay={path}")
    faults, probes, states = collections.Counter(), collections.Counter(), set()
    digs, nontriv = set(), set()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        states.update(r["states"])
        digs.add(r["digest"])
        if r["nontrivial"]:
            nontriv.add(r["digest"])
    wall = time.monotonic() - t0
    samples = [{"index": r["i"], "seed": r["seed"], "plan": trim(r["plan"]), "events": len(r.get("trace") or []), "trace_head": (r.get("trace") or [])[:25]}
               for r in results if r.get("trace") and r.get("plan")][:3]
    ev = {"property": c.id, "tier": a.tier, "seed": a.seed, "level": c.level, "wall_s": round(wall, 2), "violations": nviol,
          "coverage": {
              "evaluations": len(results), "distinct_nontrivial": len(nontriv), "rule": c.rule,
              "samples": samples,
              "distinct_executions": len(digs),
              "runs_per_hour": int(len(results) / max(search_s, 1e-6) * 3600),
              "simulated_seconds": round(sum(r["sim_s"] for r in results), 3),
              "faults_injected": dict(sorted(faults.items())),
              "probes_hit": dict(sorted(probes.items())),
              "distinct_states": len(states),
              "runs_with_events": sum(1 for r in results if r["nevents"]),
              "events_total": sum(r["nevents"] for r in results),
              "stopped_early_workers": stopped,
              "planned_runs": runs,
              "known_findings_seen": [k["id"] for k, _, _ in known_hits.values()],
              "components_real": c.real, "components_stub": c.stub},
          "assumptions": c.assumptions}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", c.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{c.id}: {len(results)}/{runs} runs, {len(nontriv)} distinct non-trivial executions, {sum(faults.values())} faults, "
          f"{nviol} violation class(es), {wall:.1f}s")
    if nviol:
        return 1
    if errors:
        print("HARNESS ERROR:", errors[0][-3000:])
        return 2
    if len(results) < runs * 0.2:
        print("HARNESS ERROR: too few runs completed")
        return 2
    return 0


def trim(o, n=1500):
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + "..."
