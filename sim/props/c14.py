"""C14 a plain re-run recovers from any interruption; a run leaves nothing else behind."""
import json
import random

import fsp
from core import Check, Outcome
from fs import MUTATING, World

KINDS = ["crash_before", "crash_before", "crash_after", "crash_partial", "fail", "fail", "short", "sigint", "sigint", "sigint_eintr", "disk_full"]


class C14(Check):
    id = "C14"
    runs = {"quick": 420, "thorough": 8000}
    budget_s = {"quick": 85, "thorough": 1500}
    rule = ("one run = a history on one project directory: 1-3 generation attempts, each killed, interrupted, hit by a disk error or made to fail by a broken input that is "
            "repaired afterwards, then a plain re-run and one more; every attempt starts from what the previous one left; non-trivial = at least one attempt was hit")
    real = ["turms CLI and library entry points, config loading, all plugins, processors and writers", "the kernel's file system (tmpfs) under the seam"]
    stub = ["process scheduling, crashes, disk errors, signals (libc seam shim.c)", "failing third-party components (simfaults.py)"]
    assumptions = ["a killed process (SIGKILL, power) may leave temporary files of its own; a run that ends by itself or by Ctrl-C may not",
                   "a single fault per attempt: a failing clean-up after a failing write may leave a temporary file"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        w = fsp.build(r, r.choice([1, 1, 1, 2]), size=r.choice([0.7, 1.0, 1.6]), wide=0.25)
        for c in w["config"]["projects"].values():
            t = c["extensions"]["turms"]
            t["dump_schema"] = r.random() < 0.6
            t["dump_configuration"] = r.random() < 0.5
        plan = {"w": w, "old": fsp.old_contents(r, w, 0.5), "entry": r.choice(["cli", "cli", "lib"]), "strict": r.random() < 0.6, "attempts": []}
        for _ in range(r.choice([1, 1, 2, 3])):
            a = {}
            if r.random() < 0.2:
                q = json.loads(json.dumps(w))
                n = r.choice(list(q["config"]["projects"]))
                a["broken"] = [n, fsp.break_project(r, q, n, fsp.LOAD_BREAKS)]
                a["w"] = q
            if not a or r.random() < 0.3:
                a["pick"] = {"seed": r.randrange(1 << 40)}
            plan["attempts"].append(a)
        return plan

    def run(self, plan):
        o = Outcome(plan)
        spec = fsp.entry_spec(plan)
        inputs = fsp.all_files(plan["w"])
        init = {**inputs, **plan["old"]}
        w0, p0 = fsp.reference(inputs, spec)
        want = {q: w0.read(q) for q in fsp.all_outputs(plan["w"])}
        if not fsp.succeeded(p0) or any(v is None for v in want.values()):
            o.probes["reference run failed"] += 1
            o.trace = w0.trace
            return o
        snap = w0_snapshot(inputs)
        extra = fsp.changed(snap, {k: v for k, v in w0.snapshot().items() if v is not None}, ignore=set(want))
        if extra:
            o.bad("left-behind", f"a successful run created, changed or removed {extra[:4]} besides its outputs")
        cur = w0_snapshot(init)
        leftovers = set()
        trace = []
        for k, a in enumerate(plan["attempts"]):
            wl = a.get("w", plan["w"])
            state = {k_: v for k_, v in cur.items() if k_ not in inputs}
            files = {**fsp.all_files(wl), **state}
            if "pick" in a:
                _, pr = fsp.reference(files, spec)
                r = random.Random(a["pick"]["seed"])
                f = fsp.pick_fault(r, pr.oplog, "p", KINDS)
                a["faults"] = [f] if f else []
                del a["pick"]
            w = World()
            w.populate(files)
            w.known |= {c for q in want for c in q.split("/")}
            before = {k_: v for k_, v in w.snapshot().items() if v is not None}
            P = w.spawn_run([("p", spec)], faults=a.get("faults", []), rng_seed=100 + k)
            trace += w.trace
            dmg = fsp.world_damage(w, P)
            if dmg:
                o.bad("no-progress", dmg)
                break
            after = {k_: v for k_, v in w.snapshot().items() if v is not None}
            outs = set(want) | set(fsp.all_outputs(wl))
            ch = fsp.changed(before, after, ignore=outs)
            crashed = P["p"].result is None
            for lab, *_ in w.fired:
                o.faults[lab] += 1
            if "broken" in a:
                o.faults["broken:" + a["broken"][1]] += 1
            o.nontrivial |= bool(w.fired or "broken" in a)
            ins = [c for c in ch if c in before and (c in after or c in fsp.all_files(wl))]
            if ins:
                o.bad("input-touched", f"attempt {k} ({self.what(a, w)}) changed or removed {ins[:3]}")
            new = [c for c in ch if c not in before or (c in after and c not in fsp.all_files(wl))]
            if new and not crashed:
                o.bad("left-behind", f"attempt {k} ended with rc {P['p'].rc} ({self.what(a, w)}) and left {[w.norm(c) for c in new][:4]}")
            if new and crashed:
                o.probes["temporary file survived a kill"] += 1
            o.probes["attempt crashed" if crashed else f"attempt rc{P['p'].rc}"] += 1
            o.states.add(f"{crashed}|{P['p'].rc}|{len(new)}|{'broken' in a}|{sorted(after.get(q) == want[q] for q in want)}")
            cur = {k_: v for k_, v in after.items()}
            # the user repairs what was wrong with the inputs
            for k_ in list(cur):
                if k_ in fsp.all_files(wl) and k_ not in inputs:
                    del cur[k_]
            cur.update({k_: v.encode("utf-8", "surrogateescape") for k_, v in inputs.items()})
        else:
            for rerun in (1, 2):
                w = World()
                w.populate(cur)
                w.known |= {c for q in want for c in q.split("/")}
                before = {k_: v for k_, v in w.snapshot().items() if v is not None}
                P = w.spawn_run([("p", spec)], rng_seed=200 + rerun)
                trace += w.trace
                after = {k_: v for k_, v in w.snapshot().items() if v is not None}
                dmg = fsp.world_damage(w, P)
                if dmg:
                    o.bad("no-progress", "re-run: " + dmg)
                    break
                if P["p"].rc != 0:
                    o.bad("no-recovery", f"re-run {rerun} fails (rc {P['p'].rc}) after {[self.what(a, None) for a in plan['attempts']]}: {w.output(P['p'])[-500:]}")
                bad = [q for q in want if after.get(q) != want[q]]
                if bad:
                    o.bad("no-recovery" if rerun == 1 else "not-idempotent", f"re-run {rerun} leaves {bad} different from an uninterrupted run "
                          f"({ {q: None if after.get(q) is None else len(after[q]) for q in bad} } vs { {q: len(want[q]) for q in bad} }) after {[self.what(a, None) for a in plan['attempts']]}")
                ch = fsp.changed(before, after, ignore=set(want))
                gone = [c for c in ch if c not in inputs and c in before and c not in after]
                ch = [c for c in ch if c not in gone]  # removing leftovers of a killed run is welcome
                if ch:
                    o.bad("left-behind", f"re-run {rerun} created or changed {[w.norm(c) for c in ch][:4]}")
                cur = after
        o.trace = trace
        o.sim_s = len(trace) * 0.001
        return o

    def what(self, a, w):
        s = []
        if "broken" in a:
            s.append("broken " + a["broken"][1])
        for f in a.get("faults", []):
            s.append(f"{f['kind']}{':' + f['err'] if f.get('err') else ''} at {f.get('op')} #{f['at']}")
        return ", ".join(s) or "no fault"

    def shrink(self, plan):
        at = plan["attempts"]
        if len(at) > 1:
            for i in range(len(at)):
                q = json.loads(json.dumps(plan))
                del q["attempts"][i]
                yield q
        for i, a in enumerate(at):
            if a.get("faults"):
                q = json.loads(json.dumps(plan))
                q["attempts"][i]["faults"] = []
                yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q
        if not any("w" in a for a in at):
            for q in list(fsp.drop_projects(plan)) + list(fsp.shrink_files(plan)):
                q["old"] = {k: v for k, v in q["old"].items() if k in fsp.all_outputs(q["w"])}
                f = next((f for a in q["attempts"] for f in a.get("faults", [])), None)
                if f is None:
                    yield q
                    continue
                for d in (0, 1, 2, 4, 6, 8, 12, 16, 20, 28, 40, 60):
                    z = json.loads(json.dumps(q))
                    ok = True
                    for a in z["attempts"]:
                        for g in a.get("faults", []):
                            g["at"] -= d
                            ok &= g["at"] >= 0
                    if ok:
                        yield z


def w0_snapshot(init):
    return {k: (v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape")) for k, v in init.items()}


CHECK = C14()
