"""C01 generated files are replaced whole or not at all."""
import json
import random

import fsp
from core import Check, HarnessError, Outcome
from fs import World


class C01(Check):
    id = "C01"
    runs = {"quick": 700, "thorough": 12000}
    budget_s = {"quick": 75, "thorough": 1500}
    rule = ("one run = one seeded project set and previous output state, generated once fault-free and once under a seeded fault plan with every file "
            "operation scheduled by the simulator; output files are inspected before every operation; non-trivial = a fault fired inside the run")
    real = ["turms CLI and library entry points, config loading, all plugins, processors and writers", "CPython, graphql-core, pydantic, rich", "the kernel's file system (tmpfs) under the seam"]
    stub = ["process scheduling, crashes, disk errors, signals (libc seam shim.c)"]
    assumptions = ["a crash is the end of the process at an operation boundary or inside a write; loss of un-synced pages at power failure is not part of the property",
                   "a file operation that is not made through libc on a path below the project root is not scheduled (its effect is still compared at the next operation)"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        w = fsp.build(r, r.choice([1, 1, 1, 2, 3]))
        for c in w["config"]["projects"].values():
            t = c["extensions"]["turms"]
            t["dump_schema"] = r.random() < 0.6
            t["dump_configuration"] = r.random() < 0.5
        entry = r.choice(["cli", "cli", "cli", "lib"])
        ow = "moved/here" if entry == "lib" and r.random() < 0.3 and len(w["config"]["projects"]) == 1 else None
        plan = {"w": w, "entry": entry, "strict": r.random() < 0.7, "overwrite": ow, "old": fsp.old_contents(r, w, overwrite=ow),
                "pick": {"seed": r.randrange(1 << 40), "n": r.choice([1, 1, 1, 2])}}
        # previous outputs that are symbolic links to files elsewhere
        plan["links"] = {p: f"store/file{i}" for i, p in enumerate(plan["old"]) if r.random() < 0.5} if r.random() < 0.2 else {}
        return plan

    def run(self, plan):
        o = Outcome(plan)
        spec = fsp.entry_spec(plan)
        init = {**fsp.all_files(plan["w"]), **plan["old"]}
        targets = fsp.all_outputs(plan["w"], plan.get("overwrite"))
        w0, p0 = fsp.reference(init, spec, links=plan.get("links"))
        if not fsp.succeeded(p0):
            # the workload itself must generate; anything else is C02's or C03's subject
            o.trace = w0.trace
            o.probes["reference run failed"] += 1
            return o
        new = {t: w0.read(t) for t in targets}
        if "faults" not in plan:
            r = random.Random(plan["pick"]["seed"])
            fs = []
            for _ in range(plan["pick"]["n"]):
                f = fsp.pick_fault(r, p0.oplog, "p")
                if f:
                    fs.append(f)
            plan["faults"] = fs
            del plan["pick"]
        w = World()
        w.populate(init)
        for a, b in plan.get("links", {}).items():
            w.make_link(a, b)
        w.known |= {c for t in targets for c in t.split("/")}
        old = {t: w.read(t) for t in targets}
        seen = set()

        def observe(world, proc, e):
            vec = []
            for t in targets:
                cur = world.read(t)
                if cur == old[t]:
                    vec.append("o")
                elif cur == new[t]:
                    vec.append("n")
                else:
                    vec.append("X")
                    if t not in seen:
                        seen.add(t)
                        what = "missing" if cur is None else f"{len(cur)} bytes"
                        o.bad("torn-output", f"{t} is {what} (old: {None if old[t] is None else len(old[t])}, new: {None if new[t] is None else len(new[t])} bytes) "
                              f"{'before ' + e['op'] + ' ' + world.norm(e['path']) if e else 'after the run'}; faults {[f[:2] for f in world.fired]}")
            o.states.add("".join(vec) + ":" + (e["op"] if e else "end"))

        P = w.spawn_run([("p", spec)], faults=plan["faults"], observe=observe)
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        for lab, op, *_ in w.fired:
            o.faults[lab] += 1
            o.probes["fault at " + op] += 1
        o.probes["crashed" if P["p"].result is None else f"rc{min(P['p'].rc, 1)}"] += 1
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg)
        o.nontrivial = bool(w.fired)
        return o

    def shrink(self, plan):
        fl = plan["faults"]
        for i in range(len(fl)):
            if len(fl) > 1:
                q = json.loads(json.dumps(plan))
                del q["faults"][i]
                yield q
        if fl:
            q = json.loads(json.dumps(plan))
            q["faults"] = []
            yield q
        # faults are tied to operation numbers: structural shrinking re-picks the same kind of fault at
        # every operation of the smaller workload
        for q in list(fsp.drop_projects(plan)) + list(fsp.shrink_files(plan)):
            if len(q["faults"]) <= 1:
                q["old"] = {k: v for k, v in q["old"].items() if k in fsp.all_outputs(q["w"], q.get("overwrite"))}
                q["links"] = {k: v for k, v in q.get("links", {}).items() if k in q["old"]}
                if not q["faults"]:
                    yield q
                    continue
                f = q["faults"][0]
                for d in range(0, 90):
                    if f["at"] - d < 0:
                        break
                    z = json.loads(json.dumps(q))
                    z["faults"][0]["at"] = f["at"] - d
                    if d in (0, 1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 24, 28, 32, 40, 48, 60, 80):
                        yield z
        for k in list(plan.get("links", {})):
            q = json.loads(json.dumps(plan))
            del q["links"][k]
            yield q
        for k in list(plan["old"]):
            q = json.loads(json.dumps(plan))
            q["old"][k] = "x"
            yield q


CHECK = C01()
