"""C05 concurrent generation runs on shared output directories do not break each other."""
import json
import random

import fsp
from core import Check, Outcome
from fs import MASK_ALL, MASK_DEFAULT, World


class C05(Check):
    id = "C05"
    runs = {"quick": 500, "thorough": 9000}
    budget_s = {"quick": 75, "thorough": 1500}
    rule = ("one run = 2-4 generation processes on one project directory (same project, different projects into a shared or nested output directory, or two "
            "configurations writing the same file), interleaved at every file operation by a seeded schedule, in part with one process crashing; output files are read after every step; "
            "non-trivial = at least two processes were between their first and last write at the same time")
    real = ["turms CLI and library, all plugins, processors and writers", "the kernel's file system (tmpfs)"]
    stub = ["process scheduling and crashes (libc seam)"]
    assumptions = ["processes are interleaved at file operations on paths below the project root; between two operations a process runs alone"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        mode = r.choice(["same", "same", "siblings", "siblings", "conflict"])
        size = 0.7
        if mode == "same":
            w = fsp.build(r, 1, size=size)
            t = w["config"]["projects"]["p0"]["extensions"]["turms"]
            t["dump_schema"] = r.random() < 0.5
            t["dump_configuration"] = r.random() < 0.5
            specs = [["gen"]] * r.randint(2, 4 if tier == "thorough" else 3)
            extra = {}
        elif mode == "siblings":
            w = fsp.build(r, 2, size=size, shared_out=0.0)
            ps = w["config"]["projects"]
            base = r.choice(["api", "a/b/c", "pkg/gen"])
            ps["p0"]["extensions"]["turms"]["out_dir"] = base
            ps["p1"]["extensions"]["turms"]["out_dir"] = base + r.choice(["", "", "/sub", "/../other"])
            specs = [["gen", "p0"], ["gen", "p1"]] + ([["gen"]] if r.random() < 0.5 else [])
            extra = {}
        else:
            w = fsp.build(r, 1, size=size)
            ps = w["config"]["projects"]
            c2 = json.loads(json.dumps(ps["p0"]))
            c2["extensions"]["turms"]["plugins"] = c2["extensions"]["turms"]["plugins"][:r.randint(1, 3)]
            c2["extensions"]["turms"]["freeze"] = {"enabled": True}
            ps["p0"]["extensions"]["turms"]["dump_configuration"] = c2["extensions"]["turms"]["dump_configuration"] = True
            other = {"projects": {"p0": c2}}
            extra = {"other.yaml": other}
            specs = [["gen"], ["gen", "--config", "other.yaml"]] + ([["gen"]] if r.random() < 0.4 else [])
        plan = {"w": w, "extra": extra, "specs": specs, "entries": [r.choice(["cli", "cli", "cli", "lib"]) if s == ["gen"] else "cli" for s in specs],
                "old": fsp.old_contents(r, w, 0.35), "schedule": {"seed": r.randrange(1 << 40), "p": r.choice([0.05, 0.2, 0.5, 1.0])},
                "focus": r.random() < 0.7, "faults": [], "stats": r.random() < 0.4}
        if r.random() < 0.3:
            plan["pick"] = {"seed": r.randrange(1 << 40)}
        return plan

    def spec(self, plan, i):
        a = plan["specs"][i]
        if plan["entries"][i] == "lib":
            return {"kind": "lib", "strict": True}
        return {"kind": "cli", "args": a}

    def targets(self, plan, i):
        a = plan["specs"][i]
        if "--config" in a:
            ps = plan["extra"][a[a.index("--config") + 1]]["projects"]
        else:
            ps = plan["w"]["config"]["projects"]
            if len(a) > 1:
                ps = {a[1]: ps[a[1]]}
        return sorted({q for c in ps.values() for q in fsp.outputs(c).values()})

    def run(self, plan):
        o = Outcome(plan)
        init = {**fsp.all_files(plan["w"]), **plan["old"]}
        for k, v in plan["extra"].items():
            init[k] = fsp.config_text(k, v)
        n = len(plan["specs"])
        names = [f"p{i}" for i in range(n)]
        mask = MASK_ALL if plan.get("stats") else MASK_DEFAULT  # also interleave at looks at files
        cand, alone, logs = {}, [], []
        cache = {}
        for i in range(n):
            key = json.dumps(self.spec(plan, i))
            if key not in cache:
                w0, p0 = fsp.reference(init, self.spec(plan, i), mask=mask)
                cache[key] = (p0.rc, {q: w0.read(q) for q in self.targets(plan, i)}, p0.oplog)
            rc, got, oplog = cache[key]
            alone.append(rc)
            logs.append(oplog)
            for q, c in got.items():
                cand.setdefault(q, {})[i] = c
        if "pick" in plan:
            r = random.Random(plan["pick"]["seed"])
            v = r.randrange(n)
            f = fsp.pick_fault(r, logs[v], names[v], ["crash_before", "crash_after", "crash_partial", "sigint"], bias_mutating=0.9)
            plan["faults"] = [f] if f else []
            del plan["pick"]
        w = World()
        w.populate(init)
        w.known |= {c for q in cand for c in q.split("/")}
        old = {q: w.read(q) for q in cand}
        bad = set()
        progress = {}

        def observe(world, proc, e):
            vec = []
            if e and e["op"] in ("openw", "mkdir"):
                progress.setdefault(proc.name, [world.clock, world.clock])
            if e and proc.name in progress and e["op"] in ("rename", "closew", "write", "openw"):
                progress[proc.name][1] = world.clock
            for q in cand:
                cur = world.read(q)
                if cur == old[q]:
                    vec.append("o")
                elif cur in cand[q].values():
                    vec.append("n")
                else:
                    vec.append("X")
                    if q not in bad:
                        bad.add(q)
                        o.bad("reader-sees-partial", f"a reader of {q} sees {'no file' if cur is None else str(len(cur)) + ' bytes'} that no run writes on its own; step {world.clock}")
            o.states.add("".join(vec) + ("" if not e else e["op"]))

        if plan["focus"] and "seed" in plan["schedule"]:
            # let every process get close to its first write before interleaving densely
            pass
        P = w.spawn_run([(names[i], self.spec(plan, i)) for i in range(n)], faults=plan["faults"], schedule=self.sched(plan, logs, names), observe=observe, mask=mask)
        plan["schedule"] = {"script": w.choices}
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        for lab, *_ in w.fired:
            o.faults[lab] += 1
        sw = sum(1 for a, b in zip(w.choices, w.choices[1:]) if a != b)
        o.faults["context switch"] += sw
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg)
            return o
        hit = {f[2] for f in w.fired}
        for i, nme in enumerate(names):
            if nme in hit:
                continue
            if P[nme].rc != alone[i]:
                o.bad("run-broken-by-neighbour", f"{plan['specs'][i]} exits {alone[i]} alone but {P[nme].rc} next to {n - 1} other run(s): "
                      f"{(P[nme].result or {}).get('exc')} {w.output(P[nme])[-700:]}")
        for q in cand:
            cur = w.read(q)
            done = [i for i in cand[q] if names[i] not in hit and P[names[i]].rc == 0]
            if done and cur not in cand[q].values():
                o.bad("final-content", f"{q} ends up {'missing' if cur is None else 'as nothing any run writes'}")
            if done and cur == old[q] and cur not in cand[q].values():
                o.bad("final-content", f"{q} still has its old content")
        iv = sorted(progress.values())
        o.nontrivial = any(b[0] <= a[1] for a, b in zip(iv, iv[1:]))
        o.probes["overlapping write phases" if o.nontrivial else "disjoint write phases"] += 1
        return o

    def sched(self, plan, logs, names):
        s = plan["schedule"]
        if "script" in s:
            return s
        if not plan["focus"]:
            return s
        script = []
        r = random.Random(s["seed"])
        for nme, lg in zip(names, logs):
            first = next((k for k, x in enumerate(lg) if x[0] in ("mkdir", "openw")), 0)
            script += [nme] * max(0, first - r.randint(0, 2))
        left = [nme for nme, lg in zip(names, logs) for _ in range(40)]
        cur = names[0]
        for _ in range(len(left)):
            if r.random() < s["p"]:
                cur = r.choice(names)
            script.append(cur)
        return {"script": script}

    def shrink(self, plan):
        if len(plan["specs"]) > 2:
            for i in range(len(plan["specs"])):
                q = json.loads(json.dumps(plan))
                del q["specs"][i], q["entries"][i]
                nm = {f"p{j}": f"p{j - (j > i)}" for j in range(len(plan["specs"])) if j != i}
                q["schedule"]["script"] = [nm[x] for x in q["schedule"]["script"] if x in nm]
                q["faults"] = [{**f, "proc": nm[f["proc"]]} for f in q["faults"] if f["proc"] in nm]
                yield q
        if plan["faults"]:
            q = json.loads(json.dumps(plan))
            q["faults"] = []
            yield q
        s = plan["schedule"]["script"]
        # remove context switches: extend a block over its successor
        blocks = []
        for x in s:
            if blocks and blocks[-1][0] == x:
                blocks[-1][1] += 1
            else:
                blocks.append([x, 1])
        for i in range(len(blocks) - 2, 0, -1):
            # move block i behind the next block of the same process
            b = blocks[:i] + blocks[i + 1:]
            j = next((k for k in range(i, len(b)) if b[k][0] == blocks[i][0]), None)
            if j is None:
                b = b + [blocks[i]]
            else:
                b[j] = [b[j][0], b[j][1] + blocks[i][1]]
            q = json.loads(json.dumps(plan))
            q["schedule"]["script"] = [x for x, k in b for _ in range(k)]
            yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q


CHECK = C05()
