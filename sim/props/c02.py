"""C02 a failed generation is reported and leaves the outputs untouched."""
import json
import random

import fsp
import simfaults
from core import Check, Outcome
from fs import World, MUTATING


class C02(Check):
    id = "C02"
    runs = {"quick": 900, "thorough": 15000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = one seeded project set, possibly broken in one of %d ways, generated through the command line or the library under a seeded fault "
            "plan (read errors while loading, write errors, full disk, short reads and writes); non-trivial = the input was broken or a fault fired") % len(fsp.BREAKS)
    real = ["turms CLI and library entry points, config loading, all plugins, processors and writers", "external commands as real child processes", "the kernel's file system (tmpfs) under the seam"]
    stub = ["process scheduling, disk errors (libc seam)", "failing third-party plugins, stylers, parsers, processors (simfaults.py)"]
    assumptions = ["failures while writing the outputs are covered by the success half only (a success report implies complete files); C01 covers what they may leave behind"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        w = fsp.build(r, r.choice([1, 1, 2, 3]), wide=0.4)
        ps = w["config"]["projects"]
        for c in ps.values():
            t = c["extensions"]["turms"]
            t["dump_schema"] = r.random() < 0.6
            t["dump_configuration"] = r.random() < 0.5
            if r.random() < 0.25:
                t["exit_on_error"] = False
        good = json.loads(json.dumps(w))
        broken = {}
        mode = r.choice(["broken", "broken", "loadfault", "writefault", "clean"])
        # every component fails in every way
        combo = [(k, e) for k in ("plugin", "parser", "styler", "processor") for e in simfaults.EXCS]
        forced = combo[index] if index < len(combo) else None
        if forced:
            mode = "broken"
        if mode == "broken":
            n = r.choice(list(ps))
            if not forced and len(ps) > 1 and r.random() < 0.4:  # several of them, or all
                for m in r.sample(list(ps), r.randint(1, len(ps))):
                    if m != n:
                        broken[m] = fsp.break_project(r, w, m, fsp.BREAKS)
            broken[n] = fsp.break_project(r, w, n, [forced[0]] if forced else fsp.BREAKS, forced[1] if forced else None)
        plan = {"w": w, "good": good if not broken else None, "broken": broken, "mode": mode, "old": fsp.old_contents(r, good),
                "entry": r.choice(["cli", "cli", "lib"]), "strict": r.random() < 0.6}
        if mode in ("loadfault", "writefault"):
            plan["pick"] = {"seed": r.randrange(1 << 40), "n": 1}
        else:
            plan["faults"] = []
        plan.pop("good")
        return plan

    def run(self, plan):
        o = Outcome(plan)
        w_ = plan["w"]
        ps = w_["config"]["projects"]
        spec = fsp.entry_spec(plan)
        init = {**fsp.all_files(w_), **plan["old"]}
        outs = {n: fsp.outputs(c) for n, c in ps.items()}
        broken = plan["broken"]
        # what a fault-free run of each project on its own (command line) writes
        ref = {}
        for n in ps:
            if n not in broken:
                w0, p0 = fsp.reference(init, {"kind": "cli", "args": ["gen", n]})
                ref[n] = {p: w0.read(p) for p in outs[n].values()} if fsp.succeeded(p0) else None
                self.check_complete(o, w0, p0, n, ps[n], outs[n], w_)
        if "faults" not in plan:
            w0, p0 = fsp.reference(init, spec)
            r = random.Random(plan["pick"]["seed"])
            if plan["mode"] == "loadfault":
                f = fsp.pick_fault(r, p0.oplog, "p", ["fail", "fail", "fail", "short"], only=lambda x: x[0] in ("openr", "read"))
            else:
                f = fsp.pick_fault(r, p0.oplog, "p", ["fail", "fail", "short", "disk_full"], only=lambda x: x[0] in MUTATING)
            plan["faults"] = [f] if f else []
            del plan["pick"]
        w = World()
        w.populate(init)
        w.known |= {c for d in outs.values() for t in d.values() for c in t.split("/")}
        before = w.snapshot()
        touched = [False]

        def observe(world, proc, e):
            if e and e["op"] in MUTATING:
                touched[0] = True

        P = w.spawn_run([("p", spec)], faults=plan["faults"], observe=observe)
        p = P["p"]
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        for lab, op, *_ in w.fired:
            o.faults[lab] += 1
        for b in broken.values():
            o.faults["broken:" + b] += 1
        o.nontrivial = bool(w.fired or broken)
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg)
            return o
        after = w.snapshot()
        out = w.output(p)
        cli = plan["entry"] == "cli"
        strict = cli or plan.get("strict")
        complete = {}
        for n in ps:
            if n in broken:
                complete[n] = False
                if broken[n] == "out_is_dir":
                    continue  # fails while writing
                for k, path in outs[n].items():
                    if before.get(path) != after.get(path):
                        o.bad("touched-by-failure", f"project {n} cannot be generated ({broken[n]}) but its output {path} was {'changed' if path in before else 'created'}")
            elif ref[n] is None:
                complete[n] = None
            else:
                complete[n] = all(after.get(path) == ref[n][path] for path in outs[n].values())
        write_fault = any(op in MUTATING for _, op, *_ in w.fired)
        reported_success = p.rc == 0 and strict
        for n, c in ps.items():
            eoe = c["extensions"]["turms"].get("exit_on_error", True) if cli else True
            if reported_success and complete[n] is False and eoe:
                o.bad("false-success", f"{plan['entry']} run reported success (rc 0) but project {n} is not complete "
                      f"({'broken: ' + broken[n] if n in broken else 'faults ' + str([x[:2] for x in w.fired])}); missing/different: "
                      f"{[q for q in outs[n].values() if n in broken or after.get(q) != ref[n][q]]}")
            # a failure before writing started must leave the outputs alone
            if complete[n] is False and n not in broken and not write_fault:
                ch = [q for q in outs[n].values() if before.get(q) != after.get(q)]
                if ch:
                    o.bad("touched-by-failure", f"project {n} did not complete (faults {[x[:2] for x in w.fired]}) but {ch} changed")
            if not cli and not w.fired and not broken and complete[n] is False:
                o.bad("library-differs", f"fault-free library run did not write what the command line writes for {n}: "
                      f"{[q for q in outs[n].values() if after.get(q) != ref[n][q]]} rc={p.rc} {(p.result or {}).get('exc')}")
        if not broken and not w.fired and strict and p.rc != 0 and all(complete[n] for n in ps):
            o.bad("false-failure", f"every project was written completely but the {plan['entry']} run reported failure rc={p.rc}: {out[-400:]}")
        if broken and strict and p.rc == 0 and not cli:
            o.bad("library-silent", f"strict library run did not raise although {broken}")
        if not cli and strict and broken and p.result and p.result["exc"] in (None,) and p.rc == 0:
            pass
        o.probes[f"{plan['mode']}:{plan['entry']}:rc{min(1, p.rc)}"] += 1
        o.states.add(f"{plan['mode']}|{','.join(broken.values())}|{plan['entry']}|{p.rc}|{sorted(str(v) for v in complete.values())}")
        return o

    def check_complete(self, o, w, p, n, cfg, outs, wl):
        """An absolute check of what a fault-free success has written."""
        if not fsp.succeeded(p):
            o.probes["reference run failed"] += 1
            return
        for k, path in outs.items():
            data = w.read(path)
            if data is None:
                o.bad("incomplete-success", f"successful run did not write {k} output {path}")
                continue
            try:
                if k == "code":
                    compile(data.decode("utf-8"), path, "exec")
                elif k == "schema":
                    from graphql import build_schema, print_schema
                    want = print_schema(build_schema(wl["files"][cfg["schema"]]))
                    got = print_schema(build_schema(data.decode("utf-8")))
                    if want != got:
                        o.bad("incomplete-success", f"dumped schema {path} is not the project's schema")
                elif k == "config":
                    d = json.loads(data.decode("utf-8"))
                    t = cfg["extensions"]["turms"]
                    if d["extensions"]["turms"]["out_dir"] != t["out_dir"] or [x["type"] for x in d["extensions"]["turms"]["plugins"]] != [x["type"] for x in t["plugins"]]:
                        o.bad("incomplete-success", f"dumped configuration {path} does not describe the project")
            except Exception as e:  # noqa
                o.bad("incomplete-success", f"{k} output {path} is not usable: {type(e).__name__}: {str(e)[:300]}")

    def shrink(self, plan):
        for q in fsp.drop_projects(plan):
            q["broken"] = {n: b for n, b in q["broken"].items() if n in q["w"]["config"]["projects"]}
            yield q
        if plan["faults"]:
            q = json.loads(json.dumps(plan))
            q["faults"] = []
            yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q
        if not plan["faults"]:
            yield from fsp.shrink_files(plan)


CHECK = C02()
