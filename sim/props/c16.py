"""C16 initialisation never loses an existing configuration."""
import json
import random

import fsp
from core import Check, Outcome
from fs import World

TEMPLATES = ["documents", "rath", "gql", "strawberry"]
KINDS = ["crash_before", "crash_before", "crash_after", "crash_partial", "fail", "fail", "short", "sigint", "sigint", "sigint_eintr", "disk_full"]
ANSWERS = [("y\n", True), ("yes\n", True), ("Y\n", True), ("n\n", False), ("\n", False), ("no\n", False), ("", None), ("maybe\nn\n", False), ("hm\ny\n", True), ("q\n", None), ("\x03", None)]


class C16(Check):
    id = "C16"
    runs = {"quick": 2500, "thorough": 12000}
    budget_s = {"quick": 75, "thorough": 1200}
    rule = ("one run = a history of 1-3 `turms init` calls (templates, target names, prompt answers incl. end of input) on existing, absent or unreadable configurations, each under a seeded "
            "crash, signal or disk error; the configuration is inspected before every file operation; non-trivial = a fault fired or a prompt was answered")
    real = ["turms init command, click prompt, templates", "turms configuration loading", "the kernel's file system (tmpfs) under the seam"]
    stub = ["process scheduling, crashes, disk errors, signals (libc seam)", "the terminal (scripted standard input)"]
    assumptions = ["looking whether the configuration exists does not itself fail"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        old = {}
        name = r.choice(["graphql.config.yaml"] * 4 + ["other.yaml", "conf/my.config.yml"])
        if r.random() < 0.75:
            k = r.randrange(5)
            old[name] = ["projects:\n  mine:\n    schema: s.graphql\n", "# größe\n" * 300, "x: [", "", "a" * 9000][k]
        if "/" in name:
            old["conf/keep"] = "1"
        other = r.choice([".graphqlrc.yaml", "graphql.config.json", "keep.txt"])
        old[other] = "{}"
        calls = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            a, yes = r.choice(ANSWERS)
            c = {"answer": a, "yes": yes, "template": r.choice(TEMPLATES + [None])}
            if r.random() < 0.6:
                c["pick"] = {"seed": r.randrange(1 << 40)}
            calls.append(c)
        return {"old": old, "name": name, "calls": calls}

    def run(self, plan):
        o = Outcome(plan)
        from turms.cli.main import build_default_settings
        name = plan["name"]
        cur = dict(plan["old"])
        trace = []
        for k, c in enumerate(plan["calls"]):
            args = ["init"] + (["--config", name] if name != "graphql.config.yaml" else []) + (["--template", c["template"]] if c["template"] else [])
            spec = {"kind": "cli", "args": args, "input": c["answer"]}
            new = build_default_settings(c["template"] or "documents").encode()
            if "pick" in c:
                w0, p0 = fsp.reference(cur, spec)
                f = fsp.pick_fault(random.Random(c["pick"]["seed"]), p0.oplog, "p", KINDS)
                c["faults"] = [f] if f else []
                del c["pick"]
            w = World()
            w.populate(cur)
            w.known |= set(name.split("/"))
            before = w.snapshot()
            old = w.read(name)
            may = old is None or c["yes"] is True
            bad = []

            def observe(world, proc, e):
                now = world.read(name)
                if now != old and not (may and now == new) and not bad:
                    bad.append(1)
                    what = "replaced without confirmation" if now == new else "gone" if now is None else f"torn ({len(now)} bytes)"
                    o.bad("config-lost", f"call {k} (answer {c['answer']!r}, existing: {old is not None}): the configuration is {what} {'before ' + e['op'] if e else 'after the run'}; "
                          f"faults {[x[:2] for x in world.fired]}")
                o.states.add(f"{'o' if now == old else 'n'}{may}{e['op'] if e else 'end'}")

            P = w.spawn_run([("p", spec)], faults=c.get("faults", []), observe=observe, rng_seed=10 + k)
            p = P["p"]
            trace += w.trace
            for lab, *_ in w.fired:
                o.faults[lab] += 1
            if old is not None:
                o.faults[f"answer {'yes' if c['yes'] else 'no' if c['yes'] is False else 'abort'}"] += 1
            o.nontrivial |= bool(w.fired) or old is not None
            dmg = fsp.world_damage(w, P)
            if dmg:
                o.bad("no-progress", dmg)
                break
            crashed = p.result is None
            after = w.snapshot()
            data = w.read(name)
            if p.rc == 0 and not crashed and may:
                if data != new:
                    o.bad("false-success", f"call {k}: init reports success but the configuration is not the template; faults {[x[:2] for x in w.fired]}")
            if not w.fired and may and (p.rc != 0 or data != new):
                o.bad("fails-without-fault", f"call {k}: rc {p.rc}; {w.output(p)[-400:]}")
            extra = [q for q in fsp.changed(before, after, ignore={name}) if not q.endswith("/")]
            if extra and not crashed:
                o.bad("left-behind", f"call {k} (rc {p.rc}) changed {[w.norm(q) for q in extra][:3]}; faults {[x[:2] for x in w.fired]}")
            if data == new and data != old:
                self.loads(o, data, c)
            o.probes["crashed" if crashed else f"rc{p.rc}"] += 1
            cur = {q: v for q, v in after.items() if v is not None}
        o.trace = trace
        o.sim_s = len(trace) * 0.001
        return o

    def loads(self, o, data, c):
        import os
        import tempfile
        from turms.run import load_projects_from_configpath
        with tempfile.NamedTemporaryFile("wb", suffix=".yaml", delete=False) as f:
            f.write(data)
        try:
            ps = load_projects_from_configpath(f.name)
            if not ps:
                o.bad("unloadable", f"template {c['template']} gives no project")
        except Exception as e:  # noqa
            o.bad("unloadable", f"template {c['template']} does not load: {e}")
        finally:
            os.unlink(f.name)

    def shrink(self, plan):
        for i in range(len(plan["calls"])):
            if len(plan["calls"]) > 1:
                q = json.loads(json.dumps(plan))
                del q["calls"][i]
                yield q
        for i, c in enumerate(plan["calls"]):
            if c.get("faults"):
                q = json.loads(json.dumps(plan))
                q["calls"][i]["faults"] = []
                yield q
        for k in list(plan["old"]):
            q = json.loads(json.dumps(plan))
            q["old"][k] = "x"
            yield q


CHECK = C16()
