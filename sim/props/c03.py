"""C03 one project's failure never affects the other projects of a run."""
import json
import random

import fsp
from core import Check, Outcome
from fs import World, MUTATING


class C03(Check):
    id = "C03"
    runs = {"quick": 500, "thorough": 8000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = 2-5 seeded projects in one configuration, a seeded subset failing by broken input or by disk errors confined to it, in seeded positions and "
            "with seeded exit-on-error flags; every healthy project's outputs are compared with a run of that project alone; non-trivial = at least one project failed and one was healthy")
    real = ["turms CLI, config loading, all plugins, processors and writers"]
    stub = ["process scheduling, disk errors (libc seam)", "failing third-party components (simfaults.py)"]
    assumptions = ["disk faults are confined to files of the failing projects; a full disk affects everybody and is not used here"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        n = r.randint(2, 5 if tier == "thorough" else 4)
        w = fsp.build(r, n, wide=0.4, size=0.7 if n > 2 else None, shared_out=0.4)
        ps = w["config"]["projects"]
        for i, c in enumerate(ps.values()):
            t = c["extensions"]["turms"]
            if r.random() < 0.45:
                t["exit_on_error"] = False
            t["dump_schema"] = r.random() < 0.5
        if r.random() < 0.4:
            w["anchors"] = True
            names = list(ps)
            a, b = r.sample(names, 2)
            # two projects over the same schema and documents with different names
            ps[b]["schema"], ps[b]["documents"] = ps[a]["schema"], ps[a]["documents"]
            ta, tb = ps[a]["extensions"]["turms"], ps[b]["extensions"]["turms"]
            for k in ("plugins", "stylers", "scalar_definitions", "additional_bases", "freeze", "options"):
                if k in ta:
                    tb[k] = json.loads(json.dumps(ta[k]))
                else:
                    tb.pop(k, None)
        order = list(ps)
        r.shuffle(order)
        w["config"]["projects"] = ps = {k: ps[k] for k in order}
        broken = {}
        mode = r.choice(["broken", "broken", "broken", "faults"])
        used_docs = [c["documents"] for c in ps.values()]
        if mode == "broken":
            for k in r.sample(order, r.randint(1, len(order) - 1 if r.random() < 0.9 else len(order))):
                kinds = fsp.BREAKS
                if used_docs.count(ps[k]["documents"]) > 1:
                    kinds = [x for x in kinds if not x.startswith(("doc_", "scalar"))]
                broken[k] = fsp.break_project(r, w, k, kinds)
        plan = {"w": w, "tty": r.random() < 0.5, "broken": broken, "old": {k: v for k, v in fsp.old_contents(r, w, 0.4).items() if not any(k.startswith(f + "/") for f in w["files"])}}
        plan["entry"] = r.choice(["cli", "cli", "lib"])
        if mode == "faults":
            plan["pick"] = {"seed": r.randrange(1 << 40), "victims": r.sample(order, r.randint(1, max(1, len(order) - 1)))}
        else:
            plan["faults"] = []
        return plan

    def run(self, plan):
        o = Outcome(plan)
        wl = plan["w"]
        ps = wl["config"]["projects"]
        init = {**fsp.all_files(wl), **plan["old"]}
        outs = {n: fsp.outputs(c) for n, c in ps.items()}
        broken = plan["broken"]
        ref = {}
        for n in ps:
            w0, p0 = fsp.reference(init, {"kind": "cli", "args": ["gen", n]})
            ok = fsp.succeeded(p0)
            ref[n] = {p: w0.read(p) for p in outs[n].values()} if ok else None
        lib = plan.get("entry") == "lib"   # the library goes on, too, unless told to be strict
        spec = {"kind": "lib", "strict": False} if lib else {"kind": "cli", "args": ["gen"]}
        if plan["tty"] and not lib:
            spec["env"] = {"FORCE_COLOR": "1", "TTY_INTERACTIVE": "1"}

        def owner(path):
            c = [n for n, cfg in ps.items() if path in outs[n].values() or path == cfg["schema"] or path.startswith(cfg["documents"].split("*")[0])]
            return c[0] if len(c) == 1 else None

        if "faults" not in plan:
            w0, p0 = fsp.reference(init, spec)
            r = random.Random(plan["pick"]["seed"])
            fl = []
            tmp = {}  # temporary names resolve to the file they become
            for op, a, b in p0.oplog:
                if op == "rename":
                    tmp[a] = b
            names = [n for n in ps]
            real = {w0.norm(p): p for n in ps for p in list(outs[n].values()) + [f for f in wl["files"]]}
            for v in plan["pick"]["victims"]:
                f = fsp.pick_fault(r, p0.oplog, "p", ["fail"], bias_mutating=0.5, only=lambda x: owner(real.get(tmp.get(x[1], x[1]), "")) == v)
                if f:
                    f["victim"] = v
                    fl.append(f)
            plan["faults"] = sorted(fl, key=lambda f: f["at"])[:1]  # later positions shift once an earlier fault fires
            del plan["pick"]
        w = World()
        w.populate(init)
        P = w.spawn_run([("p", spec)], faults=plan["faults"])
        p = P["p"]
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        for lab, *_ in w.fired:
            o.faults[lab] += 1
        for b in broken.values():
            o.faults["broken:" + b] += 1
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg)
            return o
        victims = {f["victim"] for f in plan["faults"]} if w.fired else set()
        failed = set(broken) | {n for n in ps if ref[n] is None} | {n for n in victims if ref[n] is not None and any(w.read(q) != ref[n][q] for q in outs[n].values())}
        healthy = [n for n in ps if ref[n] is not None and n not in broken and n not in victims]
        for n in healthy:
            for q in outs[n].values():
                if w.read(q) != ref[n][q]:
                    got = w.read(q)
                    o.bad("neighbour-affected", f"project {n} generates alone, but next to failing {sorted(failed)} ({broken or [x[:2] for x in w.fired]}) its output {q} is "
                          f"{'missing' if got is None else 'different'}; order {list(ps)}")
        must = [n for n in failed if ps[n]["extensions"]["turms"].get("exit_on_error", True)]
        if must and p.rc == 0 and not lib:
            o.bad("exit-code", f"exit code 0 although {must} failed with exit-on-error enabled")
        if (lib or not must) and p.rc != 0:
            soft = [n for n in victims - failed]
            if lib and not soft:
                o.bad("exit-code", f"the library raised (rc {p.rc}) although it was not told to be strict: {w.output(p)[-500:]}")
            elif not soft:
                o.bad("exit-code", f"exit code {p.rc} although only {sorted(failed)} failed and none of them has exit-on-error enabled: {w.output(p)[-500:]}")
        o.nontrivial = bool(failed and healthy)
        o.probes[f"failed={len(failed)} healthy={len(healthy)} rc={min(1, p.rc)}"] += 1
        o.states.add(f"{[(n in failed, ps[n]['extensions']['turms'].get('exit_on_error', True)) for n in ps]}{sorted(broken.values())}")
        return o

    def shrink(self, plan):
        for q in fsp.drop_projects(plan):
            q["broken"] = {n: b for n, b in q["broken"].items() if n in q["w"]["config"]["projects"]}
            if not q["faults"]:
                yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            if not q["faults"]:
                yield q
        if not plan["faults"]:
            yield from fsp.shrink_files(plan)


CHECK = C03()
