"""C15 schema download leaves a complete, equivalent schema file or the old one."""
import json
import random

import fsp
import netp
from core import Check, Outcome
from fs import MUTATING, World

KINDS = ["crash_before", "crash_before", "crash_after", "crash_partial", "fail", "fail", "fail", "short", "sigint", "sigint", "disk_full"]


class C15(Check):
    id = "C15"
    runs = {"quick": 1200, "thorough": 12000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = `turms download` of 1-3 projects (or one of them) with local, remote, listed or introspected schemas onto existing or absent target files, under a seeded crash, "
            "signal, disk error or network fault; targets are inspected before every file operation; non-trivial = a fault fired or several projects were downloaded")
    real = ["turms download command, schema loading", "requests, urllib3, http.client, graphql-core", "the kernel's file system (tmpfs) under the seam"]
    stub = ["process scheduling, crashes, disk errors, signals (libc seam)", "DNS, TCP, TLS and HTTP servers and the clock (net.py)"]
    assumptions = ["projects after the first failing one may be left undone (the failure is reported)"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        n = r.choice([1, 2, 2, 3])
        files, projects, servers, faults, meta = {}, {}, {}, {}, {}
        c = 0
        for i in range(n):
            name = r.choice([f"p{i}", f"proj{i}", f"my-api{i}", f"größe{i}", f"api.v{i}", f"api.v{i}", f"a b{i}", "p" * (i + 1), f"P{i}"])
            f, cfg, s, sdl = netp.project(r, f"p{i}", n > 1, size=r.choice([0.7, 1.0, 2.0]))
            cfg["extensions"]["turms"]["allow_introspection"] = r.random() < 0.5
            form = r.choice(["file", "file", "files", "url", "url", "dict", "multi", "json"])
            keys = []
            from props.c07 import dress, split
            if form == "file":
                files[f"schemas/s{i}.graphql"] = sdl
                cfg["schema"] = f"schemas/s{i}.graphql"
            elif form == "json":
                from graphql import build_schema, get_introspection_query, graphql_sync
                files[f"schemas/s{i}.json"] = json.dumps(graphql_sync(build_schema(sdl), get_introspection_query()).data)
                cfg["schema"] = f"schemas/s{i}.json"
            else:
                k = r.randint(2, 3) if form in ("files", "multi") else 1
                items = []
                for j, tx in enumerate(split(r, s, k) if k > 1 else [sdl]):
                    if form == "files":
                        files[f"schemas{i}/x{j}.graphql"] = dress(r, tx)
                        items.append(f"schemas{i}/x{j}.graphql")
                        continue
                    u, key = netp.url(r, c)
                    c += 1
                    servers[key] = netp.server(r, tx, kind=r.choice(["sdl", "introspection"]) if k == 1 else "sdl")
                    keys.append(key)
                    items.append(u)
                h = {"headers": {"A": "b"}}
                cfg["schema"] = {"files": r.choice([items, f"schemas{i}/*.graphql"]) if form == "files" else None, "url": items[0], "dict": {items[0]: h},
                                 "multi": items}[form]
            cfg["documents"] = "nothing/**/*.graphql"
            projects[name] = cfg
            meta[name] = {"keys": keys, "sdl": sdl, "form": form}
        suffix = r.choice([".schema.graphql", ".schema.graphql", ".graphql", "-schema.gql"])
        d = r.choice([None, None, "dl", "down/load"])
        args = ["download"]
        only = r.choice(list(projects)) if r.random() < 0.25 else None
        if only:
            args.append(only)
        if suffix != ".schema.graphql":
            args += ["--out", suffix]
        if d:
            args += ["--dir", d]
            files[d + "/keep.txt"] = "unrelated\n"
        targets = {nme: (d + "/" if d else "") + nme + suffix for nme in projects}
        old = {}
        for nme, q in targets.items():
            if r.random() < 0.7:
                old[q] = r.choice(["type Query { old: Int }\n", "# größe\n" * 40, "x", "type Query { long: Int }\n" + "# pad pad pad\n" * 900])
        w = {"files": files, "config": {"projects": projects}, "config_name": "graphql.config.yaml"}
        plan = {"w": w, "net": {"servers": servers, "faults": faults, "seed": r.randrange(1 << 30)}, "meta": meta, "args": args, "targets": targets, "old": old, "only": only, "gone": None,
                "faults": []}
        m = r.random()
        if m < 0.5:
            plan["pick"] = {"seed": r.randrange(1 << 40)}
        elif m < 0.8:
            if servers and r.random() < 0.7:
                key = r.choice(list(servers))
                fl = [netp.get_fault(r, servers[key]["sdl"], stalls=r.random() < 0.2)]
                if r.random() < 0.7:
                    fl.append(netp.post_fault(r, servers[key]["sdl"]))
                faults[key] = fl
            else:
                loc = [f for f in files if f.startswith("schemas")]
                if loc:
                    plan["gone"] = r.choice(loc)
        return plan

    def run(self, plan):
        o = Outcome(plan)
        init = {**fsp.all_files(plan["w"]), **plan["old"]}
        if plan["gone"]:
            init.pop(plan["gone"])
        spec = {"kind": "cli", "args": plan["args"], "hooks": [["net", plan["net"]]]}
        targets = plan["targets"]
        sel = [plan["only"]] if plan["only"] else list(targets)
        w0, p0 = fsp.reference(init, spec)
        if "pick" in plan:
            f = fsp.pick_fault(random.Random(plan["pick"]["seed"]), p0.oplog, "p", KINDS)
            plan["faults"] = [f] if f else []
            del plan["pick"]
        # the complete new content: what an undisturbed download (same network) writes
        new = {n: w0.read(targets[n]) for n in sel} if p0.rc == 0 else {}
        w = World()
        w.populate(init)
        w.known |= {c for t in targets.values() for c in t.split("/")}
        old = {n: w.read(t) for n, t in targets.items()}
        seen = set()
        verdict = {}

        def complete(n, data):
            k = (n, data)
            if k not in verdict:
                try:
                    got = netp.canon(data.decode("utf-8"))
                    m = plan["meta"][n]
                    verdict[k] = got in (netp.canon(m["sdl"]), netp.via_introspection(m["sdl"]))
                except Exception:  # noqa
                    verdict[k] = False
            return verdict[k]

        def observe(world, proc, e):
            vec = ""
            for n, t in targets.items():
                cur = world.read(t)
                if cur == old[n]:
                    vec += "o"
                elif n in sel and (cur == new.get(n) if n in new else cur is not None and complete(n, cur)):
                    vec += "n"
                else:
                    vec += "X"
                    if n not in seen:
                        seen.add(n)
                        o.bad("torn-download" if n in sel else "foreign-file", f"{t} holds neither its previous content nor the complete schema of {n} ({'missing' if cur is None else str(len(cur)) + ' bytes'}) "
                              f"{'before ' + e['op'] if e else 'after the run'}; faults {[x[:2] for x in world.fired]}")
            o.states.add(vec + (e["op"] if e else "end"))

        P = w.spawn_run([("p", spec)], faults=plan["faults"], observe=observe)
        p = P["p"]
        ex = (p.result or {}).get("export", {}).get("net")
        o.trace = w.trace + ([[x["to"], x["event"], x.get("fault")] for x in ex["log"]] if ex else [])
        o.sim_s = ex["now"] if ex else 0
        for lab, *_ in w.fired:
            o.faults[lab] += 1
        for k in (ex or {}).get("fired", []):
            o.faults["net:" + k] += 1
        if plan["gone"]:
            o.faults["source missing"] += 1
        o.nontrivial = bool(w.fired or o.faults or len(sel) > 1)
        dmg = fsp.world_damage(w, P)
        if dmg or (ex and ex["blocked"]):
            o.bad("no-progress", dmg or ex["blocked"])
            return o
        crashed = p.result is None
        cur = {n: w.read(t) for n, t in targets.items()}
        if p.rc == 0 and not crashed:
            for n in sel:
                if cur[n] is None or not complete(n, cur[n]):
                    o.bad("false-success", f"download reports success but {targets[n]} is not the schema of {n} ({'missing' if cur[n] is None else repr(cur[n][:80])}); faults {[x[:2] for x in w.fired]}, net {ex['fired']}")
        clean = not w.fired and not plan["gone"] and not (ex and ex["fired"])
        if clean and p.rc != 0:
            o.bad("fails-without-fault", f"rc {p.rc}: {w.output(p)[-500:]}")
        extra = [q for q in w.snapshot() if q not in init and q not in targets.values() and not q.endswith("/")]
        if extra and not crashed:
            o.bad("left-behind", f"download left {[w.norm(x) for x in extra]}; faults {[x[:2] for x in w.fired]}")
        o.probes[("crashed" if crashed else f"rc{p.rc}")] += 1
        for n in sel:
            o.probes["source " + plan["meta"][n]["form"]] += 1
        return o

    def shrink(self, plan):
        if plan["faults"]:
            q = json.loads(json.dumps(plan))
            q["faults"] = []
            yield q
        for n in list(plan["targets"]):
            if len(plan["targets"]) > 1 and plan["only"] in (None,) and not plan["faults"]:
                q = json.loads(json.dumps(plan))
                del q["targets"][n]
                del q["w"]["config"]["projects"][n]
                yield q
        for k in list(plan["net"]["faults"]):
            q = json.loads(json.dumps(plan))
            del q["net"]["faults"][k]
            yield q
        for k in list(plan["old"]):
            q = json.loads(json.dumps(plan))
            q["old"][k] = "x"
            yield q


CHECK = C15()
