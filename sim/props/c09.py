"""C09 a silent schema server cannot hang a run."""
import json
import random

import fsp
import netp
from core import Check, Outcome
from fs import World

BOUND = 1800.0


class C09(Check):
    id = "C09"
    runs = {"quick": 500, "thorough": 9000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = 1-3 projects (remote single, several remote sources, or local schemas), generated or downloaded while seeded servers fall silent while connecting, in the TLS "
            "handshake, before, in the head of or in the body of an answer to the fetch or to the introspection; time is virtual; non-trivial = a server fell silent")
    real = ["turms CLI and library, schema loading, all plugins and writers", "requests, urllib3, http.client"]
    stub = ["DNS, TCP, TLS and HTTP servers and the clock (net.py)"]
    assumptions = [f"bounded means {BOUND:.0f} simulated seconds for a whole run of at most three projects with at most four sources each", "a server that keeps trickling bytes is not silent"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        n = r.choice([1, 2, 2, 3])
        files, projects, servers, faults, meta = {}, {}, {}, {}, {}
        c = 0
        silent = set(r.sample(range(n), r.randint(1, min(2, n))))
        for i in range(n):
            name = f"p{i}"
            f, cfg, s, sdl = netp.project(r, name, n > 1, size=0.7)
            files.update(f)
            t = cfg["extensions"]["turms"]
            t["allow_introspection"] = r.random() < 0.7
            if r.random() < 0.25:
                t["exit_on_error"] = False
            if i not in silent and r.random() < 0.4:
                files[f"local_{name}.graphql"] = sdl
                cfg["schema"] = f"local_{name}.graphql"
                meta[name] = {"keys": [], "sdl": sdl}
                projects[name] = cfg
                continue
            form = r.choice(["str", "str", "dict", "list", "multi", "map"])
            from props.c07 import split
            texts = split(r, s, r.randint(2, 4)) if form in ("multi", "map") else [sdl]
            urls, keys = [], []
            for tx in texts:
                u, key = netp.url(r, c)
                c += 1
                single = len(texts) == 1
                servers[key] = netp.server(r, tx, kind=r.choice(["sdl", "introspection"]) if single else "sdl")
                urls.append(u)
                keys.append(key)
                faults[key] = []
            if i in silent:
                j = r.randrange(len(urls))
                k = r.choice(["stall_connect", "stall_before", "stall_at", "stall_at", "stall_tls" if urls[j].startswith("https") else "stall_at"])
                st = netp.cut({"kind": k}, r)
                fl = []
                stage = r.random()
                if stage < 0.4 and len(urls) == 1:    # fetch fails or is refused, the introspection stalls
                    fl = [{"kind": "status", "code": 404, "body": "html"}, st]
                elif stage < 0.6:
                    fl = [{"kind": "redirect", "code": 302, "location": "/moved"}, st, st]
                else:
                    fl = [st] + ([st] if r.random() < 0.7 else [])
                if r.random() < 0.2:
                    fl = fl + [st] * 20
                faults[keys[j]] = fl
            h = {"headers": {"X": "y"}}
            cfg["schema"] = {"str": urls[0], "dict": {urls[0]: h}, "list": [urls[0]], "multi": [u if r.random() < 0.5 else {u: h} for u in urls], "map": {u: h for u in urls}}[form]
            meta[name] = {"keys": keys, "sdl": sdl}
            projects[name] = cfg
        w = {"files": files, "config": {"projects": projects}, "config_name": "graphql.config.yaml"}
        return {"w": w, "net": {"servers": servers, "faults": faults, "seed": r.randrange(1 << 30)}, "meta": meta, "old": fsp.old_contents(r, w, 0.5),
                "entry": r.choice(["cli", "cli", "lib", "download"]), "strict": False}

    def run(self, plan):
        o = Outcome(plan)
        ps = plan["w"]["config"]["projects"]
        w = World()
        w.populate({**fsp.all_files(plan["w"]), **plan["old"]})
        before = w.snapshot()
        download = plan["entry"] == "download"
        spec = {"kind": "cli", "args": ["download"]} if download else fsp.entry_spec(plan)
        spec["hooks"] = [["net", plan["net"]]]
        P = w.spawn_run([("p", spec)])
        p = P["p"]
        ex = (p.result or {}).get("export", {}).get("net")
        dmg = fsp.world_damage(w, P)
        if dmg or ex is None:
            o.bad("no-progress", dmg or f"died: {w.output(p)[-300:]}")
            return o
        o.trace = w.trace + [[x["to"], x["event"], x.get("fault")] for x in ex["log"]] + [p.rc, ex["now"]]
        o.sim_s = ex["now"]
        for k in ex["fired"]:
            o.faults[k] += 1
        stalled = {x["to"] for x in netp.stall_rows(ex["log"])}
        o.nontrivial = bool(stalled)
        log = ", ".join(f"{x.get('method', '')} {x['to']} {x['event']}{'!' + x['fault'] if x.get('fault') else ''}" for x in ex["log"][:10])
        if ex["blocked"]:
            o.bad("hang", f"the run never ends: {ex['blocked']} ({log})")
            return o
        if ex["now"] > BOUND:
            o.bad("too-slow", f"the run took {ex['now']:.0f} simulated seconds ({log})")
        failed = []
        for name, cfg in ps.items():
            m = plan["meta"][name]
            if download:
                outs = {"schema": f"{name}.schema.graphql"}
            else:
                outs = fsp.outputs(cfg)
            ch = [q for q in outs.values() if w.read(q) != before.get(q)]
            rows = [x for x in ex["log"] if x["to"] in m["keys"]]
            good = {k for k in m["keys"] if any(x["to"] == k and x.get("good") for x in rows)}
            good |= {k for k in m["keys"] if not plan["net"]["faults"].get(k) and plan["net"]["servers"][k]["kind"] == "sdl"}
            if not (set(m["keys"]) - good):
                if download and failed:
                    continue
                got = w.read(outs["schema"])
                if len(ch) < 1 and not (download and got is not None):
                    o.bad("other-project-lost", f"{name} has all its sources but was not generated; stalled: {sorted(stalled)}; {log}; {w.output(p)[-400:]}")
            else:
                if set(m["keys"]) & stalled:
                    ok = len(m["keys"]) == 1 and good
                    if not ok:
                        failed.append(name)
                        if ch:
                            ok2 = False
                            try:
                                ok2 = netp.canon(w.read(outs["schema"]).decode()) == netp.canon(m["sdl"])
                            except Exception:  # noqa
                                pass
                            if not ok2:
                                o.bad("touched-by-failure", f"{name} could not get its schema but {ch} changed; {log}")
                elif ch:
                    pass
                else:
                    failed.append(name)
        if plan["entry"] != "lib":
            fatal = [n for n in failed if download or ps[n]["extensions"]["turms"].get("exit_on_error", True)]
            truly = [n for n in fatal if not self.done(w, before, ps[n], n, download)]
            if truly and p.rc == 0:
                o.bad("not-reported", f"{truly} failed but the run exits 0; {log}")
        o.probes[f"stalls {len(ex['fired'])} rc{p.rc}"] += 1
        o.states.add("|".join(f"{x['event']}:{x.get('fault')}" for x in ex["log"]) + f"|{p.rc}")
        return o

    def done(self, w, before, cfg, name, download):
        q = f"{name}.schema.graphql" if download else fsp.outputs(cfg)["schema"]
        return w.read(q) != before.get(q)

    def shrink(self, plan):
        ps = plan["w"]["config"]["projects"]
        for n in list(ps):
            if len(ps) > 1:
                q = json.loads(json.dumps(plan))
                del q["w"]["config"]["projects"][n]
                yield q
        for k in plan["net"]["faults"]:
            for i in range(len(plan["net"]["faults"][k]) - 1, -1, -1):
                q = json.loads(json.dumps(plan))
                del q["net"]["faults"][k][i]
                yield q
        yield from fsp.shrink_files(plan)


CHECK = C09()
