"""C06 a faulty schema fetch never yields output from a wrong schema."""
import json
import random

import fsp
import netp
from core import Check, Outcome
from fs import World


class C06(Check):
    id = "C06"
    runs = {"quick": 700, "thorough": 14000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = 1-2 projects whose schema comes from a simulated server (plain URL, one-element list, URL with headers; http or https; SDL, introspection-only or no "
            "introspection; gzip, chunked, byte-order mark), generated under a seeded sequence of network faults per exchange; non-trivial = a fault fired")
    real = ["turms CLI and library, schema loading, all plugins and writers", "requests, urllib3, http.client, graphql-core"]
    stub = ["DNS, TCP, TLS and HTTP servers and the clock (net.py, below socket.socket)"]
    assumptions = ["a truncation is visible to the client: by Content-Length, by chunking or because the text ends inside a definition",
                   "introspection as far as the standard introspection query reveals a schema"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        n = r.choice([1, 1, 2])
        files, projects, servers, faults, meta = {}, {}, {}, {}, {}
        for i in range(n):
            name = f"p{i}"
            f, cfg, s, sdl = netp.project(r, name, n > 1)
            files.update(f)
            u, key = netp.url(r, i)
            form = r.choice(["str", "str", "list", "dict", "listdict"])
            h = {"headers": {"Authorization": f"Bearer t{i}"}}
            cfg["schema"] = {"str": u, "list": [u], "dict": {u: h}, "listdict": [{u: h}]}[form]
            allow = r.random() < 0.7
            cfg["extensions"]["turms"]["allow_introspection"] = allow
            kind = r.choice(["sdl", "sdl", "introspection", "no_introspection"])
            servers[key] = netp.server(r, sdl, kind=kind, get_code=r.choice([405, 404, 400, 200]))
            m = r.random()
            fl = []
            if m < 0.85:
                if kind != "introspection" or r.random() < 0.3:
                    g = netp.get_fault(r, sdl, stalls=r.random() < 0.2)
                    if u.startswith("https") and r.random() < 0.3:
                        g = {"kind": "impostor", "text": netp.wrong(sdl)}
                    fl.append(g)
                    if g["kind"] == "redirect" and g["location"]:
                        if r.random() < 0.3:
                            fl = [g] * 45          # a redirect loop
                        elif r.random() < 0.5:
                            fl.append(netp.get_fault(r, sdl))
                else:
                    fl.append(None)
                if r.random() < 0.6:
                    fl.append(netp.post_fault(r, sdl, stalls=r.random() < 0.2))
            faults[key] = fl
            projects[name] = cfg
            meta[name] = {"key": key, "allow": allow, "sdl": sdl, "kind": kind}
        w = {"files": files, "config": {"projects": projects}, "config_name": "graphql.config.yaml"}
        return {"w": w, "net": {"servers": servers, "faults": faults, "seed": r.randrange(1 << 30)}, "meta": meta,
                "old": fsp.old_contents(r, w, 0.6), "entry": r.choice(["cli", "cli", "lib"]), "strict": n == 1 and r.random() < 0.6}

    def run(self, plan):
        o = Outcome(plan)
        ps = plan["w"]["config"]["projects"]
        init = {**fsp.all_files(plan["w"]), **plan["old"]}
        w = World()
        w.populate(init)
        before = w.snapshot()
        spec = fsp.entry_spec(plan)
        spec["hooks"] = [["net", plan["net"]]]
        P = w.spawn_run([("p", spec)])
        p = P["p"]
        ex = (p.result or {}).get("export", {}).get("net")
        dmg = fsp.world_damage(w, P)
        if dmg or ex is None:
            o.bad("no-progress", dmg or f"died: {w.output(p)[-300:]}")
            return o
        o.trace = w.trace + [[x["to"], x["event"], x.get("method"), x.get("path"), x.get("fault")] for x in ex["log"]] + [p.rc, ex["now"]]
        o.sim_s = ex["now"]
        for k in ex["fired"]:
            o.faults[k] += 1
        o.nontrivial = bool(ex["fired"])
        if ex["blocked"]:
            o.bad("hang", f"the run never ends: {ex['blocked']}")
            return o
        ok_all = True
        for name, cfg in ps.items():
            m = plan["meta"][name]
            rows = netp.rows(ex, m["key"])
            outs = fsp.outputs(cfg)
            ch = [q for q in outs.values() if w.read(q) != before.get(q)]
            intro = [x for x in rows if netp.is_intro(x)]
            first_intro = rows.index(intro[0]) if intro else len(rows)
            got_sdl = any(x.get("good") and x["method"] == "GET" for x in rows[:first_intro])
            got_intro = any(x.get("good") for x in intro)
            story = f"{name} ({m['kind']}, introspection {'allowed' if m['allow'] else 'forbidden'}): " + ", ".join(f"{x.get('method', '')} {x['event']}{'!' + x['fault'] if x.get('fault') else ''}" for x in rows[:8])
            if intro and not m["allow"]:
                o.bad("introspected-unasked", "introspection query sent although not allowed; " + story)
            if intro and got_sdl:
                o.bad("introspected-unasked", "introspection query sent although the SDL was fetched; " + story)
            wrote = bool(ch) and w.read(outs["schema"]) != before.get(outs["schema"])
            if ch:
                try:
                    got = netp.canon(w.read(outs["schema"]).decode("utf-8"))
                except Exception as e:  # noqa
                    got = f"<{type(e).__name__}: {e}>"
                want = {netp.canon(m["sdl"]), netp.via_introspection(m["sdl"])} if got_intro else {netp.canon(m["sdl"])}
                if got not in want:
                    o.bad("wrong-schema", f"output was generated from something else than the published schema; {story}; dumped schema starts {got[:200]!r}")
                elif not got_sdl and not intro and not any(x.get("event") == "request" for x in rows):
                    o.bad("wrong-schema", "output without any answer; " + story)
                code = w.read(outs["code"])
                try:
                    compile(code.decode("utf-8"), "x", "exec")
                except Exception as e:  # noqa
                    o.bad("wrong-schema", f"generated module is unusable ({e}); {story}")
            if wrote and not intro and got == netp.canon(m["sdl"]):
                got_sdl = True         # what was lost of the answer was not part of the text
            if got_sdl and not wrote:
                o.bad("fails-with-good-answer", f"the complete SDL was delivered but {name} was not generated; {story}; {w.output(p)[-400:]}")
            elif m["kind"] == "sdl" and not plan["net"]["faults"].get(m["key"]) and not wrote:
                o.bad("fails-with-good-answer", f"the server has the SDL and nothing is wrong with it but {name} was not generated; {story}; {w.output(p)[-400:]}")
            if not got_sdl and m["allow"]:
                after = rows[first_intro:] if intro else []
                tried = bool(intro) or len(rows) >= 2
                if not tried:
                    o.bad("no-fallback", "fetching failed and introspection is allowed but was not tried; " + story)
                elif intro and intro[0].get("good") and not wrote:
                    o.bad("fails-with-good-answer", f"a complete introspection answer was delivered but {name} was not generated; {story}; {w.output(p)[-400:]}")
            if not wrote:
                ok_all = False
                if ch:
                    o.bad("partial-output", f"{name} failed but {ch} changed; {story}")
            o.probes[f"{'sdl' if got_sdl else 'introspection' if got_intro else 'nothing'} -> {'generated' if wrote else 'failed'}"] += 1
            o.states.add("|".join(f"{x['event']}:{x.get('fault')}:{x.get('good')}" for x in rows) + f"|{wrote}")
        strict = plan["entry"] == "cli" or plan["strict"]
        if strict and (p.rc == 0) != ok_all and not o.violations:
            o.bad("misreported", f"rc {p.rc} but {'all' if ok_all else 'not all'} projects were generated")
        return o

    def shrink(self, plan):
        ps = plan["w"]["config"]["projects"]
        if len(ps) > 1:
            for n in list(ps):
                q = json.loads(json.dumps(plan))
                del q["w"]["config"]["projects"][n]
                yield q
        for k, fl in plan["net"]["faults"].items():
            for i in range(len(fl) - 1, -1, -1):
                q = json.loads(json.dumps(plan))
                del q["net"]["faults"][k][i]
                yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q
        yield from fsp.shrink_files(plan)


CHECK = C06()
