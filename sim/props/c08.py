"""C08 configured request headers reach their source on every request and no other."""
import json
import random

import fsp
import netp
from core import Check, Outcome
from fs import World

NAMES = ["Authorization", "X-Api-Key", "x-tenant", "Cookie", "Accept", "User-Agent", "Content-Type", "X-Trace-Id", "Accept-Language", "accept", "content-type"]


class C08(Check):
    id = "C08"
    runs = {"quick": 600, "thorough": 12000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = 1-3 projects with 1-4 schema sources each on simulated servers (two projects may use one server with different tokens), each source with its own header set or none, "
            "generated or downloaded under seeded faults that trigger fallbacks, redirects and failures; every request a server receives is compared with the headers configured for it; "
            "non-trivial = at least two requests were received")
    real = ["turms CLI and library, schema loading", "requests, urllib3, http.client"]
    stub = ["DNS, TCP, TLS and HTTP servers and the clock (net.py)"]
    assumptions = ["redirects stay on the same server; a redirected request need not repeat Content-Type and Cookie (the HTTP library manages these)", "no proxy, netrc or REQUESTS_* environment"]

    def setup(self):
        import preload  # noqa

    def headers(self, r, tag):
        h = {}
        for n in r.sample(NAMES, r.randint(0, 4)):
            if n.lower() in [x.lower() for x in h]:
                continue
            v = f"{tag}-{n.lower()}-{r.randrange(1000)}"
            if n.lower() == "content-type":
                v = "application/json; q=" + str(r.randrange(100))
            elif r.random() < 0.2:
                v = f"a b=c;{tag} \"{r.randrange(99)}\", x"
            elif r.random() < 0.12:
                v = r.choice(["", f"$HOME ${{HOME}} %(x)s {{}} {tag}", f"{tag}-" + "long" * 900, f"grün-{tag}", f"Bearer {tag}=="])
            h[n] = v
        return h

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        n = r.choice([1, 1, 2, 3])
        files, projects, servers, faults = {}, {}, {}, {}
        expect = []   # in request order: [project, key, path-less headers or None, single-source?]
        c = 0
        share = None
        for i in range(n):
            name = f"p{i}"
            f, cfg, s, sdl = netp.project(r, name, n > 1, size=0.7)
            files.update(f)
            cfg["extensions"]["turms"]["allow_introspection"] = r.random() < 0.85
            form = r.choice(["str", "dict", "dict", "listdict", "list", "list", "map"])
            k = 1 if form in ("str", "dict", "listdict") else r.randint(2, 4)
            from props.c07 import split
            texts = split(r, s, k) if k > 1 else [sdl]
            items = []
            for j, text in enumerate(texts):
                u, key = netp.url(r, c)
                c += 1
                if k == 1 and share and r.random() < 0.5 and share[2] is not None:
                    u, key = share[0], share[1]
                    cfg2 = share[2]
                    # same server, another token: the project uses the same schema and documents
                    own = cfg["extensions"]
                    cfg["documents"] = cfg2["documents"]
                else:
                    kind = r.choice(["sdl", "introspection", "introspection", "no_introspection"]) if k == 1 else "sdl"
                    servers[key] = netp.server(r, text, kind=kind, get_code=r.choice([405, 404, 400, 200]))
                    fl = []
                    if r.random() < 0.5:
                        fl.append(netp.get_fault(r, text, stalls=r.random() < 0.1) if kind != "introspection" else None)
                        if fl[0] and fl[0]["kind"] == "redirect" and fl[0]["location"] and r.random() < 0.5:
                            fl.append({"kind": "status", "code": 500, "body": "html"})
                        if r.random() < 0.5:
                            fl.append(netp.post_fault(r, text))
                    faults[key] = fl
                    share = [u, key, cfg] if k == 1 else None
                h = self.headers(r, f"s{i}{j}") if form != "str" and r.random() < 0.8 else None
                if form in ("dict", "listdict", "map"):
                    h = h or {}
                items.append((u, h))
                expect.append([name, key, h or {}, k == 1])
            if form == "str":
                cfg["schema"] = items[0][0]
            elif form == "dict":
                cfg["schema"] = {items[0][0]: {"headers": items[0][1]}}
            elif form == "listdict":
                cfg["schema"] = [{items[0][0]: {"headers": items[0][1]}}]
            elif form == "map":
                cfg["schema"] = {u: {"headers": h} for u, h in items}
            else:
                lst = []
                for u, h in items:
                    if h is None:
                        lst.append(u)
                    elif lst and isinstance(lst[-1], dict) and r.random() < 0.4:
                        lst[-1][u] = {"headers": h}
                    else:
                        lst.append({u: {"headers": h}})
                if len(lst) == 1 and r.random() < 0.5:
                    lst.append(lst.pop())
                cfg["schema"] = lst
            projects[name] = cfg
        w = {"files": files, "config": {"projects": projects}, "config_name": r.choice(["graphql.config.yaml", "graphql.config.json"])}
        return {"w": w, "net": {"servers": servers, "faults": faults, "seed": r.randrange(1 << 30)}, "expect": expect,
                "entry": r.choice(["cli", "cli", "lib", "cli-download"]), "strict": False}

    def run(self, plan):
        o = Outcome(plan)
        w = World()
        w.populate(fsp.all_files(plan["w"]))
        spec = {"kind": "cli", "args": ["download"]} if plan["entry"] == "cli-download" else fsp.entry_spec(plan)
        spec["hooks"] = [["net", plan["net"]]]
        P = w.spawn_run([("p", spec)])
        p = P["p"]
        ex = (p.result or {}).get("export", {}).get("net")
        dmg = fsp.world_damage(w, P)
        if dmg or ex is None:
            o.bad("no-progress", dmg or f"died: {w.output(p)[-300:]}")
            return o
        o.trace = [[x["to"], x["event"], x.get("method"), x.get("path"), x.get("fault"), x.get("headers")] for x in ex["log"]] + [p.rc]
        o.sim_s = ex["now"]
        for k in ex["fired"]:
            o.faults[k] += 1
        o.nontrivial = len(ex["log"]) > 1
        secrets = {}
        for i, (name, key, h, single) in enumerate(plan["expect"]):
            for k, v in h.items():
                if v:  # (an empty value tells nothing)
                    secrets.setdefault(v, set()).add(key)
        byserver = {}
        for e in plan["expect"]:
            byserver.setdefault(e[1], []).append(e)
        pos = {k: 0 for k in byserver}
        for x in ex["log"]:
            if x["event"] != "request":
                continue
            key = x["to"]
            got = {}
            for k, v in x["headers"]:
                got.setdefault(k.lower(), []).append(v)
            what = f"{x['method']} {key}{x['path']}{' (introspection)' if netp.is_intro(x) else ''}"
            o.probes["introspection request" if netp.is_intro(x) else "redirected request" if x["path"].startswith("/moved") else "first request"] += 1
            cands = byserver.get(key)
            if cands is None:
                o.bad("stranger", f"{what}: no project names this server")
                continue
            # the requests of one server arrive in project order: find the first project from the current one on that explains it
            j = pos[key]
            ok = None
            while j < len(cands):
                # the HTTP library manages these two itself when it follows a redirect
                if self.matches({k: v for k, v in cands[j][2].items() if not (x["path"].startswith("/moved") and k.lower() in ("content-type", "cookie"))}, got):
                    ok = j
                    break
                j += 1
            if ok is None:
                o.bad("headers-wrong", f"{what} carries { {k: v for k, v in got.items() if k not in ('host', 'content-length', 'connection')} } but its source is configured with "
                      f"{[c[2] for c in cands[pos[key]:]]}")
            else:
                pos[key] = ok
            for k, vs in got.items():
                for v in vs:
                    if v in secrets and key not in secrets[v]:
                        o.bad("headers-leaked", f"{what} carries {k}: {v}, configured for {sorted(secrets[v])}")
                    mine = {a.lower() for c in cands for a in c[2]}
                    if k.startswith("x-") and k not in mine or k in ("authorization", "cookie") and k not in mine:
                        o.bad("headers-leaked", f"{what} carries {k}: {v}, which is not configured for it")
        o.states.add("|".join(f"{x['event']}:{x.get('method')}:{x.get('fault')}" for x in ex["log"]))
        return o

    def matches(self, want, got):
        return all(got.get(k.lower()) == [v] for k, v in want.items()) and not any(k in got and k not in {a.lower() for a in want} for k in ("authorization", "cookie", "x-api-key", "x-tenant", "x-trace-id", "accept-language"))

    def shrink(self, plan):
        ps = plan["w"]["config"]["projects"]
        for n in list(ps):
            if len(ps) > 1:
                q = json.loads(json.dumps(plan))
                del q["w"]["config"]["projects"][n]
                q["expect"] = [e for e in q["expect"] if e[0] != n]
                yield q
        for k in plan["net"]["faults"]:
            for i in range(len(plan["net"]["faults"][k]) - 1, -1, -1):
                q = json.loads(json.dumps(plan))
                del q["net"]["faults"][k][i]
                yield q
        yield from fsp.shrink_files(plan)


CHECK = C08()
