"""C07 a schema given as several sources is exactly the union of its sources."""
import json
import random

import fsp
import netp
from core import Check, Outcome
from fs import World


def split(r, s, k):
    """Distribute the definitions of a schema over k texts; root types may continue in another one."""
    parts = [[] for _ in range(k)]
    names = list(s.defs)
    if r.random() < 0.6:
        r.shuffle(names)
    for n in names:
        d = s.defs[n]
        home = r.randrange(k)
        if d["kind"] == "object" and len(d["fields"]) > 2 and k > 1 and r.random() < (0.6 if n in ("Query", "Mutation") else 0.15):
            cutp = r.randint(1, len(d["fields"]) - 1)
            c = s.clone()
            c.defs[n]["fields"] = d["fields"][:cutp]
            parts[home].append(c.print_def(n))
            c.defs[n]["fields"], c.defs[n]["implements"], c.defs[n]["desc"] = d["fields"][cutp:], [], None
            parts[r.choice([i for i in range(k) if i != home])].append("extend " + c.print_def(n))
        else:
            parts[home].append(s.print_def(n))
    return ["\n".join(p) if p else "# nothing here yet\n" for p in parts]


def dress(r, text):
    """Byte-level variation at the edges of a source."""
    k = r.random()
    if r.random() < 0.3:
        text = r.choice(["# first line\n", "\n\n", '# """ not a description\n', "#\n", "  \t\n"]) + text
    if k < 0.25:
        text = text.rstrip("\n")
    elif k < 0.45:
        text = text.rstrip("\n") + "\n# the end"
    elif k < 0.55:
        text = text.rstrip("\n") + " # the end"
    elif k < 0.65:
        text += "\n\n  \n"
    if r.random() < 0.15:
        text = text.replace("\n", "\r\n")
    if r.random() < 0.25:
        text = "\ufeff" + text
    return text


class C07(Check):
    id = "C07"
    runs = {"quick": 700, "thorough": 14000}
    budget_s = {"quick": 80, "thorough": 1500}
    rule = ("one run = one schema whose definitions (and extensions of root types) are dealt over 2-6 sources with varied edges (byte-order marks, comments without final newline, CRLF, "
            "empty sources), configured as glob, list of files/globs/URLs/URLs with headers, or map of URLs, in seeded order, with seeded network and disk faults; "
            "non-trivial = at least two sources took part")
    real = ["turms CLI and library, schema loading, all plugins and writers", "requests, urllib3, http.client, graphql-core, glob"]
    stub = ["DNS, TCP, TLS and HTTP servers and the clock (net.py)", "disk errors and directory order (libc seam)"]
    assumptions = ["errors of directory listing itself are invisible to a glob and excluded", "truncation is visible to the client (see C06)"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        files, cfg, s, sdl = netp.project(r, "p0", False, size=r.choice([0.7, 1.0, 1.6]))
        t = cfg["extensions"]["turms"]
        t["allow_introspection"] = r.random() < 0.7
        form = r.choice(["glob", "list", "list", "list", "list", "map"])
        k = r.randint(2, 6)
        texts = split(r, s, k)
        island = None
        if r.random() < 0.5:       # a source nothing else depends on: only a check of the schema itself misses it
            island = r.choice(["enum IslandKind {\n  EAST\n  WEST\n}\n", "type Island {\n  shore: String\n}\n", "directive @island(at: Int) on FIELD\n", "scalar IslandTime\n",
                               '"""Alone"""\ninput IslandInput {\n  shore: Int = 3\n}\n'])
            sdl += "\n\n" + island
            texts.insert(r.randint(0, len(texts)), island)
        servers, sources, n = {}, [], [0]

        def new_url(text):
            i = n[0]
            n[0] += 1
            u, key = netp.url(r, i)
            servers[key] = netp.server(r, text)
            if text.startswith("\ufeff"):
                servers[key].pop("bom", None)
            sources.append(["url", key])
            return u

        def new_file(text, d="schema", ext=".graphql"):
            i = n[0]
            n[0] += 1
            p = f"{d}/{r.choice('amz')}{i}{ext}"
            if r.random() < 0.3:
                p = f"{d}/sub/{r.choice('amz')}{i}{ext}"
            elif r.random() < 0.4:      # the same name in several directories
                p = f"{d}/{r.choice(['', 'a/', 'b/', 'b/a/'])}types{ext}"
                if p in files:
                    p = f"{d}/n{i}/types{ext}"
            files[p] = text
            sources.append(["file", p])
            return p

        at_island = texts.index(island) if island else None
        texts = [dress(r, x) for x in texts]
        if form == "glob":
            for x in texts:
                new_file(x)
            cfg["schema"] = r.choice(["schema/**/*.graphql", "./schema/**/*.graphql"])
            if r.random() < 0.3:
                cfg["schema"] = [cfg["schema"]]
        elif form == "map":
            cfg["schema"] = {new_url(x): {"headers": {"X-Key": f"k{i}"}} for i, x in enumerate(texts)}
            if r.random() < 0.2:
                cfg["schema"] = [cfg["schema"]]
        else:
            items, i = [], 0
            while i < len(texts):
                kind = r.choice(["file", "file", "url", "url", "dict", "dict2", "glob"])
                if kind == "glob" and i + 1 < len(texts):
                    d = f"part{i}"
                    new_file(texts[i], d, ".gql")
                    new_file(texts[i + 1], d, ".gql")
                    items.append(d + "/**/*.gql")
                    i += 2
                elif kind == "dict2" and i + 1 < len(texts):
                    items.append({new_url(texts[i]): {"headers": {"X-Key": f"k{i}"}}, new_url(texts[i + 1]): {"headers": {}}})
                    i += 2
                else:
                    if kind == "url":
                        items.append(new_url(texts[i]))
                    elif kind in ("dict", "dict2"):
                        items.append({new_url(texts[i]): {"headers": {"X-Key": f"k{i}"}}})
                    else:
                        # names that look a little like something else
                        items.append(new_file(texts[i], r.choice(["schema", "schema", "https_schemas", "http"]), r.choice([".graphql", ".graphqls", ".txt"])))
                    i += 1
            if len(items) == 1:
                p = new_file("# one more\n")
                items.append(p)
            r.shuffle(items)
            cfg["schema"] = items
        w = {"files": files, "config": {"projects": {"p0": cfg}}, "config_name": r.choice(["graphql.config.yaml", "graphql.config.json"])}
        plan = {"w": w, "sdl": sdl, "sources": sources, "net": {"servers": servers, "faults": {}, "seed": r.randrange(1 << 30)}, "old": fsp.old_contents(r, w, 0.5),
                "form": form, "entry": r.choice(["cli", "lib"]), "strict": True, "gone": None, "diskfault": None, "dir_seed": r.choice([0, r.randrange(1, 999)])}
        if r.random() < 0.55:
            what, where = r.choice(sources)
            if island and r.random() < 0.6:
                what, where = sources[at_island]
            if what == "url":
                plan["net"]["faults"][where] = [netp.get_fault(r, servers[where]["sdl"], stalls=r.random() < 0.1)]
            else:
                m = r.choice(["gone", "disk", "disk", "undecodable"])
                if m == "gone":
                    # a glob is without a source only when nothing matches it any more
                    plan["gone"] = [where] if form == "list" and where in cfg["schema"] else [p for k, p in sources if k == "file" and p.split("/")[0] == where.split("/")[0] and not (form == "list" and p in cfg["schema"])]
                elif m == "disk":
                    plan["diskfault"] = [where, r.choice(["openr", "openr", "read"]), r.choice(["EIO", "EACCES", "ENOENT"]) if m else ""]
                else:
                    files[where] += "\n# \udcff\udcfe"
                    plan["undecodable"] = where
        return plan

    def run(self, plan):
        o = Outcome(plan)
        cfg = plan["w"]["config"]["projects"]["p0"]
        init = {**fsp.all_files(plan["w"]), **plan["old"]}
        if plan["gone"]:
            for x in plan["gone"]:
                init.pop(x, None)
        outs = fsp.outputs(cfg)
        spec = fsp.entry_spec(plan)
        spec["hooks"] = [["net", plan["net"]]]
        faults = []
        if plan["diskfault"]:
            where, op, err = plan["diskfault"]
            w0, p0 = fsp.reference(init, spec, dir_seed=plan["dir_seed"])
            at = [i for i, x in enumerate(p0.oplog) if x[0] == op and x[1] == where]
            if at:
                faults = [{"proc": "p", "at": at[0], "kind": "fail", "err": err if op == "openr" else "EIO"}]
        w = World()
        w.populate(init)
        before = w.snapshot()
        P = w.spawn_run([("p", spec)], faults=faults, dir_seed=plan["dir_seed"])
        p = P["p"]
        ex = (p.result or {}).get("export", {}).get("net")
        dmg = fsp.world_damage(w, P)
        if dmg or ex is None:
            o.bad("no-progress", dmg or f"died: {w.output(p)[-300:]}")
            return o
        o.trace = w.trace + [[x["to"], x["event"], x.get("fault")] for x in ex["log"]] + [p.rc, ex["now"]]
        o.sim_s = ex["now"]
        for k in ex["fired"]:
            o.faults[k] += 1
        for k in [x for x in ("gone", "undecodable") if plan.get(x)] + [f"disk:{f['err']}" for f in faults]:
            o.faults[k] += 1
        if ex["blocked"]:
            o.bad("hang", ex["blocked"])
            return o
        o.nontrivial = len(plan["sources"]) >= 2
        wrote = w.read(outs["schema"]) != before.get(outs["schema"]) or w.read(outs["code"]) != before.get(outs["code"])
        story = f"sources {json.dumps(cfg['schema'])[:300]}; faults {ex['fired']} {[f['err'] for f in faults]} gone={plan['gone']} undecodable={plan.get('undecodable')}"
        bad_source = bool(plan["gone"] or plan.get("undecodable") or faults)
        servers_good = True
        for what, where in plan["sources"]:
            if what == "url":
                rows = netp.rows(ex, where)
                if where in plan["net"]["faults"] and not any(x.get("good") for x in rows):
                    servers_good = False
                if any(netp.is_intro(x) for x in rows):
                    o.bad("introspected", f"one of several sources was introspected; {story}")
        if wrote:
            try:
                got = netp.canon(w.read(outs["schema"]).decode("utf-8"))
            except Exception as e:  # noqa
                got = f"<{type(e).__name__}: {e}>"
            want = netp.canon(plan["sdl"])
            if got != want:
                a, b = set(want.split("\n")), set(got.split("\n"))
                o.bad("not-the-union", f"the schema used is not the union of its sources; missing lines {sorted(a - b)[:6]}, extra lines {sorted(b - a)[:6]}; {story}")
            if plan["gone"]:
                o.bad("continued-without", f"generated although {plan['gone']} does not exist; {story}") if got != want else None
            if p.rc != 0:
                o.bad("misreported", f"written, but rc {p.rc}; {story}")
        else:
            if p.rc == 0:
                o.bad("misreported", f"nothing written, but rc 0; {story}; {w.output(p)[-300:]}")
            if not bad_source and servers_good:
                o.bad("fails-with-good-sources", f"all sources are available but the run fails: {story}; {w.output(p)[-700:]}")
        o.probes[f"{plan['form']}: {'faulty' if bad_source or not servers_good else 'good'} -> {'generated' if wrote else 'failed'}"] += 1
        o.states.add(f"{plan['form']}|{[x[0] for x in plan['sources']]}|{wrote}|{sorted(set(ex['fired']))}|{bad_source}")
        return o

    def shrink(self, plan):
        for k in list(plan["net"]["faults"]):
            q = json.loads(json.dumps(plan))
            del q["net"]["faults"][k]
            yield q
        for k in ("gone", "diskfault"):
            if plan[k]:
                q = json.loads(json.dumps(plan))
                q[k] = None
                yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q
        yield from fsp.shrink_files(plan)


CHECK = C07()
