"""C21 generations sharing a process do not affect one another."""
import copy
import json
import os
import random
import re
import shutil
import tempfile

import clientgen
import fsp
import procsim
import workload
from core import Check, Outcome, digest

PYD = ["v1", "v2"]


class C21(Check):
    id = "C21"
    runs = {"quick": 300, "thorough": 6000}
    budget_s = {"quick": 90, "thorough": 1500}
    rule = ("one run = 2-5 seeded projects (unrelated ones and siblings that differ in options, plugins or schema; some of which cannot be generated) and a seeded history of 5-16 generations in one process: one after the other, "
            "in 2-4 threads that take turns at seeded calls or lines of turms, with configuration objects used once, again, or built from one parsed file, with inputs edited in between, and with generations "
            "interrupted or failing at seeded points; every undisturbed generation is compared with the same generation in a fresh process; non-trivial = at least two generations succeeded")
    real = ["turms generation in full (loading, configuration, plugins, parsers, stylers, processors)", "HTTP client library, black, isort"]
    stub = ["thread scheduling (one thread at a time, seeded choice)", "locks created by turms (cooperative)", "network (simulated sockets) for projects whose schema is a URL"]
    assumptions = ["threads are preempted at function calls or lines of turms, not inside libraries", "a configuration object is not shared by generations that run at the same time",
                   "faults are exceptions raised in turms code, failing file opens and failing exchanges"]

    def setup(self):
        procsim.install_locks()
        import preload  # noqa
        import warnings
        warnings.simplefilter("ignore")
        self.n = 0

    # -- plan
    def fresh_project(self, r, broken):
        if r.random() < 0.5:
            p = clientgen.client_project(r, [f for f in clientgen.ALL if r.random() < 0.5], size=r.choice([0.7, 1.0]), n_ops=(1, 4))
            files = {"schema.graphql": p["sdl"], **{f"docs/d{i}.graphql": t + "\n" for i, t in enumerate(p["docs"])}}
            t = json.loads(json.dumps(p["turms"]).replace("simclient.", "simproxies."))
        else:
            w = fsp.build(r, 1, size=r.choice([0.7, 1.0, 1.6]), wide=0.7, names=["p"])
            if broken:
                fsp.break_project(r, w, "p", [k for k in fsp.BREAKS if not k.startswith("schema_missing")])
            c = w["config"]["projects"]["p"]
            files = {k: v for k, v in w["files"].items() if not k.startswith("docs/")}
            if c["schema"] in files and c["schema"] != "schema.graphql":
                files["schema.graphql"] = files.pop(c["schema"])
            files.update({k: v for k, v in w["files"].items() if k.startswith("docs/")})
            t = c["extensions"]["turms"]
        if broken and r.random() < 0.4:
            import simfaults
            t["plugins"] = [*t["plugins"], {"type": "simfaults.FailingPlugin", "exc": r.choice(simfaults.EXCS)}]
        if r.random() < 0.1:
            t["verbose"] = True
        return {"files": [files], "config": {"schema": "@BASE@/schema.graphql", "documents": "@BASE@/docs/**/*.graphql", "extensions": {"turms": t}}}

    def sibling(self, r, p):
        q = copy.deepcopy(p)
        t = q["config"]["extensions"]["turms"]
        for _ in range(r.randint(1, 3)):
            k = r.choice(["freeze", "stylers", "exclude_typenames", "options", "catchall", "funcs", "scalars", "parser", "bases", "skip_forwards", "plugin", "schema", "docs", "pydantic", "unreferenced", "document", "processors", "names", "names", "names"])
            fp = next((x for x in t["plugins"] if x["type"].endswith(".FuncsPlugin")), None)
            if k == "freeze":
                t["freeze"] = {"enabled": not t.get("freeze", {}).get("enabled")}
            elif k == "stylers":
                t["stylers"] = [] if t.get("stylers") else [{"type": x} for x in workload.STYLERS]
            elif k == "exclude_typenames":
                t[k] = not t.get(k)
            elif k == "options":
                t["options"] = {"enabled": True, "extra": r.choice(["ignore", "forbid", "allow"]), "types": r.choice([["input"], ["fragment"], ["input", "fragment", "object"]])}
            elif k == "catchall":
                t["create_catchall"] = not t.get("create_catchall", True)
            elif k == "funcs" and fp:
                fp["definitions"] = [d for d in fp["definitions"] if r.random() < 0.7] or fp["definitions"]
                fp["collapse_lonely"] = not fp.get("collapse_lonely", True)
                if r.random() < 0.5:
                    fp["global_kwargs"] = [{"type": "simproxies.Client", "key": r.choice(["client", "rath"]), "description": "the client"}]
                if r.random() < 0.3:
                    fp["prepend_sync"] = r.choice(["do_", "run_"])
            elif k == "scalars":
                t["scalar_definitions"] = {**t.get("scalar_definitions", {}), r.choice(["UUID", "DateTime", "ID"]): r.choice(["str", "int", "simproxies.Idish"])}
            elif k == "parser":
                t["parsers"] = [] if t.get("parsers") else [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": r.choice(["3.7", "3.9"])}]
            elif k == "bases":
                t["object_bases"] = r.choice([["pydantic.BaseModel"], ["simproxies.BaseA", "pydantic.BaseModel"]])
            elif k == "skip_forwards":
                t[k] = not t.get(k)
            elif k == "plugin":
                t["plugins"] = r.choice([t["plugins"], t["plugins"][:-1] or t["plugins"], [{"type": "turms.plugins.strawberry.StrawberryPlugin"}],
                                         [{"type": "turms.plugins.enums.EnumsPlugin", "skip_unreferenced": False}, {"type": "turms.plugins.inputs.InputsPlugin", "skip_unreferenced": False}, {"type": "turms.plugins.objects.ObjectsPlugin"}]])
            elif k == "names":
                self.permute(r, q)
            elif k == "schema":
                self.change_schema(r, q["files"][0])
            elif k == "docs":
                self.change_docs(r, q["files"][0])
            elif k == "pydantic":
                t["pydantic_version"] = r.choice(PYD)
            elif k == "unreferenced":
                for x in t["plugins"]:
                    if x["type"].endswith(("EnumsPlugin", "InputsPlugin")):
                        x["skip_unreferenced"] = not x.get("skip_unreferenced", True)
            elif k == "document":
                t["document_field_metadata"] = not t.get("document_field_metadata", True)
            elif k == "processors":
                t["processors"] = r.choice([[], [{"type": "turms.processors.disclaimer.DisclaimerProcessor"}], [{"type": "turms.processors.isort.IsortProcessor"}]])
        return q

    def permute(self, r, q):
        """The same names for other things: fragments, operations and types swap their names."""
        files = q["files"][0]
        docs = [k for k in files if k.startswith("docs/")]
        text = "\n".join(files[k] for k in docs)

        def swap(names):
            names = sorted(set(names))
            other = names[:]
            r.shuffle(other)
            return dict(zip(names, other))

        def apply(ks, pattern, m):
            for k in ks:
                files[k] = re.sub(pattern, lambda x: x.group(1) + m.get(x.group(2), x.group(2)), files[k])

        if r.random() < 0.7:
            apply(docs, r"(\bfragment\s+|\.\.\.\s*)(\w+)", swap(re.findall(r"\bfragment\s+(\w+)\s+on\b", text)))
        if r.random() < 0.4:
            apply(docs, r"(\b(?:query|mutation|subscription)\s+)(\w+)", swap(re.findall(r"\b(?:query|mutation|subscription)\s+(\w+)", text)))
        if r.random() < 0.4 and "schema.graphql" in files:
            found = re.findall(r"(?m)^(type|interface|union|enum|input|scalar) (\w+)", files["schema.graphql"])
            m = swap([n for _, n in found if n not in ("Query", "Mutation", "Subscription")])
            apply(["schema.graphql", *docs], r"(\b)(\w+)\b", m)

    def change_schema(self, r, files):
        s = files["schema.graphql"]
        k = r.choice(["enum", "doc", "field", "input"])
        if k == "enum":
            s = re.sub(r"(enum \w+ \{)", lambda m: m.group(1) + "\n  ADDED_LATER", s, count=r.choice([1, 0]))
        elif k == "doc":
            s = re.sub(r"(?m)^(type|input|enum) ", lambda m: '"""Changed"""\n' + m.group(0) if not s[:m.start()].rstrip().endswith('"""') else m.group(0), s)
        elif k == "field":
            s = re.sub(r"(?m)^(type (?!Query|Mutation|Subscription)\w+ \{)", r"\1\n  addedLater: Int", s, count=1)
        else:
            s = re.sub(r"(?m)^(input \w+ \{)", r"\1\n  addedLater: String", s)
        files["schema.graphql"] = s

    def change_docs(self, r, files):
        ds = sorted(k for k in files if k.startswith("docs/"))
        for k in ds:
            if r.random() < 0.6:
                files[k] = re.sub(r"(?m)^(query|mutation|subscription) (\w+)", r"\1 \2Later", files[k])

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        projects = []
        for _ in range(r.randint(1, 3)):
            projects.append(self.fresh_project(r, r.random() < 0.25))
            for _ in range(r.choice([0, 1, 1, 2])):
                if len(projects) < 5:
                    projects.append(self.sibling(r, r.choice(projects)))
        if len(projects) == 1:
            projects.append(self.sibling(r, projects[0]))
        for i, p in enumerate(projects):
            f = copy.deepcopy(p["files"][0])
            (self.change_schema if r.random() < 0.5 else self.change_docs)(r, f)
            p["files"].append(f)
            if r.random() < 0.15:
                p["url"] = [f"http://s{i}.test/schema.graphql", f"s{i}.test:80"]
                p["sdl"] = [x["schema.graphql"] for x in p["files"]]
                p["config"]["schema"] = p["url"][0] if r.random() < 0.5 else {p["url"][0]: {"headers": {"X-Token": str(i)}}}
                if r.random() < 0.4:
                    p["config"]["extensions"]["turms"]["allow_introspection"] = True
        history, rest = [], r.randint(5, 16)
        objs = [None, "a", "b", "raw1", "raw1"]
        while rest > 0:
            x = r.random()
            if x < 0.12:
                history.append({"kind": "edit", "p": r.randrange(len(projects))})
                continue
            if x < 0.4:
                k = min(max(2, rest), r.randint(2, 4))
                gens = []
                for j in range(k):
                    g = {"p": r.randrange(len(projects)), "obj": r.choice([None, None, f"t{j}", "raw1"])}
                    if r.random() < 0.1:
                        g["fault"] = self.raising(r)
                    gens.append(g)
                lines = r.random() < 0.3
                history.append({"kind": "par", "gens": gens, "sched": r.getrandbits(32), "prob": r.choice([0.002, 0.02] if lines else [0.01, 0.05, 0.3]), "lines": lines})
                rest -= k
                continue
            g = {"kind": "gen", "p": r.randrange(len(projects)), "obj": r.choice(objs)}
            y = r.random()
            if y < 0.15:
                g["fault"] = self.raising(r)
            elif y < 0.2:
                g["fault"] = {"kind": "open", "n": r.choice([0, 0, 1, 2])}
            elif y < 0.3 and projects[g["p"]].get("url"):
                g["fault"] = {"kind": "net", "fault": r.choice([{"kind": "status", "code": 500}, {"kind": "empty"}, {"kind": "raw", "text": "type Query { hello: String }"}])}
            history.append(g)
            rest -= 1
        return {"projects": projects, "history": history}

    def raising(self, r):
        return {"kind": "raise", "frac": round(r.random(), 4), "lines": r.choice([0, 1, 2, 5]), "exc": r.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "OSError"])}

    # -- run
    def run(self, plan):
        o = Outcome(plan)
        base = os.path.join(os.environ.get("SIM_SCRATCH") or tempfile.gettempdir(), "history")
        need = self.needed(plan)
        try:
            ref = {f"{p}.{v}": procsim.in_child(lambda: procsim.Process(plan, base).fresh(p, v)) for p, v in need}
            calls = {k: v.get("calls", 1) for k, v in ref.items()}
            h = procsim.in_child(lambda: procsim.Process(plan, base).history(calls))
        finally:
            shutil.rmtree(base, ignore_errors=True)
        o.faults.update(h["faults"])
        o.probes.update(h["probes"])
        ok = 0
        for x in h["results"]:
            res, want = x["res"], ref[f"{x['p']}.{x['v']}"]
            o.trace.append([x["at"], x["gen"], x["p"], x["v"], x["obj"], x["fault"], digest({k: v for k, v in res.items() if k != "msg"}), x.get("order")])
            what = f"generation {x['gen'] + 1} of step {x['at']} (project {x['p']}, configuration {x['obj'] or 'new'}{', concurrent' if x['concurrent'] else ''})"
            if "stuck" in res:
                o.bad("stuck", f"{what}: {res['stuck']}")
                continue
            if x["fault"]:
                continue
            o.probes["compared"] += 1
            if "ok" in want and "ok" not in res:
                o.bad("fails", f"{what} fails, in a fresh process it succeeds: {res['err']}: {res['msg']}")
            elif "ok" in res and "ok" not in want:
                o.bad("succeeds", f"{what} succeeds, in a fresh process it fails: {want['err']}: {want['msg']}")
            elif "ok" in res:
                ok += 1
                o.probes["succeeded"] += 1
                if res["ok"] != want["ok"]:
                    o.bad("differs", f"{what} generates other code than a fresh process: {first_diff(res['ok'], want['ok'])}")
                elif res["schema"] != want["schema"]:
                    o.bad("schema_differs", f"{what} returns another schema than in a fresh process")
            else:
                o.probes["failed alike"] += 1
        o.nontrivial = ok >= 2
        o.sim_s = 0.0
        o.states.add(digest([[x["p"], x["v"], x["obj"], x["fault"], x.get("order")] for x in h["results"]]))
        return o

    def needed(self, plan):
        state = [0] * len(plan["projects"])
        out = set()
        for s in plan["history"]:
            if s["kind"] == "edit":
                state[s["p"]] = 1 - state[s["p"]]
            else:
                for g in s.get("gens", [s]):
                    out.add((g["p"], state[g["p"]]))
        return sorted(out)

    # -- shrink
    def shrink(self, plan):
        h = plan["history"]
        for k in (len(h) // 2, len(h) // 4):
            if k > 0:
                for i in range(0, len(h), k):
                    q = copy.deepcopy(plan)
                    del q["history"][i:i + k]
                    if q["history"]:
                        yield q
        for i, s in enumerate(h):
            if len(h) > 1:
                q = copy.deepcopy(plan)
                del q["history"][i]
                yield q
            if s["kind"] == "par":
                q = copy.deepcopy(plan)
                q["history"][i:i + 1] = [{"kind": "gen", "p": g["p"], "obj": g.get("obj")} for g in s["gens"]]
                yield q
                for j in range(len(s["gens"])):
                    if len(s["gens"]) > 1:
                        q = copy.deepcopy(plan)
                        del q["history"][i]["gens"][j]
                        yield q
            for g in s.get("gens", [s]):
                if g.get("fault"):
                    q = copy.deepcopy(plan)
                    for g2 in q["history"][i].get("gens", [q["history"][i]]):
                        g2.pop("fault", None)
                    yield q
                    break
            if s.get("obj"):
                q = copy.deepcopy(plan)
                q["history"][i]["obj"] = None
                yield q
        for i, p in enumerate(plan["projects"]):
            t = p["config"]["extensions"]["turms"]
            if not any(g["p"] == i for s in h if s["kind"] != "edit" for g in s.get("gens", [s])):
                if p["files"] != [{}, {}] and not p.get("url"):
                    q = copy.deepcopy(plan)
                    q["projects"][i]["files"] = [{}, {}]
                    yield q
                continue
            for k in ("processors", "parsers", "freeze", "options", "stylers", "exclude_typenames", "additional_bases"):
                if t.get(k):
                    q = copy.deepcopy(plan)
                    del q["projects"][i]["config"]["extensions"]["turms"][k]
                    yield q
            if len(t["plugins"]) > 1:
                for j in range(len(t["plugins"])):
                    q = copy.deepcopy(plan)
                    del q["projects"][i]["config"]["extensions"]["turms"]["plugins"][j]
                    yield q
            for f in p["files"][0]:
                if f.startswith("docs/"):
                    q = copy.deepcopy(plan)
                    for v in q["projects"][i]["files"]:
                        v.pop(f, None)
                    yield q


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f"line {i + 1}: {x[:160]!r} instead of {y[:160]!r}"
    return f"{len(la)} instead of {len(lb)} lines"


CHECK = C21()
