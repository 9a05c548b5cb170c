"""C11 no matched document or schema file is silently skipped."""
import ast
import glob
import json
import os
import random
import re

import fsp
import workload
from core import Check, Outcome
from fs import World
from props.c07 import dress, split

HEAD = re.compile(r"^(?:query|mutation|subscription)\s+(\w+)", re.M)


def units(code):
    """Top-level definitions of a module by name, each as text: what the module represents, whatever the order."""
    out = {}
    tree = ast.parse(code)
    for n in ast.walk(tree):      # documentation is taken from comments nearby
        if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            n.body = [x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] or [ast.Pass()]
    for n in tree.body:
        if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            out.setdefault(n.name, set()).add(ast.unparse(n))
    return out


def squash(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


class C11(Check):
    id = "C11"
    runs = {"quick": 700, "thorough": 12000}
    budget_s = {"quick": 90, "thorough": 1500}
    rule = ("one run = documents (and the schema) dealt over up to 9 files in seeded nesting, order and byte-level dress (byte-order marks, CRLF, no final newline, trailing comments, "
            "empty files) and read under a seeded fault: open and read errors, short reads, undecodable bytes, a file vanishing at a seeded operation; the module is compared with the one made "
            "from a single plain file; non-trivial = at least three files, or a fault fired")
    real = ["turms CLI and library, document and schema loading, all plugins and writers", "the kernel's file system (tmpfs) under the seam", "glob"]
    stub = ["disk errors, short reads, directory order, concurrent removal of files (libc seam)"]
    assumptions = ["errors of directory listing itself are invisible to a glob and excluded", "all plugins read documents through one pattern, spelled in one way (the project's or their own)"]

    def setup(self):
        import preload  # noqa

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        files, cfg, s, d = workload.gen_project(r, "p0", size=r.choice([0.7, 1.0, 1.4]), funcs=r.random() < 0.7, wide=0.0)
        t = cfg["extensions"]["turms"]
        t["dump_schema"] = r.random() < 0.3
        chunks = [x for _, x in d.frags.values()] + [x for _, x in d.ops.values()]
        lit = self.literal_op(r, s)
        ops = list(d.ops) + ([lit[0]] if lit else [])
        chunks += [lit[1]] if lit else []
        plain = "\n\n".join(chunks) + "\n"
        docs = {}
        k = min(r.randint(1, 9), len(chunks) + 2)
        buckets = [[] for _ in range(k)]
        order = list(chunks)
        if r.random() < 0.6:
            r.shuffle(order)
        for i, c in enumerate(order):
            if r.random() < 0.25:
                c = "# " + r.choice(["a note", "see https://example.org/#x", "TODO größe", "{ not code"]) + "\n" + c
            buckets[i % k if r.random() < 0.7 else r.randrange(k)].append(c)
        pattern = r.choice(["docs/**/*.graphql", "docs/**/*.graphql", "./docs/**/*.graphql", "docs/*.graphql", "docs/**/[a-y]*.graphql"])
        for i, b in enumerate(buckets):
            sub = "" if pattern == "docs/*.graphql" else r.choice(["", "", "sub/", "sub/deep/er/", "ünï/", "a b/", "_private/", "tests/", "node_modules/m/", "docs/"])
            name = f"docs/{sub}{r.choice(['a', 'm', 'q', 'y', 'x.y', 'ä', '_', 'a~', '#', 'A', 'test_', 'schema', 'ops.generated.', '$x', '(1)', '-', '%s', '@'] if 'a-y' not in pattern else 'amqy')}{i}.graphql"
            docs[name] = dress(r, "\n\n".join(b) + "\n") if b else r.choice(["", "\n", "# empty\n", "\ufeff"])
        if r.random() < 0.12 and "a-y" not in pattern:       # names that are told apart by case or a single sign only
            alike = r.choice([["ops", "Ops", "OPS", "oPs"], ["a b", "a  b", "a_b", "a-b"], ["é", "e\u0301", "e", "E"], ["x", "x.graphql", ".x.y", "x."], ["1", "01", "001", "10"]])
            alike = [x for x in alike if not x.startswith(".")]
            docs = {(f"docs/{alike[i]}.graphql" if i < len(alike) else n): x for i, (n, x) in enumerate(docs.items())}
        noise = {}
        if r.random() < 0.4:
            noise["docs/readme.txt"] = "query Broken {"
            noise["docs/old.graphql.bak"] = "query Broken { nope }"
        cfg["documents"] = pattern
        schemas = {}
        if r.random() < 0.5:
            texts = split(r, s, r.randint(2, 4))
            names = [f"schema/{r.choice(['a', 'm', 'z', 'a', 'm', 'z', '_', '#', 'Z', 'x.y', 'query'])}{i}.graphql" for i in range(len(texts))]
            sdl = "\n".join(x for _, x in sorted(zip(names, texts)))
            for n, x in zip(names, texts):
                schemas[n] = dress(r, x)
            cfg["schema"] = "schema/*.graphql"
        else:
            sdl = s.sdl()
            schemas["schema.graphql"] = dress(r, sdl)
        t["allow_introspection"] = r.random() < 0.7
        plan = {"cfg": cfg, "sdl": sdl, "plain": plain, "docs": docs, "schemas": schemas, "noise": noise, "ops": ops, "frags": list(d.frags),
                "entry": r.choice(["cli", "cli", "lib"]), "strict": True, "dir_seed": r.choice([0, r.randrange(1, 1 << 30)]), "faults": [], "old": r.random() < 0.5}
        if r.random() < 0.3:       # patterns of the plugins themselves take precedence over the project's
            own = {"turms.plugins.operations.OperationsPlugin": "operations_glob", "turms.plugins.fragments.FragmentsPlugin": "fragments_glob", "turms.plugins.funcs.FuncsPlugin": "funcs_glob"}
            some = r.random() < 0.4
            for pl in t["plugins"]:
                if pl["type"] in own and (not some or r.random() < 0.5):
                    pl[own[pl["type"]]] = pattern
            if not some:
                cfg["documents"] = r.choice(["elsewhere/*.graphql", None])
                noise["elsewhere/x.graphql"] = "query Elsewhere { __typename }\n"
                for pl in t["plugins"]:      # what is referenced is looked up in the project's documents
                    if pl["type"].endswith(("EnumsPlugin", "InputsPlugin")):
                        pl["skip_unreferenced"] = False
        plan["pattern"] = pattern
        mode = r.choice(["clean", "clean", "read", "read", "vanish", "vanish", "bytes"])
        plan["mode"] = mode
        if mode == "bytes":
            victim = r.choice(sorted(docs) + sorted(schemas))
            plan["corrupt"] = {"file": victim, "bytes": r.choice(["\udcff\udcfe", "\udcc3", "\udc80", "\udced\udca0\udc80"]), "at": r.random()}
        elif mode in ("read", "vanish"):
            plan["pick"] = {"seed": r.randrange(1 << 40)}
        return plan

    def literal_op(self, r, s):
        """An operation with literal arguments that look like something else."""
        if r.random() < 0.5:
            return None
        for f in s.defs["Query"]["fields"]:
            if workload.named(f["type"]) in workload.BUILTIN or workload.named(f["type"]) in s.names("enum"):
                for a in f.get("args", []):
                    if workload.named(a["type"]) == "String" and not isinstance(a["type"], (list, tuple)):
                        return "LitOne", 'query LitOne {\n  ' + f'{f["name"]}({a["name"]}: {json.dumps(r.choice(["wait...what", "a # b", "} query X {", "...on", "größe", "... NotThere"]), ensure_ascii=False)})' + "\n}"
        s.defs["Query"]["fields"].append({"name": "echo", "type": "String", "args": [{"name": "term", "type": "String"}]})
        return "LitOne", "query LitOne {\n  echo(term: " + json.dumps(r.choice(["wait...what", "a # b", "} query X {", "...on", "größe"]), ensure_ascii=False) + ")\n}"

    def files(self, plan, plain=False):
        cfg = json.loads(json.dumps(plan["cfg"]))
        if plain:
            f = {"schema.graphql": plan["sdl"], "docs/all.graphql": plan["plain"]}
            cfg["schema"], cfg["documents"] = "schema.graphql", "docs/all.graphql"
            for pl in cfg["extensions"]["turms"]["plugins"]:
                for k in ("operations_glob", "fragments_glob", "funcs_glob"):
                    pl.pop(k, None)
        else:
            f = {**plan["docs"], **plan["schemas"], **plan["noise"]}
            c = plan.get("corrupt")
            if c:
                x = f[c["file"]]
                at = int(len(x) * c["at"])
                f[c["file"]] = x[:at] + c["bytes"] + x[at:]
        f["graphql.config.yaml"] = fsp.config_text("graphql.config.yaml", {"projects": {"p0": cfg}})
        outs = fsp.outputs(cfg)
        if plan["old"]:
            f[outs["code"]] = "# the previous output\n"
        return f, outs

    def matched(self, plan, without=None):
        return sorted(p for p in plan["docs"] if p != without)

    def run(self, plan):
        o = Outcome(plan)
        spec = fsp.entry_spec(plan)
        pf, outs = self.files(plan, True)
        w0, p0 = fsp.reference(pf, {"kind": "cli", "args": ["gen"]})
        if not fsp.succeeded(p0):
            o.bad("valid-rejected", "valid documents in a single plain file cannot be generated: " + w0.output(p0)[-700:])
            return o
        full = w0.read(outs["code"]).decode("utf-8")
        self.absolute(o, plan, full)
        init, outs = self.files(plan)
        if "pick" in plan:
            w1, p1 = fsp.reference(init, spec, dir_seed=plan["dir_seed"])
            r = random.Random(plan["pick"]["seed"])
            inputs = set(plan["docs"]) | set(plan["schemas"])
            if plan["mode"] == "read":
                reads = [i for i, x in enumerate(p1.oplog) if x[0] == "read" and x[1] in inputs]
                if r.random() < 0.25 and reads:
                    f = {"proc": "p", "at": r.choice(reads), "kind": "short", "op": "read", "frac": r.choice([0.0, 0.1, 0.5, 0.9])}
                else:
                    f = fsp.pick_fault(r, p1.oplog, "p", ["fail"], only=lambda x: x[0] in ("openr", "read") and x[1] in inputs, bias_mutating=0)
                plan["faults"] = [f] if f else []
            else:
                victim = r.choice(sorted(inputs))
                reads = [i for i, x in enumerate(p1.oplog) if x[0] in ("openr", "opendir") and (x[1] in inputs or x[1].startswith(("docs", "schema")))]
                at = r.choice(reads) if reads and r.random() < 0.85 else r.randrange(len(p1.oplog) or 1)
                plan["vanish"] = {"file": victim, "at": at}
            del plan["pick"]
        w = World()
        w.populate(init)
        before = w.snapshot()
        van = plan.get("vanish")
        gone = []
        vdir = os.path.dirname(van["file"]) if van else None
        seen_listing = []       # was the victim's directory listed (or the victim named outright) before it vanished?

        def observe(world, proc, e):
            if not van or not proc:
                return
            if proc.ops == van["at"] and not gone:
                os.unlink(world.path(van["file"]))
                world.trace.append(["env", "unlink", van["file"]])
                gone.append(proc.ops)
            if e and not gone and e["op"] == "opendir" and e["path"].rstrip("/") == vdir:
                seen_listing.append(proc.ops)

        P = w.spawn_run([("p", spec)], faults=plan["faults"], observe=observe, dir_seed=plan["dir_seed"])
        p = P["p"]
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        for lab, op, *_ in w.fired:
            o.faults[lab] += 1
        if gone:
            o.faults["vanish"] += 1
        if plan.get("corrupt"):
            o.faults["undecodable bytes"] += 1
        if plan["dir_seed"]:
            o.faults["shuffled listing"] += 1
        o.nontrivial = bool(w.fired or gone or plan.get("corrupt") or len(plan["docs"]) >= 3)
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg)
            return o
        after = w.snapshot()
        got = after.get(outs["code"])
        hard = any(lab.startswith("fail") for lab, *_ in w.fired)
        what = f"mode={plan['mode']} faults={[x[:2] for x in w.fired]} vanish={van} corrupt={plan.get('corrupt')}"
        if p.rc == 0:
            if plan.get("corrupt"):
                o.bad("undecodable-accepted", f"a matched file is not UTF-8 but the run succeeded; {what}")
            elif hard and self.different(full, got):
                o.bad("left-out", f"a read failed and the run went on without its content: {self.different(full, got)}; {what}")
            else:
                df = self.different(full, got)
                if df and gone and self.absent_ok(o, plan, van, seen_listing, spec, got):
                    o.probes["vanished before it was matched"] += 1
                elif df:
                    o.bad("left-out", f"the run succeeded but the module does not represent every matched file: {df}; {what}")
        else:
            if before.get(outs["code"]) != got:
                o.bad("touched-by-failure", f"the run failed but changed its output; {what}")
            if not (w.fired or gone or plan.get("corrupt")):
                o.bad("valid-rejected", f"valid files were rejected (rc {p.rc}); {what}: {w.output(p)[-700:]}")
            if w.fired and not hard:
                o.bad("short-read-fatal", f"short reads made the run fail; {what}: {w.output(p)[-300:]}")
        o.probes[f"{plan['mode']}:rc{min(1, p.rc)}"] += 1
        o.states.add(f"{plan['mode']}|{len(plan['docs'])}|{len(plan['schemas'])}|{sorted(x[:2] for x in w.fired)}|{bool(gone)}|{p.rc}")
        return o

    def absent_ok(self, o, plan, van, seen, spec, got):
        """The file was gone before its directory was listed: the run may equal one that never had it."""
        q = json.loads(json.dumps(plan))
        q["docs"].pop(van["file"], None)
        q["schemas"].pop(van["file"], None)
        if seen and len(seen) >= 1 and van["file"] in plan["docs"] and "**" not in plan["pattern"]:
            return False
        f, outs = self.files(q)
        w, p = fsp.reference(f, spec)
        if not fsp.succeeded(p):
            return False
        without = w.read(outs["code"]).decode("utf-8")
        return not self.different(without, got) and (not seen or len(seen) < 2 and "**" in plan["pattern"])

    def different(self, full, got):
        if got is None:
            return "no module was written"
        a, b = units(full), units(got.decode("utf-8"))
        if a == b:
            return None
        return f"missing {sorted(set(a) - set(b))[:6]}, extra {sorted(set(b) - set(a))[:6]}, different {sorted(n for n in a if n in b and a[n] != b[n])[:6]}"

    def absolute(self, o, plan, code):
        """Every operation and fragment, from the module alone."""
        tree = ast.parse(code)
        docs = [n.value.value for n in ast.walk(tree) if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "document" and isinstance(n.value, ast.Constant)]
        have = {x for d in docs for x in HEAD.findall(d)}
        miss = [x for x in plan["ops"] if x not in have]
        if miss:
            o.bad("not-represented", f"operations without a document in the module: {miss}")
        names = [squash(n.name) for n in tree.body if isinstance(n, ast.ClassDef)]
        fm = [f for f in plan["frags"] if not any(squash(f) in n for n in names)] if any(p["type"].endswith("FragmentsPlugin") for p in plan["cfg"]["extensions"]["turms"]["plugins"]) else []
        if fm:
            o.bad("not-represented", f"fragments without a class in the module: {fm}")

    def shrink(self, plan):
        if plan["dir_seed"]:
            yield {**plan, "dir_seed": 0}
        if plan["noise"]:
            yield {**plan, "noise": {}}
        if plan["old"]:
            yield {**plan, "old": False}
        for k in list(plan["docs"]):
            if not plan["docs"][k].strip("\ufeff \n#empty") and not (plan.get("vanish") or {}).get("file") == k:
                q = json.loads(json.dumps(plan))
                del q["docs"][k]
                yield q
        t = plan["cfg"]["extensions"]["turms"]
        for opt in ("dump_schema", "processors", "freeze", "stylers", "dump_configuration"):
            if t.get(opt):
                q = json.loads(json.dumps(plan))
                del q["cfg"]["extensions"]["turms"][opt]
                yield q


CHECK = C11()
