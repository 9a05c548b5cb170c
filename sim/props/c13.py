"""C13 merging keeps hand-written code and adds what is new, over any history."""
import ast
import json
import os
import random
import re
import sys
import types

import fsp
import workload
from core import Check, HarnessError, Outcome
from fs import MASK_ALL, World

MERGE = {"type": "turms.processors.merge.MergeProcessor"}
FORMAT = {"black": {"type": "turms.processors.black.BlackProcessor"}, "isort": {"type": "turms.processors.isort.IsortProcessor"},
          "disclaimer": {"type": "turms.processors.disclaimer.DisclaimerProcessor"}}


# ---------------------------------------------------------------- schema evolution
def evolve(r, s, mode, n):
    """One change of the schema; returns what it was."""
    objs = [x for x in s.names("object") if x not in ("Query", "Mutation", "Subscription")]
    enums, inputs, ifaces = s.names("enum"), s.names("input"), s.names("interface")
    leafs = list(workload.BUILTIN) + enums
    kinds = ["field", "field", "object", "enum_value", "enum", "input_field", "input", "desc", "query", "type_of", "iface", "member", "order", "arg", "fields", "fields", "enum_values"]
    if mode == "server":
        kinds += ["arg", "arg", "field_desc", "field_desc", "unarg", "drop", "drop_query", "scalar", "mutation"]
    k = r.choice(kinds)
    if k == "field":
        s.defs[r.choice(objs)]["fields"].append({"name": f"added{n}", "type": workload.wrap(r, r.choice(leafs + objs[:1])), "desc": r.choice([None, "größer"])})
    elif k == "fields":     # several neighbours, somewhere
        fs = s.defs[r.choice(objs)]["fields"]
        at = r.randint(0, len(fs))
        fs[at:at] = [{"name": f"batch{n}{c}", "type": workload.wrap(r, r.choice(leafs))} for c in "abc"[:r.randint(2, 3)]]
    elif k == "enum_values":
        v = s.defs[r.choice(enums)]["values"]
        at = r.randint(0, len(v))
        v[at:at] = [f"BATCH_{n}_{c}" for c in "ABC"[:r.randint(2, 3)]]
    elif k == "object":
        name = f"Fresh{n}"
        imp = r.sample(ifaces, r.choice([0, 0, 1]))
        fs = [{"name": "id", "type": ("nn", "ID")}, {"name": f"only{n}", "type": workload.wrap(r, r.choice(leafs))}]
        for i in imp:
            fs += [dict(f) for f in s.defs[i]["fields"] if f["name"] not in {x["name"] for x in fs}]
        new = {"kind": "object", "implements": imp, "fields": fs}
        if r.random() < 0.5:
            s.defs = {name: new, **s.defs}
        else:
            s.defs[name] = new
        s.defs["Query"]["fields"].append({"name": f"fresh{n}", "type": name, "args": []})
    elif k == "enum_value":
        v = s.defs[r.choice(enums)]["values"]
        v.insert(r.randint(0, len(v)), f"LATER_{n}")
    elif k == "enum":
        s.defs[f"Late{n}"] = {"kind": "enum", "values": ["ONE", "TWO"]}
        s.defs[r.choice(objs)]["fields"].append({"name": f"late{n}", "type": f"Late{n}"})
        s.defs[r.choice(inputs)]["fields"].append({"name": f"late{n}", "type": f"Late{n}"})
    elif k == "input_field":
        s.defs[r.choice(inputs)]["fields"].append({"name": f"opt{n}", "type": r.choice(leafs), "desc": r.choice([None, "a note"])})
    elif k == "input":
        s.defs[f"Made{n}Input"] = {"kind": "input", "fields": [{"name": "a", "type": r.choice(leafs)}, {"name": "b", "type": ("list", r.choice(inputs))}]}
        s.defs["Mutation"]["fields"].append({"name": f"make{n}", "type": "Boolean", "args": [{"name": "input", "type": ("nn", f"Made{n}Input")}]})
    elif k == "desc":
        s.defs[r.choice(list(s.defs))]["desc"] = f"described anew {n}"
    elif k == "field_desc":
        fs = [f for o in objs + ["Query"] for f in s.defs[o]["fields"] if f.get("args")] or s.defs["Query"]["fields"]
        if mode == "server":
            r.choice(fs)["desc"] = f"explained anew {n}"
    elif k == "query":
        s.defs["Query"]["fields"].insert(r.randint(0, 2), {"name": f"ask{n}", "type": workload.wrap(r, r.choice(objs + leafs)), "args": [{"name": "first", "type": "Int"}] if r.random() < 0.5 else []})
    elif k == "type_of":
        o = r.choice(objs)
        own = [f for f in s.defs[o]["fields"] if workload.named(f["type"]) in leafs and f["name"] != "id" and not any(f["name"] in {x["name"] for x in s.defs[i]["fields"]} for i in ifaces)]
        if own:
            f = r.choice(own)
            if mode == "server":
                f["type"] = workload.wrap(r, r.choice(leafs))
    elif k == "iface":
        name = f"Able{n}"
        s.defs = {**{name: {"kind": "interface", "fields": [{"name": f"able{n}", "type": "String"}]}}, **s.defs} if r.random() < 0.5 else {**s.defs, name: {"kind": "interface", "fields": [{"name": f"able{n}", "type": "String"}]}}
        o = r.choice(objs)
        s.defs[o]["implements"] = s.defs[o].get("implements", []) + [name]
        s.defs[o]["fields"].append({"name": f"able{n}", "type": "String"})
        if r.random() < 0.5:
            s.defs["Query"]["fields"].append({"name": f"ables{n}", "type": ("list", name), "args": []})
    elif k == "member" and s.names("union"):
        u = s.defs[r.choice(s.names("union"))]
        o = r.choice(objs)
        if mode == "server" and o not in u["members"]:
            u["members"].append(o)
    elif k == "order":
        it = list(s.defs.items())
        r.shuffle(it)
        s.defs = dict(it)
    elif k == "arg":
        o = r.choice(objs + ["Query"])
        fs = [f for f in s.defs[o]["fields"] if not any(f["name"] in {x["name"] for x in s.defs[i]["fields"]} for i in ifaces)]
        if fs:
            f = r.choice(fs)
            f.setdefault("args", []).append({"name": f"arg{n}", "type": r.choice(["Int", "String", enums[0]])})
    elif k == "unarg":
        fs = [f for o in objs for f in s.defs[o]["fields"] if f.get("args")]
        if fs:
            r.choice(fs)["args"] = []
    elif k == "drop":
        o = r.choice(objs)
        own = [f for f in s.defs[o]["fields"] if f["name"] != "id" and not any(f["name"] in {x["name"] for x in s.defs[i]["fields"]} for i in ifaces)]
        if own:
            s.defs[o]["fields"].remove(r.choice(own))
    elif k == "drop_query" and len(s.defs["Query"]["fields"]) > 3:
        s.defs["Query"]["fields"].pop(r.randrange(1, len(s.defs["Query"]["fields"])))
    elif k == "scalar":
        s.defs[f"Odd{n}"] = {"kind": "scalar"}
        s.defs[r.choice(objs)]["fields"].append({"name": f"odd{n}", "type": f"Odd{n}"})
    elif k == "mutation":
        s.defs["Mutation"]["fields"].append({"name": f"do{n}", "type": r.choice(objs), "args": [{"name": "id", "type": "ID"}]})
    return k


BODIES = ['''# hand-written {n}
value = {n}  # keep   this   spacing

if value:
    # nested comment
    return None
return None''',
          '''"""My own doc {n}: größe"""
x = (1,
     2,   3)   # odd layout {n}
text = \'\'\'
  # not a comment {n}
\'\'\'
return None''',
          '''try:
    return hand_{n}(self)  # noqa
except NameError:
    return None
    # after the return {n}''',
          '''return None  # {n}: nothing "yet"''',
          '''def inner_{n}(a, *, b=1):
    return [a for _ in range(b)]


return (inner_{n}(1)
        and None)''']
MEMBERS = ['''def hand_{n}(self, a=1, *args):
    # mine {n}
    return a''',
           '''# about the helper {n}
@staticmethod
def hand_{n}(a):
    """helper — {n}"""
    return a  # end''',
           '''@property
def hand_{n}(self):
    return "x{n}"''',
           '''async def hand_{n}(self):
    return 1''',
           '''hand_{n}: int = {n}  # my own field''',
           '''HAND_{n} = "hand{n}"  # constant''',
           '''class Hand{n}:
    """nested {n}"""
    inner = 1  # {n}''']
TOP = ['''def helper_{n}(x: int = {n}):
    # top-level helper {n}
    return x''',
       '''# a section about {n}


@functools_{n}
def helper_{n}():
    return 1''',
       '''class Mine{n}(object):
    """hand-written class {n}"""

    a = 1

    def run(self):
        return self.a  # {n}''',
       '''CONSTANT_{n} = {{
    "a": 1,  # odd {n}
}}''',
       '''import json as json_{n}  # used below {n}''',
       '''from os import (
    path as path_{n},
    sep as sep_{n},
)''',
       '''try:
    import ujson_{n} as fast_{n}
except ImportError:
    fast_{n} = None  # fall back {n}''',
       '''if CHECK_{n} if "CHECK_{n}" in globals() else False:
    print("never {n}")''',
       '''async def arun_{n}(*a, **k):
    return [x async for x in a[0]]''',
       '''# only a comment, {n}
MARK_{n}: str = "größe {n}"''']


def indent(text, by):
    return "\n".join((" " * by + l) if l and not _in_literal(l) else l for l in text.split("\n"))


def _in_literal(l):
    return False


class C13(Check):
    id = "C13"
    runs = {"quick": 200, "thorough": 5000}
    budget_s = {"quick": 120, "thorough": 1500}
    rule = ("one run = one project with the merge processor (server scaffolding or client) taken through a seeded history of schema changes, document changes, hand edits of the generated module, "
            "regenerations and regenerations that crash or meet disk errors; after every step all hand edits so far, the definitions a fresh generation calls for, importability and idempotence are "
            "checked; non-trivial = at least one hand edit survived at least one regeneration that changed the module")
    real = ["turms CLI generation including the merge processor and its file access, black, isort, libcst, strawberry, pydantic", "the kernel's file system (tmpfs) under the seam"]
    stub = ["the user's edits", "crashes and disk errors (libc seam)"]
    assumptions = ["signature, decorators and leading comments of a generated function follow the schema (the repository's own test fixes this); its body is the user's",
                   "hand-written definitions do not reuse generated names", "line ends are not part of the code",
                   "a comment on a generated field that the schema turns into a function goes with the field", "no formatter runs after the merge"]

    def setup(self):
        import preload  # noqa
        import pydantic, strawberry, strawberry.schema_directive  # noqa
        import simproxies  # noqa

    # ---------------------------------------------------------------- plan
    def plan(self, seed, tier, index):
        r = random.Random(seed)
        mode = r.choice(["server", "server", "client"])
        size = r.choice([0.4, 0.6, 0.8])
        files, cfg, s, d = workload.gen_project(r, "p0", size=size, funcs=True, wide=0.0, doc_files=1)
        t = cfg["extensions"]["turms"]
        t.pop("freeze", None)
        t["dump_schema"] = t["dump_configuration"] = False
        chain = []
        if r.random() < 0.4:
            chain.append(FORMAT["disclaimer"])
        if r.random() < 0.15:
            chain.append(FORMAT["black"])
        if r.random() < 0.3:
            chain.append(FORMAT["isort"])
        after = []
        if r.random() < 0.1:
            after = [FORMAT["disclaimer"]]
        t["processors"] = chain + [MERGE] + after
        if mode == "server":
            t["plugins"] = [{"type": "turms.plugins.strawberry.StrawberryPlugin"}]
            t["skip_forwards"] = True
            del cfg["documents"]
        else:
            cfg["documents"] = "docs/**/*.graphql"
        docs = {} if mode == "server" else {"docs/v0.graphql": "\n\n".join([x for _, x in d.frags.values()] + [x for _, x in d.ops.values()]) + "\n"}
        steps, st = [], {"n": 0}
        for i in range(r.randint(3, 6) if tier == "quick" else r.randint(4, 10)):
            if i:
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    st["n"] += 1
                    evolve(r, s, mode, st["n"])
                if mode == "client" and r.random() < 0.6:
                    dg = workload.DocGen(r, s, prefix=f"V{i}").build(n_frags=(0, 1), n_ops=(1, 2))
                    docs[f"docs/v{i}.graphql"] = "\n\n".join([x for _, x in dg.frags.values()] + [x for _, x in dg.ops.values()]) + "\n"
                if mode == "client" and r.random() < 0.4:
                    f = r.choice(sorted(docs))
                    lines = docs[f].split("\n")
                    at = [j for j, l in enumerate(lines) if l.startswith("query ") and l.endswith("{")]
                    if at:
                        j = r.choice(at)
                        lines.insert(j + 1, f"  more{i}: hello")
                        docs[f] = "\n".join(lines)
            step = {"schema": s.sdl(), "docs": dict(docs), "edits": [], "twice": r.random() < 0.4}
            for _ in range(r.choice([0, 1, 2, 2, 3])):
                st["n"] += 1
                step["edits"].append({"kind": r.choice(["body", "body", "body", "member", "member", "top", "top", "top", "header", "footer", "trailing", "field_comment", "class_tail", "decorator", "alias", "delete", "delete", "reorder"]),
                                      "pick": r.random(), "form": r.randrange(100), "n": st["n"]})
            if r.random() < 0.4:
                step["fault"] = {"seed": r.randrange(1 << 40), "kind": r.choice(["crash_before", "crash_after", "crash_partial", "fail", "fail", "fail_module", "fail_module", "sigint", "disk_full", "short", "broken"])}
            steps.append(step)
        return {"mode": mode, "cfg": cfg, "steps": steps, "entry": r.choice(["cli", "cli", "lib"]), "strict": True}

    # ---------------------------------------------------------------- hand edits
    def edit(self, e, code):
        """Apply one hand edit to the text of a module: (new text, record) or None."""
        try:
            tree = ast.parse(code)
        except SyntaxError:
            return None
        lines = code.split("\n")
        n, form, pick = e["n"], e["form"], e["pick"]
        classes = [c for c in tree.body if isinstance(c, ast.ClassDef) and not c.name.startswith(("Mine", "Hand", "GraphQLDefault", "UnsetType"))]
        k = e["kind"]

        def choose(xs):
            return xs[int(pick * len(xs))] if xs else None
        if k == "body":
            fs = [(None, f) for f in tree.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and not f.name.startswith(("helper", "arun"))]
            fs += [(c, f) for c in classes for f in c.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and not f.name.startswith(("hand_", "__"))]
            x = choose(fs)
            if not x or x[1].body[0].lineno == x[1].lineno:
                return None
            c, f = x
            if isinstance(f, ast.AsyncFunctionDef) and form % len(BODIES) in (1, 2, 4):
                form = 0
            body = BODIES[form % len(BODIES)].format(n=n)
            if c is None:
                body = body.replace("(self)", "()")
            body = indent(body, f.body[0].col_offset)
            a, b = f.body[0].lineno - 1, f.end_lineno
            # comments of the old body that precede its first statement go with it
            sig_end = max([f.lineno] + [x.end_lineno for x in ast.walk(f.args) if hasattr(x, "end_lineno")] + ([f.returns.end_lineno] if f.returns else []))
            while not lines[sig_end - 1].rstrip().endswith(":"):
                sig_end += 1
                if sig_end > a:
                    return None
            return "\n".join(lines[:sig_end] + body.split("\n") + lines[b:]), {"kind": "body", "scope": [c.name] if c else [], "name": f.name, "text": body, "n": n}
        if k == "member":
            c = choose(classes)
            if not c:
                return None
            enum = any(ast.unparse(b) in ("Enum", "enum.Enum") for b in c.bases)
            opts = [m for m in MEMBERS if not enum or m.startswith(("def", "@prop", "@static", "HAND", "#"))]
            if not enum and form % 3:
                opts = [m for m in MEMBERS if "HAND" not in m]
            text = indent(opts[form % len(opts)].format(n=n), c.body[0].col_offset)
            places = [c.end_lineno] + [x.lineno - 1 - len(getattr(x, "decorator_list", [])) for x in c.body[1:] if not isinstance(x, ast.Expr) and not getattr(x, "decorator_list", []) and not lines[x.lineno - 2].strip().startswith(("#", "@"))]
            if "hand_{n}: int" in opts[form % len(opts)]:
                places = [c.end_lineno]
            at = places[int(e["pick"] * 7919) % len(places)]
            if c.body[0].lineno == c.lineno:
                return None
            return "\n".join(lines[:at] + text.split("\n") + lines[at:]), {"kind": "member", "scope": [c.name], "text": text, "n": n}
        if k == "top":
            text = TOP[form % len(TOP)].format(n=n)
            if "@functools_" in text:
                text = text.replace(f"@functools_{n}\n", "@staticmethod\n")
            starts = [x for x in tree.body if isinstance(x, (ast.ClassDef, ast.FunctionDef))]
            places = [len(lines) if not code.endswith("\n") else len(lines) - 1]
            for x in starts:
                l = min([x.lineno] + [d.lineno for d in x.decorator_list]) - 1
                if l == 0 or not lines[l - 1].strip().startswith("#"):
                    places.append(l)
            at = places[int(e["pick"] * 7919) % len(places)]
            return "\n".join(lines[:at] + ["", *text.split("\n"), ""] + lines[at:]), {"kind": "top", "scope": None, "text": text, "n": n}
        if k == "header":
            if code.startswith("#!"):
                return None
            doc = ast.get_docstring(tree) is not None
            if form % 5 == 1 and not doc:
                text = f'"""What this module is for {n}: größe\n\nand more\n"""'
                return text + form % 2 * "\n" + "\n" + code, {"kind": "docstring", "scope": None, "text": text, "n": n}
            if form % 5 == 2 and "__future__" not in code:
                text = "from __future__ import annotations"
                at = tree.body[0].end_lineno if doc else 0
                return "\n".join(lines[:at] + [text] + lines[at:]), {"kind": "future", "scope": None, "text": text, "n": n}
            if form % 5 == 3:
                text = f"#!/usr/bin/env python3\n# -*- coding: utf-8 -*-  {n}"
                return text + "\n" + code, {"kind": "shebang", "scope": None, "text": text, "n": n}
            text = f"# maintained by hand, see #{n}"
            return text + "\n" + code, {"kind": "comment", "scope": None, "text": text, "n": n}
        if k == "footer":
            text = f"# the end {n}"
            return code.rstrip("\n") + "\n\n\n" + text + "\n", {"kind": "comment", "scope": None, "text": text, "n": n}
        if k == "trailing":     # a comment behind a statement
            fs = [(c, f) for c in classes for f in c.body if isinstance(f, ast.AnnAssign)]
            x = choose(fs)
            if not x or "#" in lines[x[1].end_lineno - 1]:
                return None
            text = f"  # remark {n}"
            i = x[1].end_lineno - 1
            lines[i] += text
            return "\n".join(lines), {"kind": "comment", "scope": [x[0].name], "field": x[1].target.id, "text": text, "n": n}
        if k == "field_comment":     # a comment line above a field
            fs = [(c, f) for c in classes for f in c.body if isinstance(f, ast.AnnAssign)]
            x = choose(fs)
            if not x or x[1].lineno == x[0].lineno:
                return None
            text = " " * x[1].col_offset + f"# about this field {n}"
            i = x[1].lineno - 1
            return "\n".join(lines[:i] + [text] + lines[i:]), {"kind": "comment", "scope": [x[0].name], "field": x[1].target.id, "text": text, "n": n}
        if k == "class_tail":
            c = choose(classes)
            if not c or c.body[0].lineno == c.lineno:
                return None
            text = " " * c.body[0].col_offset + f"# more to come {n}"
            at = c.end_lineno
            return "\n".join(lines[:at] + [text] + lines[at:]), {"kind": "comment", "scope": None, "text": text, "n": n}
        if k == "decorator":     # a comment above a class
            c = choose(classes)
            if not c:
                return None
            text = f"# about the class {n}"
            i = min([c.lineno] + [x.lineno for x in c.decorator_list]) - 1
            return "\n".join(lines[:i] + [text] + lines[i:]), {"kind": "comment", "scope": None, "text": text, "n": n}
        if k == "alias":
            c = choose(classes)
            if not c:
                return None
            text = f"Alias{n} = {c.name}"
            at = c.end_lineno
            return "\n".join(lines[:at] + ["", "", text] + lines[at:]), {"kind": "top", "scope": None, "text": text, "n": n}
        if k == "delete":        # generated members removed by hand
            c = choose(classes)
            if not c or len(c.body) < 2:
                return None
            at = form % len(c.body)
            drop = c.body[at:at + 1 + form % 3]
            if len(drop) == len(c.body) or drop[0].lineno == c.lineno or any(getattr(d, "decorator_list", None) for d in drop):
                return None
            return "\n".join(lines[:drop[0].lineno - 1] + lines[drop[-1].end_lineno:]), None
        if k == "reorder":       # two neighbouring fields swapped by hand
            c = choose([c for c in classes if len(c.body) > 2])
            if not c:
                return None
            i = form % (len(c.body) - 1)
            a, b = c.body[i], c.body[i + 1]
            if not all(isinstance(x, ast.AnnAssign) for x in (a, b)) or a.end_lineno + 1 != b.lineno:
                return None
            return "\n".join(lines[:a.lineno - 1] + lines[b.lineno - 1:b.end_lineno] + lines[a.lineno - 1:a.end_lineno] + lines[b.end_lineno:]), None
        raise HarnessError(k)

    # ---------------------------------------------------------------- checks on a module
    def find(self, tree, scope):
        cur = tree
        for name in scope:
            cur = next((x for x in cur.body if isinstance(x, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name), None)
            if cur is None:
                return None
        return cur

    def lost(self, code, marks, gone):
        """Hand edits that are no longer there verbatim."""
        tree = ast.parse(code)
        lines = code.split("\n")
        out = []
        for m in marks:
            count = code.count(m["text"])
            if count != 1:
                out.append(f"{m['kind']} edit occurs {count} times: {m['text']!r}")
                continue
            if m["kind"] == "body":
                f = self.find(tree, m["scope"] + [m["name"]])
                if f is None:
                    out.append(f"the function of a hand-written body is gone: {m['scope']} {m['name']}")
                    continue
                seg = "\n".join(lines[f.lineno - 1:f.end_lineno + 1])
                first = m["text"].split("\n")[-1] if False else m["text"]
                pos = code.index(m["text"])
                line = code.count("\n", 0, pos) + 1
                if not (f.lineno <= line <= f.end_lineno + 1):
                    out.append(f"a hand-written body moved out of {m['scope']} {m['name']}")
            elif m["kind"] == "docstring":
                if f" {m['n']}: " not in (ast.get_docstring(tree) or ""):
                    out.append(f"the module's docstring is none any more: {m['text']!r}")
            elif m["kind"] == "shebang":
                if not code.startswith(m["text"]):
                    out.append(f"the module no longer starts with {m['text']!r}")
            elif m["kind"] == "future":
                try:
                    compile(code, "generated", "exec")
                except SyntaxError as e:
                    out.append(f"the import of __future__ is out of place: {e}")
            elif m["scope"]:
                c = self.find(tree, m["scope"])
                line = code.count("\n", 0, code.index(m["text"])) + 1
                if c is None or not (c.lineno <= line <= c.end_lineno + 1):
                    out.append(f"a hand-written {m['kind']} moved out of {m['scope']}")
        return out

    def missing(self, code, fresh):
        """What a fresh generation defines and the module does not."""
        out = []
        self._missing(ast.parse(code).body, ast.parse(fresh).body, "", out)
        return out

    def _missing(self, have, want, where, out):
        def table(body):
            t = {}
            for x in body:
                if isinstance(x, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                    t[x.name] = x
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    t[x.target.id] = x
                elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                    t[x.targets[0].id] = x
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        t[(getattr(x, "module", None), a.name)] = x
            return t
        if not where:
            there = {ast.unparse(x) for x in have if isinstance(x, ast.Expr)}
            for x in want:
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x) not in there:
                    out.append(f"the call {ast.unparse(x)} is missing")
        h = table(have)
        for name, x in table(want).items():
            y = h.get(name)
            label = f"{where}{name}"
            if y is None:
                out.append(f"{type(x).__name__} {label} is missing")
            elif isinstance(x, ast.ClassDef):
                if not isinstance(y, ast.ClassDef):
                    out.append(f"{label} is not a class")
                else:
                    self._missing(y.body, x.body, label + ".", out)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)) and not {ast.unparse(a) for a in x.decorator_list} <= {ast.unparse(a) for a in y.decorator_list}:
                    out.append(f"{label} does not have the decorators {[ast.unparse(a) for a in x.decorator_list]}")
                if not isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)) or ast.unparse(x.args) != ast.unparse(y.args) or ast.unparse(x.returns or ast.Name("_")) != ast.unparse(y.returns or ast.Name("_")):
                    out.append(f"{label} does not have the signature {ast.unparse(x.args)}")
            elif where and isinstance(x, ast.AnnAssign):
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue        # the user's resolver
                if not isinstance(y, ast.AnnAssign) or ast.unparse(x) != ast.unparse(y):
                    out.append(f"{label} is {ast.unparse(y)[:80]!r}, the schema calls for {ast.unparse(x)[:80]!r}")
            elif where and isinstance(x, ast.Assign):
                if ast.unparse(x) != ast.unparse(y):
                    out.append(f"{label} is {ast.unparse(y)[:80]!r}, the schema calls for {ast.unparse(x)[:80]!r}")

    def imports(self, code):
        """None if the module can be imported, else why not."""
        key = hash(code)
        if key not in self.memo:
            if len(self.memo) > 50:
                self.memo.clear()
            self.memo[key] = self.imports_(code)
        return self.memo[key]

    memo = {}

    def imports_(self, code):
        m = types.ModuleType("generated_under_test")
        sys.modules[m.__name__] = m
        out, sys.stdout = sys.stdout, open(os.devnull, "w")
        try:
            exec(compile(code, "generated", "exec"), m.__dict__)
            return None
        except Exception as e:
            return f"{type(e).__name__}: {str(e)[:300]}"
        finally:
            sys.stdout.close()
            sys.stdout = out
            del sys.modules[m.__name__]

    # ---------------------------------------------------------------- run
    def files(self, plan, step, merge=True):
        cfg = json.loads(json.dumps(plan["cfg"]))
        if not merge:
            t = cfg["extensions"]["turms"]
            t["processors"] = [p for p in t["processors"] if p != MERGE]
        return {"schema.graphql": step["schema"], **step["docs"], "graphql.config.yaml": fsp.config_text("graphql.config.yaml", {"projects": {"p0": cfg}})}

    def run(self, plan):
        o = Outcome(plan)
        spec = fsp.entry_spec(plan)
        code = fsp.outputs(plan["cfg"])["code"]
        w = World()
        fw_base = os.path.join(os.environ["SIM_SCRATCH"], "fresh")
        marks, cur, survived = [], None, 0
        self.nth = 1
        o.trace = []
        for i, step in enumerate(plan["steps"]):
            fw = World(fw_base)
            fw.populate(self.files(plan, step, False))
            fp = fw.spawn_run([("fresh", spec)])["fresh"]
            if fp.rc:
                o.probes["this schema cannot be generated"] += 1
                break
            fresh = fw.read(code).decode("utf-8")
            w.trace = []
            w.populate(self.files(plan, step))
            f = step.get("fault")
            if f and cur is not None:
                self.faulty(plan, o, w, spec, code, f, i, cur)
                if o.violations:
                    return o
                now = w.read(code)
                if f["kind"] == "broken" or now.decode("utf-8") == cur:
                    w.write(code, cur)
            p = self.gen(w, spec)
            o.trace += w.trace
            got = w.read(code)
            if p.rc:
                o.bad("regeneration-failed", f"step {i}: the schema generates on its own, but with the merge processor the run failed: {w.output(p)[-900:]}")
                return o
            got = got.decode("utf-8")
            what = f"step {i}, {plan['mode']}, processors {[x['type'].rsplit('.', 1)[1] for x in plan['cfg']['extensions']['turms']['processors']]}"
            try:
                ast.parse(got)
            except SyntaxError as e:
                o.bad("broken-module", f"{what}: the merged module is not valid Python: {e}: {(e.text or '')[:120]!r}")
                return o
            ft = ast.parse(fresh)
            marks = [m for m in marks if not (m.get("field") and isinstance(self.find(ft, m["scope"] + [m["field"]]), (ast.FunctionDef, ast.AsyncFunctionDef)))]
            bad = self.lost(got, marks, None)
            if bad:
                o.bad("hand-edit-lost", f"{what}: {bad[0]} ({len(bad)} of {len(marks)})")
                return o
            bad = self.missing(got, fresh)
            if bad:
                o.bad("not-defined", f"{what}: {bad[:4]} ({len(bad)} in all)")
                return o
            if (cur is None or self.imports(cur) is None) and not any(m["kind"] == "future" for m in marks):
                if self.imports(fresh) is None:
                    why = self.imports(got)
                    if why:
                        o.bad("cannot-import", f"{what}: both inputs can be imported, the merged module cannot: {why}")
                        return o
                    o.probes["import checked"] += 1
                else:
                    o.probes["fresh module cannot be imported"] += 1
            if step["twice"]:
                w.trace = []
                p = self.gen(w, spec)
                again = w.read(code).decode("utf-8")
                if p.rc or again != got:
                    import difflib
                    o.bad("not-idempotent", f"{what}: regenerating without changes changed the module (rc {p.rc}): " + "\n".join(list(difflib.unified_diff(got.split("\n"), again.split("\n"), lineterm="", n=1))[:14]))
                    return o
            if marks and got != cur:
                survived += len(marks)
            o.states.add(f"{plan['mode']}|{i}|{len(marks)}|{got != cur}|{step.get('fault', {}).get('kind')}")
            cur = got
            for e in step["edits"]:
                x = self.edit(e, cur)
                if not x:
                    continue
                new, m = x
                if m and m["kind"] in ("docstring", "future", "shebang") and plan["cfg"]["extensions"]["turms"]["processors"][-1] != MERGE:
                    continue        # what runs after the merge puts its own header first
                try:
                    compile(new, "edit", "exec")
                except SyntaxError:
                    continue
                if self.imports(cur) is None and self.imports(new) is not None:
                    continue
                if m is None:
                    if not self.lost(new, marks, None):
                        cur = new
                        o.probes["edit:" + e["kind"]] += 1
                    continue
                if self.lost(new, marks + [m], None):
                    # the edit replaced an earlier one (a body twice): that one is gone by hand
                    keep = [q for q in marks if not self.lost(new, [q], None)]
                    if self.lost(new, [m], None):
                        continue
                    marks = keep
                marks.append(m)
                cur = new
                o.probes["edit:" + e["kind"]] += 1
            w.write(code, cur)
        o.sim_s = 1.0 * len(plan["steps"])
        o.nontrivial = survived > 0
        return o

    def gen(self, w, spec, **kw):
        self.nth += 1          # two processes do not draw the same random numbers
        return w.spawn_run([("gen", spec)], rng_seed=self.nth, **kw)["gen"]

    def faulty(self, plan, o, w, spec, code, f, i, cur):
        """A regeneration that meets a fault: the module is what it was, or what an undisturbed one makes."""
        if f["kind"] == "broken":
            broken = cur + "\ndef broken(:\n"
            w.write(code, broken)
            p = self.gen(w, spec)
            o.faults["syntax error in the module"] += 1
            if w.read(code) != broken.encode("utf-8"):
                o.bad("hand-edit-lost", f"step {i}: the module has a syntax error and the run (rc {p.rc}) replaced it")
            elif p.rc == 0:
                o.bad("unreported", f"step {i}: the module cannot be parsed but the run reported success")
            return
        before = w.snapshot()
        mask = {"mask": MASK_ALL} if f["kind"] == "fail_module" else {}
        p0 = self.gen(w, spec, **mask)
        good = w.read(code)
        if p0.rc:
            return                      # reported by the undisturbed run that follows
        w.restore(before)
        r = random.Random(f["seed"])
        if "fault" not in f:
            if f["kind"] == "fail_module":
                x = fsp.pick_fault(r, p0.oplog, "gen", ["fail"], only=lambda z: z[1] == code and z[0] in ("openr", "read", "stat"), bias_mutating=0)
                if x and x["op"] == "stat":
                    x["err"] = r.choice(["EACCES", "EIO"])
            else:
                x = fsp.pick_fault(r, p0.oplog, "gen", [f["kind"]])
            if x and x.get("err") == "ENOENT":      # would claim that there is no module yet
                x["err"] = "EACCES"
            f["fault"] = x
        if not f["fault"]:
            return
        w.trace = []
        w.fired = []
        seen = []

        def observe(world, proc, e):
            now = world.read(code)
            if now != before[code] and now != good and not seen:
                seen.append(now)
        p = self.gen(w, spec, faults=[f["fault"]], observe=observe, **mask)
        o.trace += w.trace
        for x in w.fired:
            o.faults[x[0]] += 1
        if w.hang or w.capped:
            o.bad("no-progress", "a regeneration did not end")
            return
        now = w.read(code)
        what = f"step {i}: faults {[(x[0], x[1]) for x in w.fired]}, rc {p.rc}"
        if seen or now not in (before[code], good):
            o.bad("hand-edit-lost", f"{what}: the module is neither what it was nor what an undisturbed regeneration makes")
        elif p.rc == 0 and now != good:
            o.bad("unreported", f"{what}: the run reported success but did not write the module")

    def shrink(self, plan):
        for i in range(len(plan["steps"]) - 1, 0, -1):
            q = json.loads(json.dumps(plan))
            del q["steps"][i]
            yield q
        if len(plan["steps"]) > 1:
            q = json.loads(json.dumps(plan))
            del q["steps"][0]
            yield q
        for i, s in enumerate(plan["steps"]):
            if s.get("fault"):
                q = json.loads(json.dumps(plan))
                del q["steps"][i]["fault"]
                yield q
            if s["twice"]:
                q = json.loads(json.dumps(plan))
                q["steps"][i]["twice"] = False
                yield q
            for j in range(len(s["edits"])):
                q = json.loads(json.dumps(plan))
                del q["steps"][i]["edits"][j]
                yield q
        ps = plan["cfg"]["extensions"]["turms"]["processors"]
        for j, p in enumerate(ps):
            if p != MERGE:
                q = json.loads(json.dumps(plan))
                del q["cfg"]["extensions"]["turms"]["processors"][j]
                yield q
        if plan["cfg"]["extensions"]["turms"].get("stylers"):
            q = json.loads(json.dumps(plan))
            q["cfg"]["extensions"]["turms"]["stylers"] = []
            yield q


CHECK = C13()
