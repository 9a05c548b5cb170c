"""Seeded generator of turms projects: a GraphQL schema, documents for it, and a configuration.

Everything is derived from a random.Random handed in; the generator itself keeps no state.  Schemas
are kept as a small model (not as text) so that they can be printed, split over sources, and evolved
additively.
"""
from __future__ import annotations

import copy
import random

FIELD_NAMES = ["name", "label", "createdAt", "sizeInBytes", "from", "in", "class", "title", "isActive", "score",
               "ownerName", "x1", "x2y", "kindOf", "nextItem", "tagLine", "url", "rank", "note", "depth", "import",
               "lastSeen", "global", "amount", "ratio"]
REF_NAMES = ["owner", "parent", "children", "related", "main", "extra", "firstChild", "links", "peer", "origin"]
TYPE_NAMES = ["Beast", "Capsule", "Ship", "Crew", "Planet", "Node2", "UserAccount", "Data_Set", "Portal", "Widget",
              "Mission", "Rocket"]
IFACE_NAMES = ["Entity", "Named", "Tracked"]
UNION_NAMES = ["SearchResult", "AnyThing", "Member"]
ENUM_NAMES = ["Color", "StatusKind", "Level"]
ENUM_VALUES = ["RED", "GREEN", "BLUE", "ACTIVE", "IN_PROGRESS", "DONE", "LOW", "HIGH", "lower", "camelCase"]
INPUT_NAMES = ["FilterInput", "RangeInput", "CreateInput", "SortBy"]
DESCS = ["A simple thing", "Größe in Bytes – häufig", "says \\\"hi\\\" # not a comment", "日本語の説明", "ends with colon:", "under_score"]
BUILTIN = ["ID", "String", "Int", "Float", "Boolean"]


def named(t):
    while isinstance(t, (list, tuple)):
        t = t[1]
    return t


def show(t):
    """('nn', T) non-null, ('list', T) list, or a name."""
    if isinstance(t, (list, tuple)):
        return show(t[1]) + "!" if t[0] == "nn" else "[" + show(t[1]) + "]"
    return t


def wrap(r: random.Random, base, list_p=0.25, nn_p=0.4):
    t = base
    if r.random() < list_p:
        if r.random() < 0.5:
            t = ("nn", t)
        t = ("list", t)
        if r.random() < 0.15:
            if r.random() < 0.5:
                t = ("nn", t)
            t = ("list", t)
    if r.random() < nn_p:
        t = ("nn", t)
    return t


class Schema:
    """A schema model. Definitions are dicts; order of self.order is the print order."""

    def __init__(self):
        self.defs: dict[str, dict] = {}

    def clone(self):
        return copy.deepcopy(self)

    def names(self, kind):
        return [n for n, d in self.defs.items() if d["kind"] == kind]

    def implementers(self, iface):
        return [n for n, d in self.defs.items() if d["kind"] == "object" and iface in d.get("implements", [])]

    def possible(self, name):
        d = self.defs[name]
        if d["kind"] == "interface":
            return self.implementers(name)
        if d["kind"] == "union":
            return list(d["members"])
        return [name]

    def print_def(self, name):
        d = self.defs[name]
        out = []
        if d.get("desc"):
            out.append(f'"""{d["desc"]}"""' if '"' not in d["desc"] else '"' + d["desc"] + '"')
        k = d["kind"]
        if k == "directive":
            out.append(d["text"])
        elif k == "scalar":
            out.append(f"scalar {name}")
        elif k == "enum":
            out.append(f"enum {name} {{")
            for v in d["values"]:
                out.append(f"  {v}" + (' @deprecated(reason: "old")' if v in d.get("deprecated", []) else ""))
            out.append("}")
        elif k == "union":
            out.append(f"union {name} = " + " | ".join(d["members"]))
        elif k == "input":
            out.append(f"input {name}{d.get('directives', '')} {{")
            for f in d["fields"]:
                if f.get("desc"):
                    out.append(f'  "{f["desc"]}"')
                out.append(f"  {f['name']}: {show(f['type'])}" + (f" = {f['default']}" if f.get("default") is not None else ""))
            out.append("}")
        else:
            imp = (" implements " + " & ".join(d["implements"])) if d.get("implements") else ""
            out.append(("interface " if k == "interface" else "type ") + name + imp + " {")
            for f in d["fields"]:
                if f.get("desc"):
                    out.append(f'  "{f["desc"]}"')
                args = ""
                if f.get("args"):
                    args = "(" + ", ".join(f"{a['name']}: {show(a['type'])}" + (f" = {a['default']}" if a.get("default") is not None else "") for a in f["args"]) + ")"
                out.append(f"  {f['name']}{args}: {show(f['type'])}" + (' @deprecated(reason: "use another")' if f.get("deprecated") else ""))
            out.append("}")
        return "\n".join(out) + "\n"

    def sdl(self, order=None):
        return "\n".join(self.print_def(n) for n in (order or self.defs))

    def field(self, tname, fname):
        return next(f for f in self.defs[tname]["fields"] if f["name"] == fname)


def default_for(r, schema, t):
    n = named(t)
    if isinstance(t, (list, tuple)) and t[0] == "list":
        return None
    if n == "Int":
        return str(r.randint(0, 99))
    if n == "String":
        return '"dflt"'
    if n == "Boolean":
        return r.choice(["true", "false"])
    if n in schema.defs and schema.defs[n]["kind"] == "enum":
        return r.choice(schema.defs[n]["values"])
    return None


def gen_schema(r: random.Random, size=1.0, introspectable=False, subscriptions=True) -> Schema:
    s = Schema()
    desc = lambda: r.choice(DESCS) if r.random() < 0.3 else None
    leafs = list(BUILTIN)
    if r.random() < 0.5:
        s.defs["UUID"] = {"kind": "scalar", "desc": desc()}
        leafs.append("UUID")
    if r.random() < 0.3:
        s.defs["DateTime"] = {"kind": "scalar"}
        leafs.append("DateTime")
    for n in r.sample(ENUM_NAMES, r.randint(1, 2)):
        vals = r.sample(ENUM_VALUES, r.randint(2, 4))
        s.defs[n] = {"kind": "enum", "values": vals, "desc": desc(), "deprecated": [v for v in vals[1:] if r.random() < 0.15]}
        leafs.append(n)
    enums = s.names("enum")

    nobj = max(3, int(r.randint(3, 5) * size))
    objs = r.sample(TYPE_NAMES, min(nobj, len(TYPE_NAMES)))
    ifaces = r.sample(IFACE_NAMES, r.randint(1, 2))

    def leaf_field(name, allow_args=True):
        f = {"name": name, "type": wrap(r, r.choice(leafs)), "desc": desc()}
        if r.random() < 0.12:
            f["deprecated"] = True
        return f

    iface_fields = {}
    used = r.sample(FIELD_NAMES, len(FIELD_NAMES))
    pos = 0
    for i in ifaces:
        fs = [{"name": "id", "type": ("nn", "ID")}]
        for _ in range(r.randint(1, 2)):
            fs.append(leaf_field(used[pos])); pos += 1
        iface_fields[i] = fs
        s.defs[i] = {"kind": "interface", "fields": fs, "desc": desc()}
    for k, o in enumerate(objs):
        imp = [i for j, i in enumerate(ifaces) if (k + j) % 2 == 0 or r.random() < 0.3]
        fs = [{"name": "id", "type": ("nn", "ID")}]
        have = {"id"}
        for i in imp:
            for f in iface_fields[i]:
                if f["name"] not in have:
                    fs.append(copy.deepcopy(f)); have.add(f["name"])
        for n in r.sample(FIELD_NAMES, r.randint(1, 3)):
            if n not in have and all(n not in [f["name"] for f in v] for v in iface_fields.values()):
                fs.append(leaf_field(n)); have.add(n)
        s.defs[o] = {"kind": "object", "implements": imp, "fields": fs, "desc": desc()}
    for u in r.sample(UNION_NAMES, r.randint(0, 2)):
        s.defs[u] = {"kind": "union", "members": r.sample(objs, min(len(objs), r.randint(2, 3))), "desc": desc()}
    unions = s.names("union")

    # references between object types
    for o in objs:
        have = {f["name"] for f in s.defs[o]["fields"]}
        for n in r.sample(REF_NAMES, r.randint(1, 2)):
            if n in have:
                continue
            tgt = r.choice(objs + objs + ifaces + unions)
            s.defs[o]["fields"].append({"name": n, "type": wrap(r, tgt, 0.4, 0.2), "desc": desc()})

    # inputs
    inputs = r.sample(INPUT_NAMES, r.randint(1, 3))
    for k, i in enumerate(inputs):
        fs = []
        for n in r.sample(FIELD_NAMES, r.randint(2, 4)):
            t = wrap(r, r.choice([x for x in leafs]), 0.2, 0.35)
            f = {"name": n, "type": t, "desc": desc()}
            if r.random() < 0.25 and not (isinstance(t, (list, tuple)) and t[0] == "nn"):
                f["default"] = default_for(r, s, t)
            fs.append(f)
        if r.random() < 0.4:
            fs.append({"name": "nested", "type": wrap(r, r.choice(inputs), 0.5, 0.0)})
        s.defs[i] = {"kind": "input", "fields": fs, "desc": desc()}

    def args(n_max=3):
        out = []
        for n in r.sample(["first", "id", "filter", "orderBy", "flag", "from", "kind", "ids", "term"], r.randint(0, n_max)):
            if n in ("filter", "orderBy"):
                b = r.choice(inputs)
            elif n in ("kind",):
                b = r.choice(enums)
            elif n in ("id", "ids"):
                b = "ID"
            else:
                b = r.choice(["Int", "String", "Boolean", "Float"])
            t = wrap(r, b, 0.8 if n == "ids" else 0.1, 0.35)
            a = {"name": n, "type": t}
            if r.random() < 0.3 and not (isinstance(t, (list, tuple)) and t[0] == "nn"):
                a["default"] = default_for(r, s, t)
            out.append(a)
        return out

    q = [{"name": "hello", "type": ("nn", "String"), "args": []}, {"name": "countAll", "type": "Int", "args": args(1)}]
    for n in objs + ifaces + unions:
        q.append({"name": n[0].lower() + n[1:], "type": wrap(r, n, 0.4, 0.3), "args": args(), "desc": desc()})
    s.defs["Query"] = {"kind": "object", "fields": q, "implements": []}
    m = []
    for n in r.sample(objs, 2):
        m.append({"name": "create" + n, "type": wrap(r, n, 0.0, 0.6), "args": args(), "desc": desc()})
    m.append({"name": "resetAll", "type": "Boolean", "args": args(2)})
    s.defs["Mutation"] = {"kind": "object", "fields": m, "implements": []}
    if subscriptions:
        sub = [{"name": "ticks", "type": ("nn", "Int"), "args": [{"name": "first", "type": "Int"}]}]
        for n in r.sample(objs + ifaces, 2):
            sub.append({"name": n[0].lower() + n[1:] + "Changed", "type": wrap(r, n, 0.1, 0.4), "args": args(2)})
        s.defs["Subscription"] = {"kind": "object", "fields": sub, "implements": []}
    return s


# ---------------------------------------------------------------- documents
class DocGen:
    def __init__(self, r: random.Random, s: Schema, prefix="", rich=True):
        self.r, self.s, self.prefix, self.rich = r, s, prefix, rich
        self.frags: dict[str, tuple[str, str]] = {}  # name -> (type, text)
        self.ops: dict[str, tuple[str, str]] = {}    # name -> (kind, text)
        self.n = 0

    def kind(self, t):
        n = named(t)
        return self.s.defs[n]["kind"] if n in self.s.defs else "scalar"

    def leaf_fields(self, tname):
        return [f for f in self.s.defs[tname]["fields"] if self.kind(f["type"]) in ("scalar", "enum")]

    def ref_fields(self, tname):
        return [f for f in self.s.defs[tname]["fields"] if self.kind(f["type"]) not in ("scalar", "enum")]

    def sel_object(self, tname, depth, used=None):
        """Lines of a selection on an object/interface type without braces."""
        r = self.r
        used = set() if used is None else used
        out = []
        fs = [f for f in self.leaf_fields(tname) if f["name"] not in used]
        for f in r.sample(fs, r.randint(1, len(fs))) if fs else []:
            if r.random() < 0.12 and self.rich:
                out.append(f"al{f['name'].capitalize()}: {f['name']}")
            else:
                out.append(f["name"])
                used.add(f["name"])
        if depth > 0:
            for f in self.ref_fields(tname):
                if f["name"] in used or any(True for a in f.get("args", []) if True):
                    continue
                if r.random() < 0.4:
                    used.add(f["name"])
                    out.append(f["name"] + " " + self.selection(f["type"], depth - 1))
        return out

    def selection(self, t, depth, frag_ok=True):
        """Selection set text with braces for a composite type."""
        r, n = self.r, named(t)
        k = self.kind(t)
        if k == "object":
            cands = [fn for fn, (ft, _) in self.frags.items() if ft == n]
            if frag_ok and cands and r.random() < 0.5:
                fn = r.choice(cands)
                if r.random() < 0.6:
                    return "{ ..." + fn + " }"
                used = self.frag_used.get(fn, set())
                extra = self.sel_object(n, 0, set(used))
                return "{ ..." + fn + " " + " ".join(extra) + " }"
            lines = self.sel_object(n, depth)
            return "{ " + " ".join(lines or ["id"]) + " }"
        if k == "interface":
            cands = [fn for fn, (ft, _) in self.frags.items() if ft == n]
            if frag_ok and cands and r.random() < 0.4:
                return "{ ..." + r.choice(cands) + " }"
            used = set()
            common = self.sel_object(n, 0, used) or ["id"]
            parts = list(common)
            for p in self.s.possible(n):
                if r.random() < 0.6:
                    u2 = set(used)
                    others = [{f["name"] for f in self.leaf_fields(x)} for x in self.s.possible(n) if x != p]
                    fs = [f["name"] for f in self.leaf_fields(p) if f["name"] not in u2 and all(f["name"] not in o for o in others)]
                    if fs:
                        parts.append(f"... on {p} {{ " + " ".join(r.sample(fs, r.randint(1, len(fs)))) + " }")
            return "{ " + " ".join(parts) + " }"
        if k == "union":
            parts = []
            for p in self.s.possible(n):
                fs = [f["name"] for f in self.leaf_fields(p)]
                # leaf fields of the same name with different types must not be mixed: use id plus
                # names that do not occur in other members
                others = [set(f["name"] for f in self.leaf_fields(x)) for x in self.s.possible(n) if x != p]
                uniq = [x for x in fs if all(x not in o for o in others)]
                parts.append(f"... on {p} {{ " + " ".join(["id"] + r.sample(uniq, r.randint(0, len(uniq)))) + " }")
            return "{ " + " ".join(parts) + " }"
        raise AssertionError(k)

    frag_used: dict[str, set]
    keep_unused = False

    def build(self, n_frags=(1, 3), n_ops=(2, 5)):
        r, s = self.r, self.s
        self.frag_used = {}
        objs = [n for n in s.names("object") if n not in ("Query", "Mutation", "Subscription")]
        for _ in range(r.randint(*n_frags)):
            t = r.choice(objs)
            name = f"{self.prefix}{t.replace('_', '')}{r.choice(['Basic', 'Full', 'List', 'Detail'])}"
            if name in self.frags:
                continue
            used = set()
            lines = self.sel_object(t, 1, used)
            self.frag_used[name] = used
            self.frags[name] = (t, f"fragment {name} on {t} {{ " + " ".join(lines or ["id"]) + " }")
        if self.rich and r.random() < 0.5:
            i = r.choice(s.names("interface"))
            name = f"{self.prefix}{i}Frag"
            txt = self.selection(i, 0, frag_ok=False)
            self.frags[name] = (i, f"fragment {name} on {i} {txt}")
        roots = [("query", "Query"), ("query", "Query"), ("mutation", "Mutation")]
        if "Subscription" in s.defs:
            roots.append(("subscription", "Subscription"))
        for _ in range(r.randint(*n_ops)):
            kind, root = r.choice(roots)
            self.operation(kind, root)
        if not self.keep_unused:
            self.prune()
        return self

    def prune(self):
        """Drop fragments no operation uses (they do not validate)."""
        import re
        pat = re.compile(r"\.\.\.([A-Za-z_0-9]+)")
        live, todo = set(), [t for _, t in self.ops.values()]
        while todo:
            for m in pat.findall(todo.pop()):
                if m in self.frags and m not in live:
                    live.add(m)
                    todo.append(self.frags[m][1])
        self.frags = {k: v for k, v in self.frags.items() if k in live}

    def operation(self, kind, root):
        r = self.r
        fs = self.s.defs[root]["fields"]
        k = 1 if kind == "subscription" or r.random() < 0.65 else min(2, len(fs))
        chosen = r.sample(fs, k)
        base = chosen[0]["name"]
        name = f"{self.prefix}{base[0].upper()}{base[1:]}{r.choice(['', 'Op', 'By', 'All'])}"
        if name in self.ops or name in self.frags or name in self.s.defs:
            self.n += 1
            name += f"N{self.n}"
        vars_, parts = [], []
        for j, f in enumerate(chosen):
            a_txt = []
            for a in f.get("args", []):
                required = isinstance(a["type"], (list, tuple)) and a["type"][0] == "nn"
                if required or r.random() < 0.8:
                    vn = a["name"] if j == 0 else a["name"] + str(j)
                    vt = a["type"]
                    if not required and r.random() < 0.15 and a.get("default") is None:
                        vt = ("nn", vt)  # stricter variable than the argument
                    vars_.append(f"${vn}: {show(vt)}")
                    a_txt.append(f"{a['name']}: ${vn}")
            txt = f["name"]
            if r.random() < 0.15 and self.rich:
                txt = f"res{j}: {f['name']}"
            if a_txt:
                txt += "(" + ", ".join(a_txt) + ")"
            if self.kind(f["type"]) not in ("scalar", "enum"):
                txt += " " + self.selection(f["type"], r.randint(0, 2))
            parts.append(txt)
        head = f"{kind} {name}" + ("(" + ", ".join(vars_) + ")" if vars_ else "")
        self.ops[name] = (kind, head + " {\n  " + "\n  ".join(parts) + "\n}")


PLUGINS = ["turms.plugins.enums.EnumsPlugin", "turms.plugins.inputs.InputsPlugin", "turms.plugins.fragments.FragmentsPlugin",
           "turms.plugins.operations.OperationsPlugin"]
STYLERS = ["turms.stylers.capitalize.CapitalizeStyler", "turms.stylers.snake_case.SnakeCaseStyler"]


def funcs_plugin(proxy="simproxies"):
    d = []
    for is_async, pre in ((True, "a"), (False, "")):
        for t, f in (("query", "execute"), ("mutation", "execute"), ("subscription", "subscribe")):
            d.append({"type": t, "is_async": is_async, "use": f"{proxy}.{pre}{f}"})
    return {"type": "turms.plugins.funcs.FuncsPlugin", "definitions": d}


def wide_config(r, turms, s, proxy):
    """Other generators than the plain document pipeline."""
    k = r.random()
    if k < 0.2:
        turms["plugins"] = [{"type": PLUGINS[0], "skip_unreferenced": False}, {"type": "turms.plugins.inputs.InputsPlugin", "skip_unreferenced": False},
                            {"type": "turms.plugins.objects.ObjectsPlugin"}]
    elif k < 0.35:
        turms["plugins"] = [{"type": "turms.plugins.strawberry.StrawberryPlugin"}]
        turms["skip_forwards"] = True
    else:
        if r.random() < 0.5:
            turms["plugins"].append({"type": "turms.plugins.input_funcs.InputFuncsPlugin"})
        for p in turms["plugins"]:
            if p["type"].endswith("FuncsPlugin") and "definitions" in p:
                if r.random() < 0.5:
                    p["global_kwargs"] = [{"type": "simproxies.Client", "key": "client", "description": "the client"}]
                if r.random() < 0.4:
                    p["expand_input_types"] = s.names("input")[:1]
                if r.random() < 0.3:
                    p["coercible_scalars"] = {"ID": "simproxies.Idish"}
            if p["type"] == "turms.plugins.operations.OperationsPlugin" and r.random() < 0.3:
                p["query_bases"] = ["simproxies.BaseA", "simproxies.BaseB"]
    if r.random() < 0.3:
        turms["parsers"] = [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": r.choice(["3.7", "3.9"])}]
    if r.random() < 0.35:
        turms["processors"] = r.sample([{"type": "turms.processors.black.BlackProcessor"}, {"type": "turms.processors.isort.IsortProcessor"},
                                        {"type": "turms.processors.disclaimer.DisclaimerProcessor"}], r.randint(1, 2))
    if r.random() < 0.25:
        turms["additional_bases"] = {n: ["simproxies.BaseA"] for n in r.sample(s.names("object"), 1)}
    if r.random() < 0.25:
        turms["options"] = {"enabled": True, "extra": "forbid", "types": ["input", "fragment", "object"], "allow_population_by_field_name": True}
    if r.random() < 0.2:
        turms["exclude_typenames"] = True
    if r.random() < 0.15:
        turms["pydantic_version"] = "v1"
    return turms


def gen_project(r: random.Random, name="default", docs_dir="docs", schema_path="schema.graphql", out_dir="api", proxy="simproxies",
                size=1.0, rich=True, schema=None, doc_files=None, funcs=None, wide=0.0):
    """Returns (files, project_config, schema_model, docgen)."""
    s = schema or gen_schema(r, size)
    d = DocGen(r, s, rich=rich).build()
    files = {schema_path: s.sdl()}
    chunks = [t for _, t in d.frags.values()] + [t for _, t in d.ops.values()]
    nf = min(len(chunks), doc_files or r.randint(1, 3))
    buckets = [[] for _ in range(nf)]
    for i, c in enumerate(chunks):
        buckets[i % nf].append(c)
    sub = r.random() < 0.4
    alike = r.choice([None, None, ["ops", "sub/ops", "sub2/ops"], ["z/ops", "ops", "a/ops"], ["ops", "Ops", "OPS"], ["a.b", "a", "a-b"]])
    for i, b in enumerate(buckets):
        p = f"{docs_dir}/{'sub/' if sub and i else ''}{r.choice('abcxyz')}{i}.graphql"
        if alike and nf <= len(alike):
            p = f"{docs_dir}/{alike[i]}.graphql"
        files[p] = "\n\n".join(b) + "\n"
    turms = {
        "out_dir": out_dir,
        "generated_name": r.choice(["schema.py", "api.py"]),
        "dump_schema": r.random() < 0.5,
        "dump_configuration": r.random() < 0.4,
        "schema_name": "schema.out.graphql",
        "stylers": [{"type": t} for t in STYLERS] if r.random() < 0.8 else [],
        "plugins": [{"type": t} for t in PLUGINS],
        "scalar_definitions": {"UUID": "str"},
    }
    if funcs if funcs is not None else r.random() < 0.6:
        turms["plugins"].append(funcs_plugin(proxy))
    if r.random() < 0.2:
        turms["freeze"] = {"enabled": True}
    if r.random() < 0.15:
        turms["processors"] = [{"type": "turms.processors.disclaimer.DisclaimerProcessor"}]
    if r.random() < 0.1:
        turms["skip_forwards"] = False
    if wide and r.random() < wide:
        wide_config(r, turms, s, proxy)
    cfg = {"schema": schema_path, "documents": f"{docs_dir}/**/*.graphql", "extensions": {"turms": turms}}
    return files, cfg, s, d
