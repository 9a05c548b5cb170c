"""Seeded generator of client projects: schema, documents and options for generated client modules (C17-C20)."""
from __future__ import annotations

import copy
import random

from workload import (ENUM_VALUES, FIELD_NAMES, PLUGINS, DocGen, Schema, default_for, gen_schema, named, show, wrap)

NN = lambda t: isinstance(t, (list, tuple)) and t[0] == "nn"


ONEOF = "directive @oneOf on INPUT_OBJECT"
UNION_OF = "directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT"


def add_input_unions(r: random.Random, s: Schema):
    """@oneOf inputs (of member models, of anything, recursive) and unions of inputs by @unionElementOf."""
    leafs = ["ID", "String", "Int", "Boolean", "Float"] + s.names("enum")
    plain = s.names("input")
    if r.random() < 0.6:
        s.defs["@oneOf"] = {"kind": "directive", "text": ONEOF}
        n = r.choice(["FindBy", "PetInput", "Target_ref", "matchInput"])
        how = r.choice(["direct", "direct", "wrapped", "recursive", "mixed"])
        fs = []
        if how == "direct":
            members = []
            for k, m in enumerate(r.sample(["CatInput", "DogInput", "BirdInput"], r.randint(2, 3))):
                if r.random() < 0.3:
                    members.append(m)
                    s.defs[m] = {"kind": "input", "fields": [{"name": x, "type": wrap(r, r.choice(leafs), 0.2, 0.4)} for x in r.sample(FIELD_NAMES, r.randint(1, 3))]}
                else:  # the same fields in every member
                    members.append(m)
                    s.defs[m] = {"kind": "input", "fields": [{"name": "name", "type": "String"}, {"name": "inLife", "type": ("nn", "Int")}]}
                if r.random() < 0.3:
                    s.defs[m]["fields"].append({"name": "other", "type": wrap(r, n, 0.3, 0.0)})
            if r.random() < 0.3:
                members.append(r.choice(plain))
            fs = [{"name": r.choice([m[0].lower() + m[1:], "from" + m, m.lower()]), "type": m} for m in members]
        else:
            for x in r.sample(["email", "userId", "in", "byName", "ids", "kindOf"], r.randint(2, 4)):
                fs.append({"name": x, "type": ("list", ("nn", "ID")) if x == "ids" else r.choice(leafs + plain if how == "mixed" else leafs)})
            if how == "recursive":
                fs.append({"name": "not", "type": n})
                fs.append({"name": "anyOf", "type": ("list", ("nn", n))})
        s.defs[n] = {"kind": "input", "directives": " @oneOf", "fields": fs}
        if r.random() < 0.5:
            s.defs[r.choice(plain)]["fields"].append({"name": "choice", "type": wrap(r, n, 0.3, 0.0)})
    if r.random() < 0.5:
        s.defs["@unionElementOf"] = {"kind": "directive", "text": UNION_OF}
        disc = r.choice(["kind", "kind", "type", "__kind", "typeOf"])
        if disc == "__kind":
            disc = "kind"
        ms = r.sample(["CircleInput", "SquareInput", "LineInput"], r.randint(2, 3))
        unions = ["ShapeInput"] + (["ElementInput"] if r.random() < 0.3 else [])
        declared = r.random() < 0.5
        dt = "String"
        if r.random() < 0.4:
            s.defs["ShapeKind"] = {"kind": "enum", "values": [m[:-5].upper() for m in ms]}
            dt = "ShapeKind"
        allf = {}
        for m in ms:
            key = m[:-5].upper() if dt == "ShapeKind" else r.choice([m[:-5].lower(), m, m[:-5].upper()])
            fs = []
            if declared:
                fs.append({"name": disc, "type": ("nn", dt), "default": key if dt == "ShapeKind" else '"' + key + '"'})
            for x in r.sample(["radius", "borderColor", "from", "sides", "inFront"], r.randint(1, 3)):
                t = allf.get(x) or r.choice(leafs + plain)
                if x not in allf:
                    t = wrap(r, t, 0.2, 0.0)
                allf[x] = t
                fs.append({"name": x, "type": ("nn", t) if r.random() < 0.4 else t})
            us = [u for u in unions if u == "ShapeInput" or r.random() < 0.6]
            s.defs[m] = {"kind": "input", "fields": fs, "directives": "".join(f' @unionElementOf(union: "{u}", discriminator: "{disc}", key: "{key}")' for u in us)}
        for u in unions:
            if not any(f'"{u}"' in s.defs[m]["directives"] for m in ms):
                continue
            s.defs[u] = {"kind": "input", "placeholder": True, "fields": [{"name": disc, "type": ("nn", dt)}] + [{"name": x, "type": t} for x, t in allf.items()]}
            if r.random() < 0.3:
                s.defs[r.choice(plain)]["fields"].append({"name": "drawn" + u, "type": wrap(r, u, 0.4, 0.0)})
    return [x for x in s.names("input") if "@unionElementOf" not in s.defs[x].get("directives", "")]


def client_schema(r: random.Random, size=1.0) -> Schema:
    s = gen_schema(r, size)
    objs = [n for n in s.names("object") if n not in ("Query", "Mutation", "Subscription")]
    inputs, enums, ifaces = s.names("input"), s.names("enum"), s.names("interface")
    # arguments below the root
    for o in objs:
        for f in s.defs[o]["fields"]:
            if f["name"] != "id" and not any(f["name"] in [g["name"] for g in s.defs[i]["fields"]] for i in ifaces) and r.random() < 0.2:
                n = r.choice(["first", "unit", "where", "asOf"])
                t = wrap(r, {"where": r.choice(inputs), "unit": r.choice(enums)}.get(n, r.choice(["Int", "String"])), 0.1, 0.25)
                f["args"] = [{"name": n, "type": t}]
                if r.random() < 0.4:
                    f["args"][0]["default"] = default_for(r, s, t[1] if NN(t) else t)
    # an interface that implements another one
    if len(ifaces) > 1 and r.random() < 0.4:
        child, parent = r.sample(ifaces, 2)
        ts = [child] + s.implementers(child)
        pf = s.defs[parent]["fields"]
        if all(show(g["type"]) == show(f["type"]) and not f.get("args") and not g.get("args") for t in ts for f in pf for g in s.defs[t]["fields"] if f["name"] == g["name"]):
            for t in ts:
                have = {g["name"] for g in s.defs[t]["fields"]}
                s.defs[t]["fields"] += [copy.deepcopy(f) for f in pf if f["name"] not in have]
                s.defs[t]["implements"] = s.defs[t].get("implements", []) + ([parent] if parent not in s.defs[t].get("implements", []) else [])
    # interfaces with a reference of their own, implemented by all their types
    for i in ifaces:
        if r.random() < 0.4:
            f = {"name": "linked" + i, "type": wrap(r, r.choice(objs), 0.3, 0.3)}
            s.defs[i]["fields"].append(f)
            for o in s.implementers(i) + [x for x in ifaces if i in s.defs[x].get("implements", [])]:
                s.defs[o]["fields"].append(copy.deepcopy(f))
    # required arguments and fields with a default
    for n in ("Query", "Mutation"):
        for f in s.defs[n]["fields"]:
            for a in f.get("args", []):
                if NN(a["type"]) and a.get("default") is None and r.random() < 0.25:
                    a["default"] = default_for(r, s, a["type"][1])
    for i in inputs:
        for f in s.defs[i]["fields"]:
            if NN(f["type"]) and r.random() < 0.3:
                f["default"] = default_for(r, s, f["type"][1])
    if r.random() < 0.35:
        inputs = add_input_unions(r, s)
    if r.random() < 0.35:
        odd_names(r, s, objs, inputs, enums)
    # plain roots for every argument type, so that each of them is exercised
    q = s.defs["Query"]["fields"]
    for i in inputs:
        q.append({"name": "search" + i, "type": wrap(r, r.choice(objs), 0.5, 0.3),
                  "args": [{"name": r.choice(["input", "filterBy", "in"]), "type": wrap(r, i, 0.25, 0.5)}]})
    sub = s.defs["Subscription"]["fields"]
    sub.append({"name": "flags", "type": r.choice(["Boolean", ("nn", "Boolean"), ("list", "Int"), "String"]), "args": [{"name": "on", "type": "Boolean"}]})
    u = s.names("union")
    if u:
        sub.append({"name": "anything", "type": wrap(r, r.choice(u), 0.2, 0.3), "args": []})
    return s


def odd_names(r, s, objs, inputs, enums):
    """Names that GraphQL allows and Python, Enum or pydantic give a meaning of their own."""
    for o in objs:
        if r.random() < 0.6:
            have = {f["name"] for f in s.defs[o]["fields"]}
            for n in r.sample(["_id", "_", "modelConfig", "model_fields", "__v", "modelDump", "_rev"], r.randint(1, 3)):
                if n not in have and not n.startswith("__"):
                    s.defs[o]["fields"].append({"name": n, "type": wrap(r, r.choice(["ID", "String", "Int"] + enums), 0.2, 0.4)})
    for i in inputs:
        if r.random() < 0.5 and not s.defs[i].get("directives"):
            have = {f["name"] for f in s.defs[i]["fields"]}
            for n in r.sample(["_eq", "_and", "modelConfig", "model_fields", "_not", "variables", "data", "event"], r.randint(1, 3)):
                if n not in have:
                    s.defs[i]["fields"].append({"name": n, "type": ("list", i) if n == "_and" else i if n == "_not" else r.choice(["ID", "String", "Int"] + enums)})
    for e in enums:
        if r.random() < 0.6:
            s.defs[e]["values"] += [v for v in r.sample(["in", "not", "None", "mro", "_all_", "name", "is", "value"], r.randint(1, 4)) if v not in s.defs[e]["values"]]
    for f in s.defs["Query"]["fields"]:
        if r.random() < 0.2 and not any(a["name"] == "_where" for a in f.get("args", [])):
            f.setdefault("args", []).append({"name": r.choice(["_where", "_where", "variables", "data", "event"]), "type": wrap(r, r.choice(["Int", "String"] + inputs), 0.2, 0.3)})
    s.defs["Query"]["fields"].append({"name": "_count", "type": r.choice(["Int", ("nn", "Int")]), "args": []})


class ClientDocs(DocGen):
    """Operations with richer shapes. `feats` says which optional shapes may occur."""

    def __init__(self, r, s, feats=(), **k):
        super().__init__(r, s, **k)
        self.feats = set(feats)
        self.used_feats = set()
        self.frag_used = {}
        self.vars = None

    def on(self, f, p):
        if f in self.feats and self.r.random() < p:
            self.used_feats.add(f)
            return True
        return False

    def fargs(self, f):
        """Arguments text of a field below the root; None if the field cannot be selected."""
        r, out = self.r, []
        for a in f.get("args", []):
            req = NN(a["type"]) and a.get("default") is None
            if not req and r.random() < 0.5:
                continue
            if self.vars is None:  # inside a fragment: literals only
                lit = self.literal(a["type"])
                if lit is None:
                    if req:
                        return None
                    continue
                out.append(f"{a['name']}: {lit}")
                continue
            out.append(f"{a['name']}: ${self.variable(a)}")
        return "(" + ", ".join(out) + ")" if out else ""

    def literal(self, t):
        n = named(t)
        if n in ("Int",):
            v = str(self.r.choice([0, 7, -1]))
        elif n == "String":
            v = self.r.choice(['""', '"a b"', '"{x}"', '"...Frag"', '"# no"'])
        elif n in self.s.defs and self.s.defs[n]["kind"] == "enum":
            v = self.r.choice(self.s.defs[n]["values"])
        else:
            return None
        tt = t
        while isinstance(tt, (list, tuple)):
            if tt[0] == "list":
                v = "[" + v + "]"
            tt = tt[1]
        return v

    def condition(self):
        r = self.r
        if not self.on("conditional", 0.06):
            return ""
        d = r.choice(["include", "skip"])
        if self.vars is None or r.random() < 0.2:
            return f" @{d}(if: {r.choice(['true', 'false'])})"
        n = r.choice(["withMore", "brief"])
        self.vars[n] = (("nn", "Boolean"), "")
        return f" @{d}(if: ${n})"

    def variable(self, a):
        r = self.r
        base = a["name"]
        name, k = base, 1
        while name in self.vars:
            name = f"{base}{k}"
            k += 1
        vt, dflt = a["type"], ""
        req = NN(vt) and a.get("default") is None
        if not NN(vt) and a.get("default") is None and r.random() < 0.15:
            vt = ("nn", vt)
        elif not req and self.on("var_default", 0.3):
            d = default_for(r, self.s, vt[1] if NN(vt) else vt)
            if d is not None:
                dflt = " = " + d
        self.vars[name] = (vt, dflt)
        return name

    def lines(self, tname, depth, used, n_min=1, only=None):
        r, out = self.r, []
        fs = [f for f in self.leaf_fields(tname) if f["name"] not in used and (only is None or f["name"] in only)]
        for f in r.sample(fs, r.randint(min(n_min, len(fs)), len(fs))):
            a = self.fargs(f)
            if a is None:
                continue
            if a or (self.rich and r.random() < 0.15):
                al = "odd" + f["name"] if f["name"][0] == "_" else r.choice([f"al{f['name'].capitalize()}", f"{f['name']}_2", "my" + f["name"][0].upper() + f["name"][1:]])
                if al in used:
                    continue
                used.add(al)
                out.append(f"{al}: {f['name']}{a}{self.condition()}")
                if self.on("twice", 0.3) and f["name"] not in used and not a:
                    used.add(f["name"])
                    out.append(f["name"])
            else:
                out.append(f["name"] + self.condition())
                used.add(f["name"])
        if depth > 0:
            for f in self.ref_fields(tname):
                if f["name"] in used or (only is not None and f["name"] not in only) or r.random() < 0.5:
                    continue
                a = self.fargs(f)
                if a is None:
                    continue
                used.add(f["name"])
                al = ""
                if self.rich and r.random() < 0.2 and "alt" + f["name"].capitalize() not in used:
                    al = "alt" + f["name"].capitalize()
                    used.discard(f["name"])
                    used.add(al)
                    al += ": "
                out.append(f"{al}{f['name']}{a}{self.condition()} {self.selection(f['type'], depth - 1)}")
        return out

    def sel_object(self, tname, depth, used=None):
        return self.lines(tname, depth, set() if used is None else used)

    def frags_on(self, n):
        return [fn for fn, (ft, _) in self.frags.items() if ft == n]

    def selection(self, t, depth, frag_ok=True):
        r, n = self.r, named(t)
        k = self.kind(t)
        typ = ["__typename"] if r.random() < 0.1 else []
        if k != "union" and self.on("typename_alias", 0.05):
            typ = ["kindOf: __typename"]
        if self.on("lonely_typename", 0.04):
            return "{ __typename }"
        if k == "object":
            c = self.frags_on(n)
            if frag_ok and len(c) > 1 and self.on("two_frags", 0.35):
                a, b = r.sample(c, 2)
                extra = self.lines(n, 0, {"id"} | set(self.frag_used.get(a, ())) | set(self.frag_used.get(b, ())), 0) if r.random() < 0.4 else []
                return "{ ..." + a + " ..." + b + " " + " ".join(extra) + " }"
            if frag_ok and c and r.random() < 0.45:
                fn = r.choice(c)
                if r.random() < 0.55:
                    return "{ ..." + fn + " }"
                used = set(self.frag_used.get(fn, ()))
                return "{ ..." + fn + " " + " ".join(self.lines(n, depth if r.random() < 0.5 else 0, used, 0) + typ) + " }"
            ic = [fn for i in self.s.defs[n].get("implements", []) for fn in self.frags_on(i)]
            if frag_ok and ic and self.on("iface_frag_on_object", 0.3):
                fn = r.choice(ic)
                extra = [] if r.random() < 0.5 else self.lines(n, 0, set(self.frag_used.get(fn, ())), 0)
                return "{ ..." + fn + " " + " ".join(extra) + " }"
            return "{ " + " ".join(self.lines(n, depth, set()) + typ or ["id"]) + " }"
        if k == "interface":
            used, parts = set(), []
            c = self.frags_on(n)
            up = [fn for i in self.s.defs[n].get("implements", []) for fn in self.frags_on(i)]
            if up and self.on("parent_iface_frag", 0.5):
                c = up
            if frag_ok and c and r.random() < 0.4:
                fn = r.choice(c)
                if r.random() < 0.5:
                    return "{ ..." + fn + " }"
                used |= set(self.frag_used.get(fn, ()))
                parts.append("..." + fn)
                self.used_feats.add("iface_frag_plus")
            parts += self.lines(n, depth if self.on("iface_nested", 0.5) else 0, used, 0 if parts else 1) or ([] if parts else ["id"])
            for p in self.s.possible(n):
                oc = self.frags_on(p)
                if frag_ok and oc and self.on("object_frag_on_iface", 0.2):
                    parts.append("..." + r.choice(oc))
                    continue
                if r.random() < 0.55:
                    own = {f["name"] for f in self.s.defs[p]["fields"]} - used - {f["name"] for f in self.s.defs[n]["fields"]}
                    if not self.on("inline_same_names", 0.3):
                        for o in self.s.possible(n):
                            if o != p:
                                own -= {f["name"] for f in self.s.defs[o]["fields"]}
                    ls = self.lines(p, 1 if self.on("inline_nested", 0.4) else 0, set(used), 1, only=own)
                    if frag_ok and oc and self.on("spread_in_inline", 0.3):
                        ls.append("..." + r.choice(oc))
                    if len(ls) > 1 and self.on("inline_twice", 0.3):
                        cut = r.randint(1, len(ls) - 1)
                        parts.append(f"... on {p} {{ " + " ".join(ls[:cut]) + " }")
                        ls = ls[cut:]
                    if ls:
                        parts.append(f"... on {p} {{ " + " ".join(ls) + " }")
            r.shuffle(parts)
            return "{ " + " ".join(parts + typ) + " }"
        if k == "union":
            parts = []
            poss = self.s.possible(n)
            uc = self.frags_on(n)
            if frag_ok and uc and self.on("union_frag", 0.3):
                return "{ ..." + r.choice(uc) + " }"
            drop = set()
            if len(poss) > 1 and self.on("union_partial", 0.35):
                drop = set(r.sample(poss, r.randint(1, len(poss) - 1)))
            for p in poss:
                if p in drop:
                    continue
                oc = self.frags_on(p)
                if frag_ok and oc and r.random() < 0.3:
                    parts.append("..." + r.choice(oc))
                    continue
                own = {f["name"] for f in self.s.defs[p]["fields"]}
                if not self.on("inline_same_names", 0.3):
                    for o in poss:
                        if o != p:
                            own -= {f["name"] for f in self.s.defs[o]["fields"]}
                ls = ["id"] if r.random() < 0.8 else []
                ls += self.lines(p, 1 if self.on("inline_nested", 0.4) else 0, {"id"}, 0, only=own)
                if frag_ok and oc and self.on("spread_in_union_inline", 0.3):
                    pick = r.choice(oc)
                    rest = [x for x in oc if x != pick and not self.frag_used.get(x, set()) & self.frag_used.get(pick, set()) - {"id"}]
                    if rest and self.on("two_in_union_inline", 0.5):
                        ls = ["..." + pick, "..." + r.choice(rest)]
                    else:
                        ls = ["..." + pick] + (ls if self.on("spread_and_fields", 0.4) and not (set(ls) & self.frag_used.get(pick, set())) else [])
                parts.append(f"... on {p} {{ " + " ".join(ls or ["id"]) + " }")
            return "{ " + " ".join(parts + typ) + " }"
        raise AssertionError(k)

    def build(self, n_frags=(1, 4), n_ops=(2, 5)):
        r, s = self.r, self.s
        objs = [n for n in s.names("object") if n not in ("Query", "Mutation", "Subscription")]
        made = []
        for _ in range(r.randint(*n_frags)):
            t = r.choice(made) if made and r.random() < 0.4 else r.choice(objs)
            made.append(t)
            self.fragment(t)
        for i in s.names("interface"):
            if r.random() < 0.5:
                self.fragment(i)
        for u in s.names("union"):
            if self.on("union_frag", 0.5):
                self.fragment(u)
        roots = [("query", "Query")] * 3 + [("mutation", "Mutation"), ("subscription", "Subscription")]
        for _ in range(r.randint(*n_ops)):
            self.operation(*r.choice(roots))
        self.prune()
        return self

    def fragment(self, t):
        r = self.r
        name = f"{self.prefix}{t.replace('_', '')}{r.choice(['Basic', 'Full', 'List', 'Detail', 'Frag', '_x1'])}"
        if name in self.frags or name in self.s.defs:
            return
        used = set()
        k = self.kind(t)
        if k == "object":
            lines = self.lines(t, 1, used)
            refs = {f["name"] for f in self.ref_fields(t)}
            c = [x for x in self.frags_on(t) if not self.frag_used.get(x, set()) & used & refs]
            if c and self.on("frag_in_frag", 0.6):
                x = r.choice(c)
                lines.insert(r.randint(0, len(lines)), "..." + x)
                used |= self.frag_used.get(x, set())
            ic = [fn for i in self.s.defs[t].get("implements", []) for fn in self.frags_on(i) if not self.frag_used.get(fn, set()) & used & refs]
            if ic and self.on("iface_frag_in_frag", 0.3):
                lines.append("..." + r.choice(ic))
            body = "{ " + " ".join(lines or ["id"]) + " }"
        else:
            body = self.selection(t, 1 if k == "interface" and self.on("iface_nested", 0.5) else 0, frag_ok=r.random() < 0.5)
            if k == "interface":
                used |= {f["name"] for f in self.s.defs[t]["fields"]}
        self.frag_used[name] = used | {"id"}
        self.frags[name] = (t, f"fragment {name} on {t} {body}")

    def operation(self, kind, root):
        r = self.r
        fs = self.s.defs[root]["fields"]
        k = 1 if kind == "subscription" or r.random() < 0.6 else min(2, len(fs))
        chosen = r.sample(fs, k)
        base = chosen[0]["name"].lstrip("_") or "op"
        name = f"{self.prefix}{base[0].upper()}{base[1:]}{r.choice(['', 'Op', 'By', 'All'])}"
        if any(x.lower() == name.lower() for x in [*self.ops, *self.frags, *self.s.defs]):
            self.n += 1
            name += f"N{self.n}"
        self.vars, parts = {}, []
        for j, f in enumerate(chosen):
            a_txt = []
            for a in f.get("args", []):
                req = NN(a["type"]) and a.get("default") is None
                if req or r.random() < 0.85:
                    a_txt.append(f"{a['name']}: ${self.variable(a)}")
            txt = f["name"]
            if r.random() < 0.15 and self.rich:
                txt = f"res{j}: {f['name']}"
            if a_txt:
                txt += "(" + ", ".join(a_txt) + ")"
            if kind != "subscription":
                txt += self.condition()
            if self.kind(f["type"]) not in ("scalar", "enum"):
                txt += " " + self.selection(f["type"], r.randint(0, 2))
            parts.append(txt)
            if kind == "query" and k == 1 and "(" not in txt.split("{")[0] and self.on("root_twice", 0.1):
                parts.append("again: " + (txt[6:] if txt.startswith("res0: ") else txt))
        vs = list(self.vars.items())
        r.shuffle(vs)
        head = f"{kind} {name}" + ("(" + ", ".join(f"${n}: {show(t)}{d}" for n, (t, d) in vs) + ")" if vs else "")
        self.vars = None
        self.ops[name] = (kind, head + " {\n  " + "\n  ".join(parts) + "\n}")


SAFE = ["var_default", "twice", "two_frags", "frag_in_frag", "iface_nested", "object_frag_on_iface"]
ALL = SAFE + ["iface_frag_on_object", "iface_frag_in_frag", "union_frag", "union_partial", "inline_same_names", "inline_nested", "spread_in_inline",
              "spread_in_union_inline", "spread_and_fields", "conditional", "lonely_typename", "inline_twice", "parent_iface_frag", "two_in_union_inline", "root_twice"]

PROXY = "simclient"


def client_project(r: random.Random, feats, size=1.0, n_ops=(2, 5), only=None):
    """-> plan part: sdl, docs (list of chunks), turms options."""
    from graphql import build_schema, parse, validate
    s = client_schema(r, size)
    d = ClientDocs(r, s, feats)
    d.build(n_ops=n_ops)
    schema = build_schema(s.sdl())
    # keep only operations that validate, and the fragments they need
    good = {}
    for name, (kind, text) in d.ops.items():
        doc = text + "\n" + "\n".join(t for _, t in needed(d.frags, text))
        try:
            if not validate(schema, parse(doc)) and (only is None or kind in only) and not overlaps(schema, parse(doc)):
                good[name] = (kind, text)
        except Exception:  # noqa: an invalid document of the generator's own making
            continue
    d.ops = good
    d.prune()
    style = r.random()
    turms = {
        "out_dir": "api", "generated_name": "api.py",
        "stylers": [{"type": t} for t in (["turms.stylers.capitalize.CapitalizeStyler", "turms.stylers.snake_case.SnakeCaseStyler"] if style < 0.6 else
                                          ["turms.stylers.default.DefaultStyler"] if style < 0.75 else ["turms.stylers.snake_case.SnakeCaseStyler"] if style < 0.85 else [])],
        "plugins": [{"type": t} for t in PLUGINS],
        "scalar_definitions": {"UUID": "str", "DateTime": r.choice(["str", "datetime.datetime"])},
    }
    defs, gargs, gkw = [], [], []
    c = {"key": "client", "type": PROXY + ".Client", "description": "who to talk to"}
    where = r.choice(["none", "gkw", "gkw", "garg", "kw", "arg"])
    if where == "gkw":
        gkw = [c]
    elif where == "garg":
        gargs = [c]
    if r.random() < 0.3:
        gkw.append({"key": "timeout", "type": "int", "default": r.choice([5, 0]), "description": "t"})
    for is_async, pre in ((True, "a"), (False, "")):
        for t, f in (("query", "execute"), ("mutation", "execute"), ("subscription", "subscribe")):
            x = {"type": t, "is_async": is_async, "use": f"{PROXY}.{pre}{f}"}
            if where == "kw":
                x["extra_kwargs"] = [c]
            elif where == "arg":
                x["extra_args"] = [c]
            defs.append(x)
    fp = {"type": "turms.plugins.funcs.FuncsPlugin", "definitions": defs, "global_args": gargs, "global_kwargs": gkw, "collapse_lonely": r.random() < 0.7}
    if r.random() < 0.2:
        fp["prepend_sync"], fp["prepend_async"] = "do_", "ado_"
    if r.random() < 0.25:
        turms["freeze"] = {"enabled": True}
    if r.random() < 0.15:
        turms["exclude_typenames"] = True
    if r.random() < 0.2:
        turms["create_catchall"] = False
    if r.random() < 0.2:
        turms["options"] = {"enabled": True, "allow_population_by_field_name": True}
    if r.random() < 0.15:
        turms["options"] = {"enabled": True, "extra": "ignore"}
    if r.random() < 0.2:
        turms["plugins"].insert(2, {"type": "turms.plugins.input_funcs.InputFuncsPlugin", "prepend": "make_"})
    if r.random() < 0.2:
        fp["coercible_scalars"] = {"ID": PROXY + ".Idish"}
    # spread one input type into parameters where its fields cannot collide with other parameters
    if r.random() < 0.35:
        exp = expandable(schema, d)
        if exp:
            fp["expand_input_types"] = [r.choice(exp)]
    turms["plugins"].append(fp)
    more_options(random.Random(r.getrandbits(32)), turms, fp, s)
    docs = [t for _, t in d.frags.values()] + [t for _, t in d.ops.values()]
    return {"sdl": s.sdl(), "docs": docs, "turms": turms, "feats": sorted(d.used_feats)}


def more_options(r, turms, fp, s):
    """Options that change how the client is written, but not what it does."""
    if r.random() < 0.12:
        turms["graphql_default_class"] = PROXY + ".Default"
    if r.random() < 0.12:
        turms["deprecated_class"] = PROXY + ".Outdated"
    if r.random() < 0.15:
        turms["unset_type_class"], turms["unset_instance"] = PROXY + ".MissingType", PROXY + ".MISSING"
    if r.random() < 0.1:
        turms["document_field_metadata"] = False
    if r.random() < 0.1:
        fp["extract_documentation"] = False
    if r.random() < 0.15:
        turms["object_bases"] = [PROXY + ".Model"]
    if r.random() < 0.12:
        turms["interface_bases"] = [PROXY + ".Node"]
    if r.random() < 0.15:
        turms["additional_bases"] = {n: [PROXY + "." + r.choice(["BaseA", "BaseB"])] for n in r.sample(s.names("object"), 2)}
    if r.random() < 0.1:
        turms["parsers"] = [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": r.choice(["3.7", "3.9"])}]
    if r.random() < 0.12:
        turms["processors"] = r.sample([{"type": "turms.processors.black.BlackProcessor"}, {"type": "turms.processors.isort.IsortProcessor"},
                                        {"type": "turms.processors.disclaimer.DisclaimerProcessor"}], r.randint(1, 2))
    if r.random() < 0.1:
        for p in turms["plugins"]:
            if p["type"].endswith("OperationsPlugin"):
                p["arguments_allow_population_by_field_name"] = True
                if r.random() < 0.5:
                    p["query_bases"] = [PROXY + ".Model"]
    if "options" not in turms and r.random() < 0.25:
        turms["options"] = {"enabled": True, **r.choice([{"validate_assignment": True}, {"use_enum_values": True}, {"orm_mode": True}, {"extra": "allow"},
                                                         {"extra": "forbid", "types": ["input"]}, {"allow_population_by_field_name": True, "types": ["input", "fragment"]}])}
    if "freeze" in turms and r.random() < 0.4:
        turms["freeze"].update(r.choice([{"types": ["input"]}, {"types": ["fragment", "object"]}, {"types": ["query", "mutation", "subscription"]}]))


def overlaps(schema, doc):
    """Whether an object is selected twice under one name with different selections that GraphQL merges, or a fragment
    is spread next to one that spreads it already. (Known limits of the generator, see known_findings.jsonl and C20.)"""
    from graphql import (FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLObjectType, InlineFragmentNode, OperationDefinitionNode, get_named_type)
    frags = {d.name.value: d for d in doc.definitions if isinstance(d, FragmentDefinitionNode)}

    def spreads(sel, out):
        for x in sel.selections:
            if isinstance(x, FragmentSpreadNode):
                out.append(x.name.value)
                spreads(frags[x.name.value].selection_set, out)
            elif isinstance(x, InlineFragmentNode):
                spreads(x.selection_set, out)
        return out

    def collect(t, sel, conds, out):
        for x in sel.selections:
            if isinstance(x, FieldNode):
                if x.selection_set:
                    out.append((x.alias.value if x.alias else x.name.value, x, t, conds))
                continue
            d = frags[x.name.value] if isinstance(x, FragmentSpreadNode) else x
            c = schema.get_type(d.type_condition.name.value) if d.type_condition else t
            collect(c, d.selection_set, conds + [c], out)
        return out

    def apart(a, b):
        return any(isinstance(x, GraphQLObjectType) and isinstance(y, GraphQLObjectType) and x is not y for x in a for y in b)

    def bad(t, sel):
        sp = spreads(sel, [])
        if len(sp) != len(set(sp)):
            return True
        fs = collect(t, sel, [t], [])
        for i, (n, _, _, c) in enumerate(fs):
            if any(m == n and not apart(c, e) for m, _, _, e in fs[:i]):
                return True
        for _, x, u, _ in fs:
            f = u.fields[x.name.value]
            if bad(get_named_type(f.type), x.selection_set):
                return True
        return False

    return any(bad(schema.get_root_type(d.operation), d.selection_set) for d in doc.definitions if isinstance(d, OperationDefinitionNode))


def needed(frags, text):
    import re
    pat = re.compile(r"\.\.\.([A-Za-z_0-9]+)")
    seen, todo, out = set(), [text], []
    while todo:
        for m in pat.findall(todo.pop()):
            if m in frags and m not in seen:
                seen.add(m)
                todo.append(frags[m][1])
                out.append(frags[m])
    return out


def directives(t):
    """[(name, {argument: value})] of the directives of an input type"""
    return [(x.name.value, {a.name.value: a.value.value for a in x.arguments}) for x in (t.ast_node.directives if t.ast_node else ())]


def special(schema, t):
    """None, ("oneof", direct?) or ("union", [(member type, discriminator, key)]) of an input type"""
    from graphql import GraphQLInputObjectType
    if any(n == "oneOf" for n, _ in directives(t)):
        fs = [f.type for f in t.fields.values()]
        direct = all(isinstance(x, GraphQLInputObjectType) and not any(n == "oneOf" for n, _ in directives(x)) for x in fs) and len({getattr(x, "name", x) for x in fs}) == len(fs)
        return ("oneof", direct)
    ms = [(m, a["discriminator"], a["key"]) for m in schema.type_map.values() if isinstance(m, GraphQLInputObjectType)
          for n, a in directives(m) if n == "unionElementOf" and a["union"] == t.name]
    return ("union", ms) if ms else None


def expandable(schema, d):
    """Names of variables that are everywhere a required input object whose fields clash with no other parameter."""
    from graphql import GraphQLInputObjectType, NonNullTypeNode, NamedTypeNode, parse
    ok, bad = set(), set()
    for kind, text in d.ops.values():
        op = parse(text).definitions[0]
        names = {v.variable.name.value for v in op.variable_definitions}
        for v in op.variable_definitions:
            n = v.variable.name.value
            t = v.type
            if isinstance(t, NonNullTypeNode) and isinstance(t.type, NamedTypeNode) and isinstance(schema.get_type(t.type.name.value), GraphQLInputObjectType) and not v.default_value and not special(schema, schema.get_type(t.type.name.value)):
                fs = {x.lower() for x in schema.get_type(t.type.name.value).fields}
                if not fs & {x.lower() for x in names - {n}} and not fs & {"client", "timeout"}:
                    ok.add(n)
                    continue
            bad.add(n)
    return sorted(ok - bad)
