"""Shared pieces of the file-system properties: workloads, fault choice, shrinking."""
from __future__ import annotations

import json
import os
import random

import yaml

import workload
from core import HarnessError
from fs import MUTATING, World

WRITE_ERRS = ["ENOSPC", "EIO", "EDQUOT"]
OPEN_ERRS = ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "ENOENT"]
READ_ERRS = ["EIO", "ESTALE", "ENOMEM"]
OPENR_ERRS = ["EACCES", "EIO", "EMFILE", "ENOENT", "EPERM"]


def build(r: random.Random, nproj=1, size=None, names=None, shared_out=0.3, cfg_name=None, **kw):
    """files (explicit), config (dict), per-project output paths."""
    files, projects = {}, {}
    names = names or [f"p{i}" for i in range(nproj)]
    out_shared = r.random() < shared_out and len(names) > 1
    for i, n in enumerate(names):
        pre = f"{n}/" if len(names) > 1 else ""
        f, cfg, s, d = workload.gen_project(r, n, docs_dir=pre + "docs", schema_path=pre + "schema.graphql",
                                            out_dir=("api" if out_shared else r.choice(["api", "out/gen", "pkg/api/v1"]) + (f"_{n}" if len(names) > 1 else "")),
                                            size=size or r.choice([0.7, 1.0, 1.6, 2.4]), **kw)
        t = cfg["extensions"]["turms"]
        if len(names) > 1:
            t["generated_name"] = f"{n}_{t['generated_name']}"
            t["schema_name"] = f"{n}.graphql_out"
            t["configuration_name"] = f"{n}.json"
        projects[n] = cfg
        files.update(f)
    return {"files": files, "config": {"projects": projects}, "config_name": cfg_name or "graphql.config.yaml"}


def config_text(name, config, anchors=False):
    if anchors:  # equal parts of several projects become one YAML node, referenced by alias
        seen = {}

        def share(o):
            if isinstance(o, dict):
                o = {k: share(v) for k, v in o.items()}
            elif isinstance(o, list):
                o = [share(v) for v in o]
            else:
                return o
            return seen.setdefault(json.dumps(o), o) if o else o
        config = share(config)
    if name.endswith(".json"):
        return json.dumps(config, indent=1, ensure_ascii=False)
    return yaml.safe_dump(config, sort_keys=False, allow_unicode=True)


def all_files(w):
    return {**w["files"], w["config_name"]: config_text(w["config_name"], w["config"], w.get("anchors"))}


def outputs(cfg, overwrite=None):
    """{kind: path} a successful generation of this project writes."""
    t = cfg["extensions"]["turms"]
    d = t.get("out_dir", "api") or "."
    o = {"code": os.path.normpath(f"{overwrite or d}/{t.get('generated_name', 'schema.py')}")}
    if t.get("dump_schema"):
        o["schema"] = os.path.normpath(f"{d}/{t.get('schema_name', 'schema.graphql')}")
    if t.get("dump_configuration"):
        o["config"] = os.path.normpath(f"{d}/{t.get('configuration_name', 'project.json')}")
    return o


def all_outputs(w, overwrite=None):
    return sorted({p for c in w["config"]["projects"].values() for p in outputs(c, overwrite).values()})


def old_contents(r, w, p_exist=0.75, overwrite=None):
    """Previous contents of (some of) the output files."""
    old = {}
    for p in all_outputs(w, overwrite):
        if r.random() < p_exist and not any(f.startswith(p + "/") for f in w["files"]):
            k = r.randint(0, 3)
            if k == 0:
                old[p] = f"# previous {p}\nX = {r.randint(0, 999)}\n"
            elif k == 1:
                old[p] = "# previous long\n" + "".join(f"VALUE_{i} = {r.randint(0, 9)}\n" for i in range(r.randint(200, 900)))
            elif k == 2:
                old[p] = "x"
            else:
                old[p] = "# größe\n" * r.randint(1, 30)
    return old


# ---------------------------------------------------------------- projects that cannot be generated
def _proj_files(w, n):
    c = w["config"]["projects"][n]
    base = c["documents"].split("*")[0]
    return c, [f for f in w["files"] if f.startswith(base)]


def break_project(r, w, n, kinds=None, exc=None):
    """Make project n fail for a reason that does not depend on faults; returns the reason."""
    c, docs = _proj_files(w, n)
    t = c["extensions"]["turms"]
    kind = r.choice(kinds or BREAKS)
    schema = c["schema"]
    if (kind.startswith("doc_") or kind == "scalar_undefined") and not any(p["type"].endswith("OperationsPlugin") for p in t["plugins"]):
        kind = "plugin"  # this generator reads no documents
    if kind.startswith("schema_") and sum(1 for x in w["config"]["projects"].values() if x["schema"] == schema) > 1:
        w["files"][schema + ".own"] = w["files"][schema]
        c["schema"] = schema = schema + ".own"
    if kind == "schema_missing":
        del w["files"][schema]
    elif kind == "schema_syntax":
        w["files"][schema] += "\ntype Broken { a: [/String }\n"
    elif kind == "schema_unknown_type":
        w["files"][schema] += "\ntype Broken { a: NotThere }\n"
    elif kind == "schema_not_utf8":
        w["files"][schema] += "# \udcff\udcfe\n"
    elif kind == "doc_syntax":
        w["files"][r.choice(docs)] += "\nquery Brk { hello( } # see [/docs]\n"
    elif kind == "doc_invalid":
        w["files"][r.choice(docs)] += "\nquery Brk { thisFieldDoesNotExist }\n"
    elif kind == "doc_unknown_fragment":
        w["files"][r.choice(docs)] += "\nquery Brk { ...NotAFragment }\n"
    elif kind == "doc_duplicate":
        d = r.choice(docs)
        w["files"][d] += "\n" + w["files"][d]
    elif kind == "doc_missing":
        c["documents"] = c["documents"].replace("docs/", "nowhere/")
    elif kind == "doc_not_utf8":
        w["files"][r.choice(docs)] += "# \udcff\udcfe\n"
    elif kind == "scalar_undefined":
        if sum(1 for x in w["config"]["projects"].values() if x["schema"] == schema) > 1:
            w["files"][schema + ".own"] = w["files"][schema]
            c["schema"] = schema = schema + ".own"
        w["files"][schema] += "\nscalar Strange\nextend type Query { strange: Strange }\n"
        w["files"][docs[0]] += "\nquery StrangeOne { strange }\n"
        if not any(p["type"].endswith("OperationsPlugin") for p in t["plugins"]):
            t["plugins"].append({"type": "turms.plugins.operations.OperationsPlugin"})
    elif kind == "plugin":
        t["plugins"].insert(r.randint(0, len(t["plugins"])), {"type": "simfaults.FailingPlugin", "exc": exc or r.choice(EXCS)})
    elif kind == "parser":
        t["parsers"] = t.get("parsers", []) + [{"type": "simfaults.FailingParser", "exc": exc or r.choice(EXCS)}]
    elif kind == "styler":
        t["stylers"] = t.get("stylers", []) + [{"type": "simfaults.FailingStyler", "exc": exc or r.choice(EXCS)}]
    elif kind == "processor":
        ps = t.setdefault("processors", [])
        ps.insert(r.randint(0, len(ps)), {"type": "simfaults.FailingProcessor", "exc": exc or r.choice(EXCS)})
    elif kind == "command":
        t.setdefault("processors", []).append({"type": "turms.processors.command.CommandProcessor", "command": r.choice([["sh", "-c", "cat; exit 3"], ["/nonexistent/tool"], ["sh", "-c", "exit 1"]])})
    elif kind == "bad_option":
        t["plugins"][r.randrange(len(t["plugins"]))]["no_such_option"] = 1
    elif kind == "out_blocked":
        d = t["out_dir"] = t["out_dir"] + "_blocked"
        w["files"][d] = "this is a file, not a directory\n"
        how = r.choice(["", "/below", "empty"])
        t["out_dir"] = "" if how == "empty" else d + how
    elif kind == "out_is_dir":  # a directory has the place of one of the outputs
        d = t["out_dir"] = t["out_dir"] + "_taken"
        which = r.choice([k for k in ("generated_name", "schema_name", "configuration_name")
                          if k == "generated_name" or t.get({"schema_name": "dump_schema", "configuration_name": "dump_configuration"}[k])])
        t.setdefault(which, {"generated_name": "schema.py", "schema_name": "schema.graphql", "configuration_name": "project.json"}[which])
        w["files"][f"{d}/{t[which]}/keep.txt"] = "a directory\n"
    else:
        raise HarnessError(kind)
    return kind


EXCS = ["generation", "key", "os", "assert", "recursion", "unicode", "group", "stop", "value"]
BREAKS = ["schema_missing", "schema_syntax", "schema_unknown_type", "schema_not_utf8", "doc_syntax", "doc_invalid", "doc_unknown_fragment", "doc_duplicate",
          "doc_missing", "doc_not_utf8", "scalar_undefined", "plugin", "parser", "styler", "processor", "command", "bad_option", "out_blocked", "out_is_dir"]
LOAD_BREAKS = [b for b in BREAKS if b not in ("out_blocked", "out_is_dir")]


KINDS = ["crash_before", "crash_after", "crash_partial", "fail", "short", "sigint", "sigint_eintr", "disk_full"]


def pick_fault(r, oplog, proc, kinds=None, bias_mutating=0.75, only=None):
    """A concrete fault at an operation of a reference execution."""
    kinds = kinds or KINDS
    kind = r.choice(kinds)
    idx = [i for i, o in enumerate(oplog) if only is None or only(o)]
    if not idx:
        return None
    mut = [i for i in idx if oplog[i][0] in MUTATING]
    if kind in ("short", "crash_partial"):
        c = [i for i in idx if oplog[i][0] == "write"]
        if kind == "short" and r.random() < 0.3:
            c = [i for i in idx if oplog[i][0] == "read"] or c
        if not c:
            kind, c = "crash_before", mut or idx
    elif kind == "disk_full":
        c = mut or idx
    elif kind == "fail":
        c = mut if mut and r.random() < bias_mutating else idx
        c = [i for i in c if oplog[i][0] in ("openw", "openr", "read", "write", "closew", "rename", "mkdir", "fsync", "chmod")] or c
    else:
        c = mut if mut and r.random() < bias_mutating else idx
    at = r.choice(c)
    op = oplog[at][0]
    f = {"proc": proc, "at": at, "kind": kind, "op": op}
    if kind == "fail":
        f["err"] = r.choice({"write": WRITE_ERRS, "closew": WRITE_ERRS, "fsync": ["EIO"], "openw": OPEN_ERRS, "openr": OPENR_ERRS, "read": READ_ERRS,
                             "rename": ["EIO", "EACCES", "ENOSPC", "EPERM", "ENOENT"], "mkdir": ["EACCES", "ENOSPC", "EROFS", "ENOENT"], "chmod": ["EPERM", "EIO"]}.get(op, ["EIO"]))
    elif kind == "disk_full":
        f["err"] = r.choice(["ENOSPC", "ENOSPC", "EROFS", "EDQUOT"])
    elif kind in ("short", "crash_partial"):
        f["frac"] = r.choice([0.0, 0.01, 0.3, 0.5, 0.9, 1.0])
    return f


def drop_projects(plan, key="w"):
    w = plan[key]
    ps = w["config"]["projects"]
    if len(ps) > 1:
        for n in list(ps):
            q = json.loads(json.dumps(plan))
            del q[key]["config"]["projects"][n]
            yield q


def shrink_files(plan, key="w"):
    """Drop whole documents and unused output options."""
    w = plan[key]
    for n, cfg in w["config"]["projects"].items():
        t = cfg["extensions"]["turms"]
        for opt in ("dump_schema", "dump_configuration", "processors", "freeze", "stylers"):
            if t.get(opt):
                q = json.loads(json.dumps(plan))
                del q[key]["config"]["projects"][n]["extensions"]["turms"][opt]
                yield q
        if len(t.get("plugins", [])) > 1:
            q = json.loads(json.dumps(plan))
            q[key]["config"]["projects"][n]["extensions"]["turms"]["plugins"] = [{"type": "turms.plugins.enums.EnumsPlugin"}]
            yield q
            q = json.loads(json.dumps(plan))
            q[key]["config"]["projects"][n]["extensions"]["turms"]["plugins"].pop()
            yield q


def entry_spec(plan):
    e = plan.get("entry", "cli")
    if e == "cli":
        return {"kind": "cli", "args": plan.get("args", ["gen"])}
    if e == "lib":
        return {"kind": "lib", "strict": plan.get("strict", True), "overwrite": plan.get("overwrite")}
    raise HarnessError("unknown entry " + e)


def succeeded(proc):
    return proc.result is not None and proc.result["rc"] == 0


def reference(files, spec, mask=None, links=None, **kw):
    """Fault-free execution from a given initial state."""
    w = World()
    w.populate(files)
    for a, b in (links or {}).items():
        w.make_link(a, b)
    P = w.spawn_run([("ref", spec)], **({"mask": mask} if mask else {}), **kw)
    return w, P["ref"]


def changed(before, after, ignore=()):
    """Paths created, removed or changed between two snapshots."""
    out = []
    for k in sorted(set(before) | set(after)):
        if k in ignore:
            continue
        if before.get(k, "<none>") != after.get(k, "<none>"):
            out.append(k)
    return out


def world_damage(w, procs):
    """Harness-level conditions every property shares: no progress."""
    if w.hang:
        return "the process made no progress (hang)"
    if w.capped:
        return "the process did not finish within the operation cap"
    return None
