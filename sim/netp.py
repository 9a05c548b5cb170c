"""Shared pieces of the network properties: projects with remote schema sources, faults, oracles."""
from __future__ import annotations

import json
import random

from graphql import build_client_schema, build_schema, get_introspection_query, graphql_sync, lexicographic_sort_schema, print_schema

import fsp
import workload

TRANSPORT = ["refused", "unreachable", "dns", "reset_before", "close_before", "reset_at", "close_at", "reset_at", "close_at"]
STALLS = ["stall_connect", "stall_before", "stall_at", "stall_at"]
CODES = [201, 202, 206, 400, 401, 403, 404, 405, 429, 500, 502, 503, 504]
PAYLOADS = ["errors", "errors_null_data", "errors_partial", "data_null", "null", "list", "no_data", "data_empty", "schema_null", "types_empty", "cut"]


def canon(sdl_or_schema):
    s = build_schema(sdl_or_schema) if isinstance(sdl_or_schema, str) else sdl_or_schema
    return print_schema(lexicographic_sort_schema(s))


def via_introspection(sdl):
    s = build_schema(sdl)
    return canon(build_client_schema(graphql_sync(s, get_introspection_query()).data))


def wrong(sdl):
    """A valid schema that is not the published one (documents stay valid for it)."""
    return sdl + "\ntype NotPublished { code: Int, message: String }\n"


def get_fault(r, sdl, stalls=False):
    k = r.choice(["transport", "transport", "status", "status", "body", "redirect"] + (["stall", "stall"] if stalls else []))
    if k == "transport":
        return cut({"kind": r.choice(TRANSPORT)}, r)
    if k == "stall":
        return cut({"kind": r.choice(STALLS)}, r)
    if k == "status":
        b = r.choice(["html", "json", "empty", "sdl", "sdl"])
        f = {"kind": "status", "code": r.choice(CODES), "body": b}
        if b == "sdl":
            f["text"] = wrong(sdl)
        return f
    if k == "redirect":
        m = r.random()
        code = r.choice([301, 302, 303, 307, 308])
        if m < 0.6:
            return {"kind": "redirect", "code": code, "location": "/moved/schema"}
        return {"kind": "redirect", "code": code, "location": None}
    m = r.choice(["empty", "empty204", "html", "json", "nonsense", "cut", "cut", "undecodable", "bad_gzip", "spaces"])
    if m == "empty":
        return {"kind": "empty"}
    if m == "empty204":
        return {"kind": "empty", "code": 204}
    if m == "html":
        return {"kind": "raw", "text": "<!DOCTYPE html><html><body>Sign in</body></html>", "ctype": "text/html"}
    if m == "json":
        return {"kind": "raw", "text": '{"errors":[{"message":"Must provide query string."}]}', "ctype": "application/json"}
    if m == "nonsense":
        return {"kind": "raw", "text": "service temporarily unavailable"}
    if m == "spaces":
        return {"kind": "raw", "text": "\n  \n"}
    if m == "cut":
        return {"kind": "cut", "back": r.choice([0, 1, 3, 9])}
    return {"kind": m}


def post_fault(r, sdl, stalls=False):
    k = r.choice(["transport", "payload", "payload", "payload", "status", "raw"] + (["stall"] if stalls else []))
    if k == "transport":
        return cut({"kind": r.choice(TRANSPORT)}, r)
    if k == "stall":
        return cut({"kind": r.choice(STALLS)}, r)
    if k == "payload":
        return {"kind": "payload", "what": r.choice(PAYLOADS), "code": r.choice([200, 200, 400, 500]), "drop": r.randrange(9)}
    if k == "status":
        return {"kind": "status", "code": r.choice(CODES), "body": r.choice(["html", "json", "empty", "introspection"])}
    return {"kind": "raw", "text": r.choice(["", "<html></html>", "null", "[]", "42", '"text"', "{}", '{"data": []}', '{"data": "x"}']), "ctype": "application/json"}


def cut(f, r):
    if f["kind"].endswith("_at"):
        f["where"] = r.choice(["head", "body", "body"])
        f["frac"] = r.choice([0.0, 0.02, 0.3, 0.5, 0.9, 0.999])
    if r.random() < 0.3:
        f["enc"] = "chunked"
    return f


def server(r, sdl, **kw):
    s = {"sdl": sdl, "enc": r.choice(["length", "length", "chunked"])}
    if r.random() < 0.2:
        s["gzip"] = True
    if r.random() < 0.15:
        s["bom"] = True
    if r.random() < 0.5:
        s["ctype"] = r.choice(["text/plain", "application/graphql", "text/plain; charset=latin-1", "application/octet-stream"])
    s.update(kw)
    return s


def url(r, i, tls=None):
    t = r.random() < 0.3 if tls is None else tls
    host = f"s{i}.test"
    port = r.choice([443, 8443]) if t else r.choice([80, 8000])
    default = 443 if t else 80
    return f"{'https' if t else 'http'}://{host}{'' if port == default else ':' + str(port)}/{r.choice(['graphql', 'schema.graphql', '', 'api/v1/graphql?raw=1'])}", f"{host}:{port}"


def project(r, name, multi, size=None, **kw):
    """(files without the schema, config, schema model)"""
    pre = f"{name}/" if multi else ""
    f, cfg, s, d = workload.gen_project(r, name, docs_dir=pre + "docs", schema_path=pre + "schema.graphql", out_dir=f"out_{name}", size=size or r.choice([0.7, 1.0, 1.6]), **kw)
    sdl = f.pop(pre + "schema.graphql")
    t = cfg["extensions"]["turms"]
    t["dump_schema"] = True
    t["dump_configuration"] = r.random() < 0.3
    return f, cfg, s, sdl


def stall_rows(log):
    return [x for x in log if "stall" in (x.get("fault") or "") or "stall" in x.get("event", "")]


def rows(export, key):
    return [x for x in export["log"] if x["to"] == key]


def is_intro(x):
    return x.get("event") == "request" and (x.get("introspection") or x.get("method") == "POST")
