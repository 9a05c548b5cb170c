"""Simulation of generated clients: simulated GraphQL servers, a virtual-time event loop, a baton scheduler for threads,
generated call functions under seeded delays, failures, cancellations and server upgrades."""
from __future__ import annotations

import asyncio
import collections
import contextvars
import datetime
import enum
import heapq
import inspect
import json
import os
import random
import re
import selectors
import sys
import tempfile
import threading
import types
import typing

import clientgen
import simclient
from core import HarnessError, derive, digest

GEN_FILE = "<generated client>"


class Broken(Exception):
    """The generated client does not do what it must before any exchange takes place."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


class TransportError(Exception):
    pass


class ServerError(Exception):
    pass


class Hang(BaseException):
    """A stream was read on although nothing would ever come."""


# ------------------------------------------------------------------------------------------- generated module
_count = [0]


def generate(project, scratch):
    """Run the real generator over the project and import its module."""
    from turms.config import GraphQLProject
    from turms.run import generate as turms_generate
    d = tempfile.mkdtemp(dir=scratch)
    with open(d + "/schema.graphql", "w", encoding="utf-8") as f:
        f.write(project["sdl"])
    for i, t in enumerate(project["docs"]):
        with open(f"{d}/d{i}.graphql", "w", encoding="utf-8") as f:
            f.write(t + "\n")
    p = GraphQLProject(**{"schema": d + "/schema.graphql", "documents": d + "/d*.graphql", "extensions": {"turms": json.loads(json.dumps(project["turms"]))}})
    try:
        code, _ = turms_generate(p, log=lambda *a, **k: None)
    except Exception as e:  # noqa
        raise Broken("no_client", f"no client could be generated: {type(e).__name__}: {str(e)[:300]}")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return code


def load(code):
    # typing shares List['X'] between modules and remembers what the forward reference meant in the first of them
    for forget in typing._cleanups:
        forget()
    _count[0] += 1
    name = f"generated_client_{_count[0]}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    m.__sim_name__ = name
    try:
        exec(compile(code, GEN_FILE, "exec"), m.__dict__)
    except Exception as e:  # noqa
        sys.modules.pop(name, None)
        raise Broken("no_client", f"the generated client cannot be imported: {type(e).__name__}: {str(e)[:300]}")
    return m


def camel_to_snake(name):
    name = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name)
    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()


class Op:
    """One operation of the project, with the generated class and functions for it."""

    def __init__(self, node, project, module):
        fp = next(p for p in project["turms"]["plugins"] if p["type"].endswith(".FuncsPlugin"))
        self.node, self.name, self.kind = node, node.name.value, node.operation.value
        self.cls = None
        for v in list(vars(module).values()):
            doc = getattr(getattr(v, "Meta", None), "document", None)
            if isinstance(v, type) and isinstance(doc, str) and re.search(r"\b%s\s+%s\b" % (self.kind, re.escape(self.name)), doc):
                self.cls = v
        if self.cls is None:
            raise Broken("no_client", f"no class for operation {self.name}")
        self.fn = {}
        for a, pre, dflt in ((False, "prepend_sync", ""), (True, "prepend_async", "a")):
            fn = getattr(module, fp.get(pre, dflt) + camel_to_snake(self.name), None)
            if fn is None:
                raise Broken("no_client", f"no {'async' if a else 'sync'} function for operation {self.name}")
            self.fn[a] = fn
        self.collapse = fp.get("collapse_lonely", True) and len(node.selection_set.selections) == 1
        f = node.selection_set.selections[0]
        self.key = f.alias.value if f.alias else f.name.value
        self.expand = [v.variable.name.value for v in node.variable_definitions if v.variable.name.value in fp.get("expand_input_types", [])]
        self.cls.Arguments.model_rebuild()
        self.params = {}
        for attr, fi in self.cls.Arguments.model_fields.items():
            self.params[fi.alias or attr] = (attr, fi)
        for v in node.variable_definitions:
            if v.variable.name.value not in self.params:
                raise Broken("bad_request", f"{self.name}: the generated arguments have no member for ${v.variable.name.value}")


def annotated(ann, pred):
    """The class within an annotation that satisfies pred."""
    if isinstance(ann, type) and pred(ann):
        return ann
    for a in typing.get_args(ann):
        c = annotated(a, pred)
        if c is not None:
            return c
    return None


def parameter(fn, attr):
    """The parameter for a member of the arguments: it may be kept apart from a name the function uses itself."""
    takes = inspect.signature(fn).parameters
    return attr if attr in takes or attr + "_" not in takes else attr + "_"


def classes(ann, out=None):
    """All model classes within an annotation."""
    out = [] if out is None else out
    if isinstance(ann, type) and hasattr(ann, "model_fields"):
        if ann not in out:
            out.append(ann)
        return out
    for a in typing.get_args(ann):
        classes(a, out)
    return out


# ------------------------------------------------------------------------------------------- arguments
STRINGS = ["", "a", "größe", 'say "hi"', "line\nbreak", "0", "null", "x" * 30, "{}", "$first"]
WHEN = "2024-05-0%dT10:00:00+00:00"
ABSENT = object()


class Values:
    def __init__(self, r, schema, project, module):
        self.r, self.schema, self.module = r, schema, module
        self.dt = project["turms"]["scalar_definitions"].get("DateTime") == "datetime.datetime"
        self.idish = any("coercible_scalars" in p for p in project["turms"]["plugins"])
        self.input_funcs = any(p["type"].endswith("InputFuncsPlugin") for p in project["turms"]["plugins"])

    def value(self, t, ann, raw=False, depth=2):
        """(python value, wire value) for a GraphQL input type that is not null."""
        from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull
        r = self.r
        if isinstance(t, GraphQLNonNull):
            return self.value(t.of_type, ann, raw, depth)
        if isinstance(t, GraphQLList):
            out = []
            for _ in range(r.choice([0, 1, 2, 3])):
                if not isinstance(t.of_type, GraphQLNonNull) and r.random() < 0.2:
                    out.append((None, None))
                else:
                    out.append(self.value(t.of_type, ann, raw, depth))
            return [a for a, _ in out], [b for _, b in out]
        if isinstance(t, GraphQLInputObjectType):
            sp = clientgen.special(self.schema, t)
            if sp:
                return getattr(self, sp[0])(t, sp[1], classes(ann), raw, depth)
            return self.input(t, annotated(ann, lambda c: hasattr(c, "model_fields")), raw, depth)
        if isinstance(t, GraphQLEnumType):
            w = r.choice(list(t.values))
            c = annotated(ann, lambda c: issubclass(c, enum.Enum))
            if c is None:
                raise Broken("bad_request", f"no enum class in the annotation of a {t.name} argument: {ann}")
            if raw or r.random() < 0.3:
                return w, w
            try:
                return c(w), w
            except ValueError:
                raise Broken("bad_request", f"the generated enum {c.__name__} has no member for {w}")
        n = t.name
        if n == "Int":
            v = r.choice([0, 1, -1, 2147483647, 42, -2147483648])
        elif n == "Float":
            v = r.choice([0.0, 1.5, -2.25, 1e10, 3])
        elif n == "Boolean":
            v = r.random() < 0.5
        elif n == "ID":
            v = r.choice(["0", "", "id-7", "9007199254740993"])
            return (simclient.Idish(v) if self.idish and r.random() < 0.5 else v), v
        elif n == "DateTime":
            w = WHEN % r.randint(1, 9)
            return (datetime.datetime.fromisoformat(w) if self.dt else w), w
        else:
            v = r.choice(STRINGS)
        return v, v

    def pick(self, t, cs, member):
        """The class generated for a member type, among the classes of an annotation"""
        want = member.replace("_", "").lower()
        c = [c for c in cs if c.__name__.replace("_", "").lower() == want]
        if not c:
            raise Broken("bad_request", f"the annotation for input {t.name} has no class for its member {member}: {sorted(x.__name__ for x in cs)}")
        return c[0]

    def oneof(self, t, direct, cs, raw, depth):
        """@oneOf: an instance of a member (or of the wrapper of one field), on the wire {field: value}"""
        r = self.r
        names = list(t.fields)
        if depth <= 0:  # do not recurse for ever
            flat = [n for n in names if t.name not in str(t.fields[n].type)]
            names = flat or names
        fn = r.choice(names)
        f = t.fields[fn]
        if direct:
            # the class tells which member is meant, so it has to be an instance
            p, w = self.input(f.type, self.pick(t, cs, f.type.name), False, depth - 1, hows=("model",))
            return p, {fn: w}
        cls = self.pick(t, cs, t.name + fn[:1].upper() + fn[1:])
        cls.model_rebuild()
        m = {(fi.alias or a): fi for a, fi in cls.model_fields.items()}
        if list(m) != [fn]:
            raise Broken("bad_request", f"the class for field {fn} of @oneOf input {t.name} has the fields {sorted(m)}")
        p, w = self.value(f.type, m[fn].annotation, raw, depth - 1)
        if raw or r.random() < 0.3:
            return {fn: p}, {fn: w}
        try:
            return cls(**{fn: p}), {fn: w}
        except Exception as e:  # noqa
            raise Broken("bad_request", f"{cls.__name__} refuses a valid value for {fn}: {type(e).__name__}: {str(e)[:300]}")

    def union(self, t, ms, cs, raw, depth):
        """@unionElementOf: an instance of a member, with its discriminator on the wire"""
        r = self.r
        member, disc, key = r.choice(ms)
        cls = self.pick(t, cs, member.name)
        p, w = self.input(member, cls, raw, depth, hows=("model", "model", "dict"), skip=disc)
        if isinstance(p, dict):
            p[disc] = key
        return p, {**w, disc: key}

    def members(self, t, cls, raw, depth, builder=False, skip=None):
        """attr -> (python, wire) of the chosen fields."""
        from graphql import GraphQLNonNull, Undefined
        r = self.r
        if cls is None:
            raise Broken("bad_request", f"no model for input {t.name} in the annotation")
        cls.model_rebuild()
        names = {(fi.alias or a): (a, fi) for a, fi in cls.model_fields.items()}
        out = {}
        for fn, f in t.fields.items():
            if fn == skip:
                continue
            if fn not in names:
                raise Broken("bad_request", f"input model {cls.__name__} has no member for field {fn}")
            req = isinstance(f.type, GraphQLNonNull)
            must = req and (f.default_value is Undefined or builder)
            if depth <= 0 and not must:
                continue
            if not must and r.random() < 0.4:
                continue
            if not req and r.random() < 0.25:
                out[fn] = (names[fn][0], None, None)
            else:
                out[fn] = (names[fn][0], *self.value(f.type, names[fn][1].annotation, raw, depth - 1))
        return out

    def input(self, t, cls, raw, depth, hows=None, skip=None):
        r = self.r
        how = r.choice(hows) if hows and not raw else "dict" if raw and hows != ("model",) else r.choice(hows or (["model", "model", "dict", "func"] if self.input_funcs else ["model", "model", "dict"]))
        if how == "func":
            fn = getattr(self.module, "make_" + camel_to_snake(t.name), None)
            if fn is None:
                how = "model"
        m = self.members(t, cls, how == "dict", depth, how == "func", skip)
        wire = {k: w for k, (_, _, w) in m.items()}
        if how == "dict":
            return {k: p for k, (_, p, _) in m.items()}, wire
        try:
            if how == "func":
                return fn(**{parameter(fn, a): p for a, p, _ in m.values()}), wire
            return cls(**{k: p for k, (_, p, _) in m.items()}), wire
        except Exception as e:  # noqa
            raise Broken("bad_request", f"input {t.name} given as {how} is refused for valid members {sorted(m)}: {type(e).__name__}: {str(e)[:300]}")

    def call(self, op):
        """keyword arguments by parameter name, and the variables that have to arrive."""
        from graphql import NonNullTypeNode, type_from_ast
        r, kw, wire = self.r, {}, {}
        fn = op.fn[False]
        for v in op.node.variable_definitions:
            n = v.variable.name.value
            attr, fi = op.params[n]
            t = type_from_ast(self.schema, v.type)
            if n in op.expand:
                cls = annotated(fi.annotation, lambda c: hasattr(c, "model_fields"))
                m = self.members(t.of_type, cls, False, 2, True)
                wire[n] = {k: w for k, (_, _, w) in m.items()}
                for a, p, _ in m.values():
                    kw[parameter(fn, a)] = p
                continue
            req = isinstance(v.type, NonNullTypeNode)
            if not (req and not v.default_value):
                x = r.random()
                if x < 0.35:
                    continue
                if x < 0.4 and hasattr(self.module, "UNSET"):
                    kw[parameter(fn, attr)] = self.module.UNSET
                    continue
                if x < 0.55 and not req:
                    kw[parameter(fn, attr)], wire[n] = None, None
                    continue
            kw[parameter(fn, attr)], wire[n] = self.value(t, fi.annotation)
        return kw, wire


def same(a, b):
    """JSON equality that tells booleans and numbers apart."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


# ------------------------------------------------------------------------------------------- server
_schemas = {}


def build(sdl):
    from graphql import build_schema
    if sdl not in _schemas:
        if len(_schemas) > 40:
            _schemas.clear()
        _schemas[sdl] = build_schema(sdl)
    return _schemas[sdl]


class Server:
    def __init__(self, sdl, tag, seed):
        self.tag, self.seed = tag, seed
        self.sdl = sdl
        self.schema = build(sdl)
        self.log = []

    def upgrade(self, sdl):
        self.sdl = sdl
        self.schema = build(sdl)

    def check(self, text):
        from graphql import GraphQLError, parse, validate
        try:
            doc = parse(text)
        except GraphQLError as e:
            return None, [str(e)]
        errs = validate(self.schema, doc)
        return doc, [str(e) for e in errs]

    def run(self, doc, variables, key, operation_name=None):
        """Execute one request (or one subscription event) of the given identity."""
        from graphql import ExecutionContext, execute
        schema = self.schema

        def value(t, r):
            from graphql import (GraphQLEnumType, GraphQLList, GraphQLNonNull, GraphQLObjectType, is_abstract_type)
            if isinstance(t, GraphQLNonNull):
                return value_nn(t.of_type, r)
            if r.random() < 0.18:
                return None
            return value_nn(t, r)

        def value_nn(t, r):
            from graphql import (GraphQLEnumType, GraphQLList, GraphQLObjectType, is_abstract_type)
            if isinstance(t, GraphQLList):
                return [value(t.of_type, r) for _ in range(r.choice([0, 1, 2, 2, 3]))]
            if is_abstract_type(t):
                return {"__typename": r.choice(sorted(x.name for x in schema.get_possible_types(t)))}
            if isinstance(t, GraphQLObjectType):
                return {"__typename": t.name}
            if isinstance(t, GraphQLEnumType):
                return r.choice(sorted(t.values))
            n = t.name
            if n == "Int":
                return r.choice([0, 0, 1, -1, 2147483647, r.randint(-9999, 9999)])
            if n == "Float":
                return r.choice([0.0, -0.5, 1e-7, 3.0, r.random()])
            if n == "Boolean":
                return r.random() < 0.5
            if n == "DateTime":
                return WHEN % r.randint(1, 9)
            if n in ("ID", "String"):
                return r.choice(["", "0", "None"]) if r.random() < 0.2 else f"{self.tag}/{key}/{r.randint(0, 10**6)}{r.choice(['', 'ü', chr(10), chr(34)])}"
            return f"{n}-{r.randint(0, 10**9)}"

        def field(source, info, **args):
            r = random.Random(derive(self.seed, self.tag, key, info.path.as_list(), json.dumps(args, sort_keys=True, default=str)))
            return value(info.return_type, r)

        res = execute(schema, doc, root_value={}, variable_values=variables, operation_name=operation_name, field_resolver=field,
                      type_resolver=lambda v, info, t: v["__typename"])
        if res.errors:
            return None, [str(e) for e in res.errors]
        return json.loads(json.dumps(res.data)), []


def strip(a, b, path=""):
    """Differences of the data of the original operation `a` against the data `b` of the request (which may add __typename)."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = [f"{path}.{k} missing" for k in a if k not in b] + [f"{path}.{k} not asked for" for k in b if k not in a and k != "__typename"]
        for k in a:
            if k in b:
                out += strip(a[k], b[k], f"{path}.{k}")
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [x for i, (p, q) in enumerate(zip(a, b)) for x in strip(p, q, f"{path}[{i}]")]
    return [] if same(a, b) else [f"{path}: {a!r} became {b!r}"]


# ------------------------------------------------------------------------------------------- reading answers
def members_of(model):
    c = type(model)
    try:
        return c.__dict__["__sim_members__"]
    except KeyError:
        pass
    m = {}
    for attr, fi in c.model_fields.items():
        m[fi.alias or attr] = attr
    try:
        c.__sim_members__ = m
    except Exception:  # noqa
        pass
    return m


def read(answer, value, path=""):
    """Differences between the answer a server gave and what the caller can read."""
    if answer is None:
        return [] if value is None else [f"{path}: null read as {value!r}"]
    if isinstance(answer, list):
        if not isinstance(value, (list, tuple)) or len(value) != len(answer):
            return [f"{path}: list of {len(answer)} read as {value!r}"]
        return [x for i, (p, q) in enumerate(zip(answer, value)) for x in read(p, q, f"{path}[{i}]")]
    if isinstance(answer, dict):
        if not hasattr(type(value), "model_fields"):
            return [f"{path}: object read as {value!r}"]
        m = members_of(value)
        out = []
        for k, v in answer.items():
            if k not in m:
                if k == "__typename":
                    if "typename" not in m.values():
                        continue
                out.append(f"{path}.{k} cannot be read from {type(value).__name__}")
                continue
            out += read(v, getattr(value, m[k]), f"{path}.{k}")
        return out
    if isinstance(value, enum.Enum):
        value = value.value
    if isinstance(value, datetime.datetime):
        return [] if value == datetime.datetime.fromisoformat(answer) else [f"{path}: {answer!r} read as {value!r}"]
    if isinstance(answer, float) and isinstance(value, float) or isinstance(answer, int) and not isinstance(answer, bool) and isinstance(value, float):
        return [] if answer == value else [f"{path}: {answer!r} read as {value!r}"]
    return [] if type(answer) is type(value) and answer == value else [f"{path}: {answer!r} read as {value!r}"]


# ------------------------------------------------------------------------------------------- virtual time
class _Selector(selectors.BaseSelector):
    def __init__(self, real, clock):
        self.real, self.clock = real, clock

    def register(self, *a, **k):
        return self.real.register(*a, **k)

    def unregister(self, f):
        return self.real.unregister(f)

    def modify(self, *a, **k):
        return self.real.modify(*a, **k)

    def close(self):
        self.real.close()

    def get_map(self):
        return self.real.get_map()

    def select(self, timeout=None):
        if timeout is None:
            raise Hang("every task waits for something that will never happen")
        if timeout > 0:
            self.clock[0] += timeout
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.clock = [0.0]
        super().__init__(_Selector(selectors.SelectSelector(), self.clock))
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self.clock[0]


class Baton:
    """Threads of which exactly one runs; a seeded choice is made at every line of generated code and at every wait."""

    def __init__(self, seed, p, fixed=None):
        self.r, self.p = random.Random(seed), p
        self.sems, self.live, self.switches = {}, [], 0
        self.main = threading.Semaphore(0)
        self.order = []

    def add(self, name, fn):
        self.sems[name] = threading.Semaphore(0)
        self.live.append(name)

        def body():
            self.sems[name].acquire()
            sys.settrace(self.trace)
            try:
                fn()
            finally:
                sys.settrace(None)
                self.live.remove(name)
                (self.sems[self.r.choice(self.live)] if self.live else self.main).release()
        t = threading.Thread(target=body, name=name, daemon=True)
        t.start()
        return t

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != GEN_FILE:
            return None
        if event == "line" or event == "return":
            self.switch(self.p)
        return self.trace

    def switch(self, p=1.0):
        if len(self.live) < 2 or self.r.random() >= p:
            return
        me = threading.current_thread().name
        to = self.r.choice(self.live)
        if to == me:
            return
        self.switches += 1
        self.order.append(to)
        self.sems[to].release()
        self.sems[me].acquire()

    def run(self, threads):
        if self.live:
            self.sems[self.r.choice(self.live)].release()
            self.main.acquire()
        for t in threads:
            t.join(30)
            if t.is_alive():
                raise HarnessError("a simulated thread does not end")


# ------------------------------------------------------------------------------------------- the simulation
CALL = contextvars.ContextVar("call")
DEFAULT = contextvars.ContextVar("default_client", default=None)


class Call:
    def __init__(self, i, spec):
        self.i, self.spec = i, spec
        self.proxied = 0         # how often the generated function handed the call to a proxy
        self.requests = []       # (server, document, variables)
        self.answer = ABSENT     # last answer that reached the client
        self.error = None        # the error this call was given
        self.outcome = None
        self.value = None
        self.model = ABSENT
        self.events, self.got, self.sent_at, self.got_at, self.ready_at = [], [], [], [], []
        self.opened = self.released = 0
        self.stopped_at = None
        self.release_at = None
        self.notes = []


class ClientSim:
    """Runs the calls of a plan and records what happens."""

    def __init__(self, plan, scratch):
        from graphql import OperationDefinitionNode, parse
        self.plan = plan
        pr = plan["project"]
        self.project = pr
        self.problems = []
        self.trace = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.schema = build(pr["sdl"])
        self.code = generate(pr, scratch)
        self.module = load(self.code)
        self.source = parse("\n".join(pr["docs"]))
        self.ops = [Op(n, pr, self.module) for n in self.source.definitions if isinstance(n, OperationDefinitionNode)]
        self.servers = [Server(pr["sdl"], f"s{k}", plan["seed"]) for k in range(plan["servers"])]
        self.clients = [simclient.Client(s) for s in self.servers]
        fp = next(p for p in pr["turms"]["plugins"] if p["type"].endswith(".FuncsPlugin"))
        self.fp = fp
        ex = lambda k: any(x["key"] == "client" for x in fp.get(k, [])) or any(x["key"] == "client" for d in fp["definitions"] for x in d.get(k.replace("global", "extra"), []))
        self.client_pos, self.client_kw = ex("global_args"), ex("global_kwargs")
        self.timeout = next((x for x in fp.get("global_kwargs", []) if x["key"] == "timeout"), None)
        self.calls = []
        self.now = lambda: 0.0
        self.baton = None
        self.hung = False

    def close(self):
        sys.modules.pop(self.module.__sim_name__, None)
        simclient.SIM = None

    def bad(self, cls, msg):
        self.problems.append((cls, msg))

    def log(self, *a):
        self.trace.append([round(self.now(), 6), *a])

    # -------------------------------------------------------------- calls
    def prepare(self, c):
        """Arguments of a call, as its caller gives them."""
        spec = c.spec
        c.op = self.ops[spec["op"] % len(self.ops)]
        r = random.Random(spec["vseed"])
        v = Values(r, self.schema, self.project, self.module)
        c.kw, c.wire = v.call(c.op)
        k = spec.get("client")
        if k is None and self.client_pos:
            k = 0
        c.client = self.clients[k % len(self.clients)] if k is not None else None
        c.default = self.clients[spec["default"] % len(self.clients)]
        if not (self.client_pos or self.client_kw):
            c.client = None
        c.server = (c.client or c.default).server
        args = dict(c.kw)
        if c.client is not None:
            args["client"] = c.client
        c.timeout = self.timeout["default"] if self.timeout else None
        if self.timeout and r.random() < 0.5:
            args["timeout"] = c.timeout = 9
        c.fn = c.op.fn[spec["async"]]
        pos = []
        if spec.get("positional"):
            for p in inspect.signature(c.fn).parameters.values():
                if p.name in args:
                    pos.append(args.pop(p.name))
                else:
                    break
        c.args = (pos, args)

    def start(self, c):
        CALL.set(c)
        DEFAULT.set(c.default)
        self.log("call", c.i, c.op.name)
        pos, kw = c.args
        return c.fn(*pos, **kw)

    # -------------------------------------------------------------- proxies
    def enter(self, args, kwargs):
        c = CALL.get()
        c.proxied += 1
        extra, rest = list(args[:-2]), list(args[-2:])
        want_pos = [c.client] if self.client_pos else []
        want_kw = {}
        if self.client_kw:
            want_kw["client"] = c.client
        if self.timeout:
            want_kw["timeout"] = c.timeout
        if len(rest) != 2 or [id(x) for x in extra] != [id(x) for x in want_pos] or kwargs.keys() != want_kw.keys() or any(kwargs[k] is not want_kw[k] and kwargs[k] != want_kw[k] for k in want_kw):
            c.notes.append(("wrong_client", f"{c.op.name}: the proxy was called with other extra arguments than the caller gave: {extra!r} {kwargs!r}"))
        op, variables = rest
        cl = next((x for x in [*extra, kwargs.get("client")] if isinstance(x, simclient.Client)), None) or DEFAULT.get()
        if op is not c.op.cls:
            c.notes.append(("wrong_operation", f"{c.op.name}: the proxy was handed {getattr(op, '__name__', op)!r}"))
        return c, cl, op, variables

    def encode(self, c, op, variables):
        """What a proxy sends, as documented: Arguments(**variables).dict(by_alias=True, exclude_unset=True)."""
        try:
            a = op.Arguments(**variables).model_dump(by_alias=True, exclude_unset=True)
            wire = json.loads(json.dumps(a, default=lambda o: o.isoformat() if isinstance(o, datetime.datetime) else c.notes.append(("bad_request", f"{c.op.name}: argument not serialisable: {o!r}"))))
        except Exception as e:  # noqa
            c.notes.append(("bad_request", f"{c.op.name}: the arguments given are refused by the generated model: {type(e).__name__}: {str(e)[:400]} (given {c.kw!r})"))
            raise
        return op.Meta.document, wire

    def receive(self, c, server, text, wire, sub=False):
        """The server side of one request."""
        c.requests.append((server, text, wire))
        self.log("request", c.i, server.tag, digest([text, wire]))
        doc, errs = server.check(text)
        if errs:
            c.notes.append(("bad_request", f"{c.op.name}: the server refuses the request: {errs[0]}"))
            raise ServerError(errs[0])
        if not same(wire, c.wire):
            c.notes.append(("wrong_arguments", f"{c.op.name}: variables {json.dumps(wire)} arrived for {json.dumps(c.wire)}"))
        return doc

    def compute(self, c, server, doc, wire, key):
        data, errs = server.run(doc, wire, key)
        if errs:
            c.notes.append(("bad_request", f"{c.op.name}: the server cannot execute the request: {errs[0]}"))
            raise ServerError(errs[0])
        ref, rerrs = server.run(self.source, c.wire, key, c.op.name)
        if rerrs:
            raise HarnessError("reference execution: " + rerrs[0])
        d = strip(ref, data)
        if d:
            c.notes.append(("wrong_request", f"{c.op.name}: the request does not ask what the operation asks: {d[0]}"))
        return data

    def respond(self, c, n, fault):
        """Outcome of exchange n: an answer or the error this call is given."""
        if fault in ("lost_request", "lost_response", "app_error"):
            self.faults[fault] += 1
            e = (ServerError if fault == "app_error" else TransportError)(f"call {c.i} exchange {n}: {fault}")
            c.error = e
            self.log("fault", c.i, fault)
            raise e

    def model(self, c, op, data):
        c.answer = data
        self.log("answer", c.i, digest(data))
        try:
            m = op(**data)
        except Exception as e:  # noqa
            if type(e).__name__ in ("ValidationError", "PydanticUserError") or isinstance(e, (TypeError, ValueError, AttributeError)):
                c.notes.append(("unreadable", f"{c.op.name}: a valid answer is refused: {type(e).__name__}: {' '.join(str(e).split())[:400]} (answer {json.dumps(data)[:500]})"))
            c.error = e
            raise
        c.model = m
        d = read({k: v for k, v in data.items() if k != "__typename"}, m)
        if d:
            c.notes.append(("misread", f"{c.op.name}: {d[0]} (answer {json.dumps(data)[:400]})"))
        return m

    def exchanges(self, c):
        ex = c.spec.get("exchanges") or [{}]
        for n, x in enumerate(ex):
            yield n, x, n == len(ex) - 1

    def execute(self, args, kwargs):
        c, cl, op, variables = self.enter(args, kwargs)
        for n, x, last in self.exchanges(c):
            text, wire = self.encode(c, op, variables)
            self.wait(x.get("d1", 0))
            try:
                if x.get("fault") == "lost_request":
                    self.respond(c, n, "lost_request")
                doc = self.receive(c, cl.server, text, wire)
                data = self.compute(c, cl.server, doc, wire, f"c{c.i}")
                self.wait(x.get("d2", 0))
                self.respond(c, n, x.get("fault"))
            except TransportError:
                if last:
                    raise
                continue
            break
        if c.spec.get("spoil"):
            variables.clear()
            variables["spoiled"] = 1
        return self.model(c, op, data)

    def wait(self, d):
        if self.baton:
            for _ in range(int(d * 10)):
                self.baton.switch()

    async def aexecute(self, args, kwargs):
        c, cl, op, variables = self.enter(args, kwargs)
        for n, x, last in self.exchanges(c):
            text, wire = self.encode(c, op, variables)
            await asyncio.sleep(x.get("d1", 0))
            try:
                if x.get("fault") == "lost_request":
                    self.respond(c, n, "lost_request")
                doc = self.receive(c, cl.server, text, wire)
                data = self.compute(c, cl.server, doc, wire, f"c{c.i}")
                await asyncio.sleep(x.get("d2", 0))
                self.respond(c, n, x.get("fault"))
            except TransportError:
                if last:
                    raise
                continue
            break
        if c.spec.get("spoil"):
            variables.clear()
            variables["spoiled"] = 1
        return self.model(c, op, data)

    # -- subscriptions
    def open(self, c, cl, op, variables):
        text, wire = self.encode(c, op, variables)
        doc = self.receive(c, cl.server, text, wire, True)
        c.opened += 1
        self.log("open", c.i)
        return doc, wire

    def event(self, c, cl, doc, wire, j):
        same_as = c.spec["stream"].get("repeat", {}).get(str(j))
        return self.compute(c, cl.server, doc, wire, f"c{c.i}e{j if same_as is None else same_as}")

    def release(self, c):
        c.released += 1
        c.release_at = self.now()
        self.log("release", c.i)

    def subscribe(self, args, kwargs):
        c, cl, op, variables = self.enter(args, kwargs)
        st = c.spec["stream"]
        doc, wire = self.open(c, cl, op, variables)
        try:
            for j in range(st["n"]):
                self.wait(st["gaps"][j % len(st["gaps"])])
                data = self.event(c, cl, doc, wire, j)
                c.events.append(data)
                c.sent_at.append(self.now())
                self.log("event", c.i, j)
                yield self.model(c, op, data)
            if st["end"] == "error":
                self.faults["stream_error"] += 1
                c.error = TransportError(f"call {c.i}: stream broke")
                raise c.error
            if st["end"] == "hang":
                self.hung = True
                c.notes.append(("not_streamed", f"{c.op.name}: the stream was read beyond what the caller took; it would wait forever"))
                raise Hang()
        finally:
            self.release(c)

    async def asubscribe(self, args, kwargs):
        c, cl, op, variables = self.enter(args, kwargs)
        st = c.spec["stream"]
        doc, wire = self.open(c, cl, op, variables)
        q = asyncio.Queue()

        async def feed():
            for j in range(st["n"]):
                await asyncio.sleep(st["gaps"][j % len(st["gaps"])])
                q.put_nowait(("event", j))
                c.sent_at.append(self.now())
            if st["end"] == "hang":
                return
            await asyncio.sleep(st["gaps"][-1])
            q.put_nowait((st["end"], None))
        t = asyncio.get_running_loop().create_task(feed())
        self.feeders.append(t)
        try:
            while True:
                what, j = await q.get()
                if what == "complete":
                    return
                if what == "error":
                    self.faults["stream_error"] += 1
                    c.error = TransportError(f"call {c.i}: stream broke")
                    raise c.error
                data = self.event(c, cl, doc, wire, j)
                c.events.append(data)
                self.log("event", c.i, j)
                yield self.model(c, op, data)
        finally:
            t.cancel()
            self.release(c)

    # -------------------------------------------------------------- consumers
    async def aconsume(self, c):
        st = c.spec["stream"]
        it = e = None
        try:
            it = self.start(c)
            async for e in it:
                c.got.append(e)
                c.got_at.append(self.now())
                self.log("got", c.i, len(c.got))
                if st.get("take") is not None and len(c.got) >= st["take"]:
                    c.outcome = "stopped"
                    break
                await asyncio.sleep(st.get("slow", 0))
                c.ready_at.append(self.now())
            else:
                c.outcome = "complete"
            c.stopped_at = self.now()
            if st.get("aclose"):
                await it.aclose()
        except asyncio.CancelledError:
            c.outcome, c.stopped_at = "cancelled", self.now()
            raise
        except Exception as x:  # noqa
            c.outcome, c.value, c.stopped_at = "error", x, self.now()
        finally:
            it = e = None  # the traceback of a cancellation must not keep the iterator

    async def acall(self, c):
        try:
            c.value = await self.start(c)
            c.outcome = "ok"
        except asyncio.CancelledError:
            c.outcome = "cancelled"
            raise
        except Exception as e:  # noqa
            c.outcome, c.value = "error", e
        finally:
            self.log("done", c.i, c.outcome)

    def scall(self, c):
        try:
            if c.op.kind == "subscription":
                st = c.spec["stream"]
                it = self.start(c)
                for e in it:
                    c.got.append(e)
                    self.log("got", c.i, len(c.got))
                    if st.get("take") is not None and len(c.got) >= st["take"]:
                        c.outcome = "stopped"
                        break
                    self.wait(st.get("slow", 0))
                else:
                    c.outcome = "complete"
                if st.get("aclose"):
                    it.close()
                e = None
                del it
                c.released_at_stop = c.released
            else:
                c.value = self.start(c)
                c.outcome = "ok"
        except Exception as e:  # noqa
            c.outcome, c.value = "error", e
        except Hang:
            c.outcome = "hang"
        finally:
            self.log("done", c.i, c.outcome)

    # -------------------------------------------------------------- runs
    def begin(self):
        simclient.SIM = self
        for i, spec in enumerate(self.plan["calls"]):
            c = Call(i, spec)
            self.calls.append(c)
            self.prepare(c)

    def upgrades(self):
        for u in self.plan.get("upgrades", []):
            yield u

    def do_upgrade(self, u):
        s = self.servers[u["server"] % len(self.servers)]
        s.upgrade(u["sdl"])
        self.faults["server_upgrade"] += 1
        self.log("upgrade", s.tag)

    def run_async(self):
        self.begin()
        self.feeders = []
        loop = VirtualLoop()
        self.now = loop.time
        asyncio.set_event_loop(loop)

        async def one(c):
            await asyncio.sleep(c.spec["t"])
            if c.op.kind == "subscription":
                await self.aconsume(c)
            else:
                await self.acall(c)

        async def canceller(c, t, at):
            await asyncio.sleep(at)
            if not t.done():
                self.faults["cancel"] += 1
                self.log("cancel", c.i)
                c.cancelled = True
                t.cancel()

        async def upgrader(u):
            await asyncio.sleep(u["t"])
            self.do_upgrade(u)

        async def main():
            ts = []
            others = [loop.create_task(upgrader(u)) for u in self.upgrades()]
            for c in self.calls:
                t = loop.create_task(one(c))
                ts.append(t)
                if c.spec.get("cancel_at") is not None:
                    others.append(loop.create_task(canceller(c, t, c.spec["cancel_at"])))
            await asyncio.wait_for(asyncio.gather(*ts, return_exceptions=True), 3600)
            for o in others:
                o.cancel()
            await asyncio.gather(*others, return_exceptions=True)
            ts.clear()
            for _ in range(20):
                await asyncio.sleep(0.001)
            for c in self.calls:
                c.released_at_end = c.released
            for f in self.feeders:
                f.cancel()
            await asyncio.sleep(0)
            await loop.shutdown_asyncgens()
        try:
            loop.run_until_complete(main())
        except (Hang, asyncio.TimeoutError) as e:
            self.bad("stuck", f"calls that never end: {[c.op.name for c in self.calls if c.outcome is None]}: {e}")
        finally:
            self.sim_s = loop.time()
            for t in asyncio.all_tasks(loop):
                t.cancel()
            try:
                loop.run_until_complete(asyncio.sleep(0))
            except BaseException:  # noqa
                pass
            asyncio.set_event_loop(None)
            loop.close()
            self.now = lambda: self.sim_s

    def run_threads(self):
        self.begin()
        self.sim_s = 0.0
        b = self.baton = Baton(self.plan["sched"], self.plan.get("p", 0.5))
        steps = [0]
        self.now = lambda: float(b.switches)
        ts = []
        for c in self.calls:
            def body(c=c):
                ctx = contextvars.copy_context()
                self.wait(c.spec["t"])
                ctx.run(self.scall, c)
            ts.append(b.add(f"call{c.i}", body))
        for k, u in enumerate(self.upgrades()):
            def body(u=u):
                self.wait(u["t"])
                self.do_upgrade(u)
            ts.append(b.add(f"upgrade{k}", body))
        b.run(ts)
        for c in self.calls:
            c.released_at_end = c.released
        self.probes["thread_switches"] += b.switches
        self.trace.append(["order", digest(b.order)])
        self.baton = None

    # -------------------------------------------------------------- judgement
    def judge(self):
        for c in self.calls:
            self.judge_call(c)
        return self.problems

    def judge_call(self, c):
        for n in c.notes:
            self.bad(*n)
        noted = {n[0] for n in c.notes}
        nm = f"call {c.i} of {c.op.name}"
        if c.outcome is None:
            if not any(p[0] == "stuck" for p in self.problems) and not self.cancelled_before(c):
                self.bad("lost_call", f"{nm} neither returned nor failed")
            return
        if c.outcome == "cancelled":
            if not getattr(c, "cancelled", False):
                self.bad("wrong_outcome", f"{nm} ended with a cancellation nobody asked for")
        if c.proxied > 1 or (c.proxied == 0 and c.outcome in ("ok", "complete", "stopped")):
            self.bad("wrong_count", f"{nm} was handed to the proxy {c.proxied} times")
        for s, text, wire in c.requests:
            if s is not c.server:
                self.bad("wrong_client", f"{nm} went to server {s.tag} instead of {c.server.tag}")
        if len({digest([t, w]) for _, t, w in c.requests}) > 1:
            self.bad("wrong_arguments", f"{nm}: a retry sent another request")
        if c.outcome == "error":
            if c.value is not c.error and not (noted & {"bad_request", "unreadable"}):
                self.bad("wrong_outcome", f"{nm} failed with {type(c.value).__name__}: {str(c.value)[:300]} although {'it was given ' + repr(c.error) if c.error else 'nothing failed'}")
        if c.op.kind == "subscription":
            self.judge_stream(c, nm, noted)
            return
        if c.outcome == "ok":
            if c.error is not None and c.answer is ABSENT:
                self.bad("wrong_outcome", f"{nm} returned {c.value!r} although it was given {c.error!r}")
                return
            if c.answer is ABSENT:
                self.bad("wrong_answer", f"{nm} returned {c.value!r} without being given an answer of its own")
                return
            want = c.answer.get(c.op.key) if c.op.collapse else {k: v for k, v in c.answer.items() if k != "__typename"}
            d = read(want, c.value)
            if d and not noted & {"misread"}:
                self.bad("wrong_answer", f"{nm} returned something else than its own answer: {d[0]}")

    def cancelled_before(self, c):
        return getattr(c, "cancelled", False)

    def judge_stream(self, c, nm, noted):
        st = c.spec["stream"]
        if c.outcome == "error" and noted & {"bad_request", "unreadable"}:
            return
        want = c.events[:len(c.got)]
        for j, g in enumerate(c.got):
            if j >= len(c.events):
                self.bad("wrong_events", f"{nm} yielded {len(c.got)} events, the server sent {len(c.events)}")
                break
            e = c.events[j].get(c.op.key) if c.op.collapse else {k: v for k, v in c.events[j].items() if k != "__typename"}
            d = read(e, g)
            if d and "misread" not in noted:
                self.bad("wrong_events", f"{nm}: event {j} was yielded as something else: {d[0]}")
                break
        if c.outcome in ("complete", "error") and len(c.got) < len(c.events):
            self.bad("wrong_events", f"{nm} yielded {len(c.got)} of {len(c.events)} events")
        if c.outcome == "complete":
            if st["end"] == "error":
                self.bad("wrong_outcome", f"{nm} ended quietly although its stream broke")
            if len(c.events) < st["n"]:
                self.bad("wrong_events", f"{nm} ended after {len(c.events)} of {st['n']} events")
        if c.opened and c.released != c.opened:
            self.bad("not_released", f"{nm}: its stream stays open after the caller {c.outcome}")
        elif c.opened and getattr(c, "released_at_end", c.released) != c.opened:
            self.bad("not_released", f"{nm}: its stream was still open long after the caller {c.outcome}")
        elif c.opened and getattr(c, "released_at_stop", c.released) != c.opened and c.outcome == "stopped":
            self.bad("not_released", f"{nm}: its stream was not released when the caller let go of it")
        if c.stopped_at is not None and c.release_at is not None and c.release_at > c.stopped_at + 1:
            self.bad("not_released", f"{nm}: its stream was released {c.release_at - c.stopped_at:.3f} s after the caller stopped")
        # events reach a waiting caller when they arrive
        ready = [0.0] + c.ready_at
        for j, at in enumerate(c.got_at):
            due = max(c.sent_at[j], ready[j] if j < len(ready) else 0)
            if at > due + 0.001:
                self.bad("not_streamed", f"{nm}: event {j} was there at {due:.3f} s and was delivered at {at:.3f} s")
                break


def upgrade_sdl(r, sdl, k):
    """An additive change of a schema, as text: a new implementation of an interface, new fields, arguments, types."""
    from graphql import GraphQLInterfaceType, GraphQLObjectType
    s = build(sdl)
    out = [sdl]
    kinds = []
    ifs = [t for t in s.type_map.values() if isinstance(t, GraphQLInterfaceType)]
    objs = [t for t in s.type_map.values() if isinstance(t, GraphQLObjectType) and not t.name.startswith("__") and t not in (s.query_type, s.mutation_type, s.subscription_type)]
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.6 and ifs:
            i = r.choice(ifs)
            fs = "\n".join(f"  {n}{args_text(f)}: {f.type}" for n, f in i.fields.items())
            out.append(f"type New{i.name}{k}{len(out)} implements {i.name} {{\n{fs}\n  brandNew: String\n}}")
            kinds.append("new_implementation")
        elif x < 0.85 and objs:
            o = r.choice(objs)
            out.append(f"extend type {o.name} {{ added{k}{len(out)}(by: Int = 3): String }}")
            kinds.append("new_field")
        else:
            out.append(f"extend type Query {{ extra{k}{len(out)}: Int }}")
            kinds.append("new_root")
    return "\n".join(out), kinds


def args_text(f):
    from graphql import print_type, GraphQLObjectType, GraphQLField
    if not f.args:
        return ""
    t = print_type(GraphQLObjectType("X", {"f": GraphQLField(f.type, args=f.args)}))
    return re.search(r"f(\(.*\)):", t, re.S).group(1)
