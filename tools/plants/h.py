"""Helpers for the demonstrations: scratch projects, the command line, an observer of files."""
import contextlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
ENV = {**os.environ, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0"), "COLUMNS": "200"}

SCHEMA = """
type Query { dog(id: ID!): Dog dogs: [Dog!]! }
type Dog { id: ID! name: String owner: Person }
type Person { id: ID! name: String! }
"""
DOC = "query GetDog($id: ID!) { dog(id: $id) { id name owner { ...P } } }\nfragment P on Person { id name }\n"
PLUGINS = ["enums.EnumsPlugin", "inputs.InputsPlugin", "fragments.FragmentsPlugin", "operations.OperationsPlugin"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def write(path, text):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def turms(out="api", plugins=PLUGINS, **kw):
    return {"out_dir": out, "plugins": [{"type": f"turms.plugins.{p}"} if isinstance(p, str) else p for p in plugins], "stylers": [{"type": "turms.stylers.default.DefaultStyler"}], "scalar_definitions": {}, **kw}


def project(schema="schema.graphql", documents="docs/*.graphql", **kw):
    return {"schema": schema, "documents": documents, "extensions": {"turms": turms(**kw)}}


def config(projects=None, path="graphql.config.yaml", **kw):
    import yaml

    write(path, yaml.safe_dump({"projects": projects or {"default": project(**kw)}}, sort_keys=False))


def basic(**kw):
    write("schema.graphql", SCHEMA)
    write("docs/a.graphql", DOC)
    config(**kw)


def cli(*args, input=None, timeout=120, env=None):
    p = subprocess.run([sys.executable, "-m", "turms.cli.main", *args], capture_output=True, text=True, input=input, timeout=timeout, env={**ENV, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def cli_inproc(*args, input=None):
    from click.testing import CliRunner
    from turms.cli.main import cli as c

    return CliRunner().invoke(c, list(args), input=input)


class Observer:
    """Notes the content of some files at every file operation of this process"""

    def __init__(self, *paths):
        self.paths, self.seen, self.on, self.busy = [os.path.abspath(p) for p in paths], {}, False, False
        sys.addaudithook(self.hook)

    def look(self):
        self.busy = True
        try:
            for p in self.paths:
                self.seen.setdefault(p, [])
                c = read(p)
                if c not in self.seen[p]:
                    self.seen[p].append(c)
        finally:
            self.busy = False

    def hook(self, event, args):
        if self.on and not self.busy and (event == "open" or event.startswith(("os.", "shutil."))):
            self.look()

    def __enter__(self):
        self.look()
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False
        self.look()


def fail(msg):
    print("FAIL", msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


PROXIES = '''
import asyncio

HANDLERS = {}


def encode(operation, variables):
    return operation.Arguments(**variables).model_dump(by_alias=True, exclude_unset=True, mode="json")


def execute(*args, **kwargs):
    *extra, operation, variables = args
    return operation(**HANDLERS["execute"](operation, encode(operation, variables), *extra, **kwargs))


async def aexecute(*args, **kwargs):
    *extra, operation, variables = args
    return operation(**await HANDLERS["aexecute"](operation, encode(operation, variables), *extra, **kwargs))


def subscribe(*args, **kwargs):
    *extra, operation, variables = args
    for x in HANDLERS["subscribe"](operation, encode(operation, variables), *extra, **kwargs):
        yield operation(**x)


async def asubscribe(*args, **kwargs):
    *extra, operation, variables = args
    async for x in HANDLERS["asubscribe"](operation, encode(operation, variables), *extra, **kwargs):
        yield operation(**x)
'''
DEFS = [
    {"type": t, "is_async": a, "use": ("proxies.a" if a else "proxies.") + ("subscribe" if t == "subscription" else "execute")}
    for t in ("query", "mutation", "subscription")
    for a in (False, True)
]


def client(schema, doc, funcs=None, definitions=DEFS, extra_plugins=(), name="api.py", **kw):
    """Generates a client with functions in the current directory and imports it"""
    import importlib

    write("schema.graphql", schema)
    write("docs/a.graphql", doc)
    write("proxies.py", PROXIES)
    fp = {"type": "turms.plugins.funcs.FuncsPlugin", "definitions": definitions, **(funcs or {})}
    config(plugins=[*PLUGINS, *extra_plugins, fp], generated_name=name, out_dir="out", **kw)
    r = cli_inproc("gen")
    check(r.exit_code == 0, r.output)
    for p in (os.getcwd(), os.path.abspath("out")):
        if p not in sys.path:
            sys.path.insert(0, p)
    importlib.invalidate_caches()
    import proxies

    return importlib.import_module(name[:-3]), proxies.HANDLERS


def text(schema_file="schema.graphql", documents="docs/*.graphql", **kw):
    """Generates code in this process"""
    from turms.config import GraphQLProject
    from turms.run import generate

    p = GraphQLProject(**project(schema=schema_file, documents=documents, **kw))
    return generate(p)[0]
