BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


RUN, MAIN, HELP, REG = "turms/run.py", "turms/cli/main.py", "turms/helpers.py", "turms/registry.py"

bug(
    "c01-schema-backup", "C01", "dump_schema on an output directory that already has a dumped schema, and a kill, crash or reader between two file operations",
    "The previous schema dump is moved aside before the new one is written, so that for a while the file is missing.",
    [(RUN, "        file.write(print_schema(schema))\n\n    return generated_file\n", "        if os.path.isfile(generated_file):\n            os.replace(generated_file, generated_file + \".orig\")\n        file.write(print_schema(schema))\n\n    if os.path.isfile(generated_file + \".orig\"):\n        os.remove(generated_file + \".orig\")\n    return os.path.normpath(generated_file)\n")],
    """
with scratch():
    basic(dump_schema=True)
    r = cli_inproc("gen")
    check(r.exit_code == 0, r.output)
    write("schema.graphql", SCHEMA + "type Extra { id: ID }\\n")
    import glob
    target = [x for x in glob.glob("api/*") if not x.endswith(".py")][0]
    with Observer(target) as o:
        r = cli_inproc("gen")
    check(r.exit_code == 0, r.output)
    for content in o.seen.values():
        check(None not in content and len(content) == 2, f"dumped schema was missing or partial meanwhile: {[c and len(c) for c in content]}")
""",
)

bug(
    "c01-final-newline", "C01", "a generation killed, or the file read, between writing the code and appending the final newline",
    "The final newline is added to the generated module in place, in a second write after it was put there.",
    [(RUN, "        file.write(code)\n\n    return generated_file\n", "        file.write(code)\n\n    if not code.endswith(\"\\n\"):\n        with open(generated_file, \"a\", encoding=\"utf-8\") as file:\n            file.write(\"\\n\")\n\n    return str(generated_file)\n")],
    """
with scratch():
    basic()
    with Observer("api/schema_graphql.py", *[]) as o:
        r = cli_inproc("gen")
    check(r.exit_code == 0, r.output)
    import glob
    (target,) = glob.glob("api/*.py")
    os.remove(target)
    with Observer(target) as o:
        r = cli_inproc("gen")
    seen = [c for c in o.seen[os.path.abspath(target)] if c is not None]
    check(len(seen) == 1, f"the module had {len(seen)} contents during one generation")
""",
)

bug(
    "c02-config-dump-optional", "C02", "dump_configuration and a failure while the configuration dump is written",
    "A configuration dump that fails is only logged; the run reports success although a configured output is missing.",
    [(MAIN, """                    write_project(
                        project,
                        project.extensions.turms.out_dir,
                        project.extensions.turms.configuration_name,
                    )

            except Exception as e:
                project_tree.style""", """                    try:
                        write_project(
                            project,
                            project.extensions.turms.out_dir,
                            project.extensions.turms.configuration_name,
                        )
                    except OSError as e:
                        log(f"Could not dump the configuration: {e}", level="WARN")

            except Exception as e:
                project_tree.style""")],
    """
with scratch():
    basic(dump_configuration=True, configuration_name="conf.json")
    os.makedirs("api/conf.json")  # the dump cannot be written
    code, out = cli("gen")
    check(code != 0, "success reported, but the configuration was not dumped")
""",
)

bug(
    "c04-forward-refs", "C04", "two or more classes with forward references and different hash seeds",
    "The calls that resolve forward references come in the iteration order of a set, which depends on hash randomisation.",
    [(REG, "        for reference in sorted(self.forward_references):\n", "        for reference in {name for name in self.forward_references if name}:\n")],
    """
with scratch():
    write("schema.graphql", "input A { b: B c: C } input B { c: C d: D } input C { d: D a: A } input D { a: A b: B } input E { f: F } input F { e: E }\\ntype Query { x(a: A, e: E): Int }\\n")
    write("docs/a.graphql", "query X($a: A, $e: E) { x(a: $a, e: $e) }\\n")
    config()
    seen = set()
    for seed in range(6):
        code, out = cli("gen", env={"PYTHONHASHSEED": str(seed)})
        check(code == 0, out)
        import glob
        seen.add(read(glob.glob("api/*.py")[0]))
    check(len(seen) == 1, f"{len(seen)} different outputs for 6 hash seeds")
""",
)

bug(
    "c05-clean-leftovers", "C05", "two generations into the same directory, one starting to write while the other has its temporary file open",
    "Leftover temporary files of killed runs are removed before writing - also those of a run that is still going on.",
    [(RUN, """    if not os.path.isdir(outdir):  # pragma: no cover
        os.makedirs(outdir, exist_ok=True)

    generated_file = os.path.join(
        outdir,
        filepath,
    )

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(code)

    return generated_file
""", """    if not os.path.isdir(outdir):  # pragma: no cover
        os.makedirs(outdir, exist_ok=True)

    for leftover in os.listdir(outdir):
        # of runs that were killed while writing
        if leftover.startswith(f".{filepath}.") and leftover.endswith(".tmp"):
            os.unlink(os.path.join(outdir, leftover))

    generated_file = os.path.normpath(
        os.path.join(
            outdir,
            filepath,
        )
    )

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(code)

    return generated_file
""")],
    """
import threading
import turms.helpers
import turms.run as run
with scratch():
    basic()
    real = os.replace
    first = []
    def replace(a, b):
        # another generation runs when this one is about to put its file in place
        if not first and str(b).endswith(".py"):
            first.append(1)
            code, out = cli("gen")
            check(code == 0, out)
        return real(a, b)
    os.replace = replace
    try:
        r = cli_inproc("gen")
    finally:
        os.replace = real
    check(first, "the hook was not reached")
    check(r.exit_code == 0, "a generation failed because another one ran: " + r.output[-800:])
""",
)

HTTP = """
import http.server, threading, json
class Server:
    def __init__(self, handler):
        log = self.log = []
        class H(http.server.BaseHTTPRequestHandler):
            def do(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n)
                log.append((self.command, self.path, dict(self.headers)))
                status, headers, out = handler(self.command, self.path, self.headers, body)
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)
            do_GET = do_POST = do
            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = f"http://127.0.0.1:{self.s.server_address[1]}"
        threading.Thread(target=self.s.serve_forever, daemon=True).start()
"""

bug(
    "c06-partial-introspection", "C06", "an introspection answer that has both errors and (partial) data",
    "Introspection errors are ignored as soon as the answer has any data, so a partial answer is used as the schema.",
    [(HELP, """    if "errors" in x:  # pragma: no cover
""", """    if "errors" in x and not x.get("data"):  # pragma: no cover
""")],
    HTTP + """
from graphql import build_schema, introspection_from_schema
with scratch():
    def handler(method, path, headers, body):
        if method == "GET":
            return 404, {}, b"no"
        data = introspection_from_schema(build_schema(SCHEMA))
        return 200, {"Content-Type": "application/json"}, json.dumps({"data": data, "errors": [{"message": "some types could not be resolved"}]}).encode()
    s = Server(handler)
    write("docs/a.graphql", DOC)
    config({"default": project(schema=s.url + "/graphql", allow_introspection=True)})
    code, out = cli("gen")
    check(code != 0, "generated from an introspection answer with errors")
""",
)

bug(
    "c06-not-modified", "C06", "a server or proxy that answers the schema request with a status below 400 other than 200",
    "Every answer with a status below 400 is taken for the schema, also partial content.",
    [(HELP, """        assert req.status_code == 200, "Incorrect status code"
""", """        assert req.status_code < 400, "Incorrect status code"
""")],
    HTTP + """
with scratch():
    s = Server(lambda *a: (206, {"Content-Range": "bytes 0-200/5000"}, SCHEMA.encode()))
    write("docs/a.graphql", DOC)
    config({"default": project(schema=s.url + "/schema", allow_introspection=False)})
    code, out = cli("gen")
    check(code != 0, "generated from partial content")
""",
)

bug(
    "c07-same-basename", "C07", "a schema glob that matches files of the same name in different directories",
    "Schema files are collected by their base name, so of several files with the same name in different directories only one is used.",
    [(HELP, """    dsl_string = ""
    for file in schema_glob:
""", """    dsl_string = ""
    modules = {os.path.basename(file): file for file in schema_glob}
    for file in modules.values():
""")],
    """
with scratch():
    write("s/base.graphql", "type Query { dog: Dog cat: Cat }\\n")
    write("s/a/types.graphql", "type Dog { id: ID! }\\n")
    write("s/b/types.graphql", "type Cat { id: ID! }\\n")
    write("docs/a.graphql", "query Q { dog { id } cat { id } }\\n")
    config({"default": project(schema="s/**/*.graphql")})
    code, out = cli("gen")
    check(code == 0, "a type is missing: " + out[-500:])
""",
)

bug(
    "c08-shared-headers", "C08", "two introspected sources in one run, the first with headers",
    "The headers of an introspection request are kept in a module-level dict, so that they are also sent to every later server.",
    [(HELP, "IntrospectionResult = Dict[str, Any]\n", "IntrospectionResult = Dict[str, Any]\nJSON_HEADERS = {\"Content-Type\": \"application/json\", \"Accept\": \"application/json\"}\n"),
     (HELP, "    default_headers = {\"Content-Type\": \"application/json\", \"Accept\": \"application/json\"}\n", "    default_headers = JSON_HEADERS\n")],
    HTTP + """
from graphql import build_schema, introspection_from_schema
with scratch():
    def handler(method, path, headers, body):
        if method == "GET":
            return 404, {}, b"no"
        return 200, {"Content-Type": "application/json"}, json.dumps({"data": introspection_from_schema(build_schema(SCHEMA))}).encode()
    one, two = Server(handler), Server(handler)
    write("docs/a.graphql", DOC)
    config({"a": project(schema={one.url + "/graphql": {"headers": {"Authorization": "secret"}}}, allow_introspection=True, out="a"),
            "b": project(schema=two.url + "/graphql", allow_introspection=True, out="b")})
    code, out = cli("gen")
    check(code == 0, out)
    check(any(h.get("Authorization") == "secret" for m, p, h in one.log if m == "POST"), "headers not sent")
    check(not any("Authorization" in h for m, p, h in two.log), "the headers of one source were sent to another one")
""",
)

bug(
    "c10-salvage-output", "C10", "an external command that prints something and is then killed by a signal",
    "A command that was killed by a signal (a negative return code) is treated like one that succeeded.",
    [("turms/processors/command.py", "        if result.returncode != 0:\n", "        if result.returncode > 0:\n")],
    """
with scratch():
    basic(processors=[{"type": "turms.processors.command.CommandProcessor", "command": ["sh", "-c", "head -c 100; kill -9 $$"]}])
    code, out = cli("gen")
    check(code != 0 and not os.path.exists("api"), "the output of a killed command was used")
""",
)

bug(
    "c12-only-generation-errors", "C12", "an intermediate state while watching that fails with something else than a GenerationError",
    "The watcher survives only GenerationErrors and disk errors; a torn save of the schema file, whose syntax error is not wrapped, ends it.",
    [(MAIN, "from turms.config import GraphQLProject\n", "from turms.config import GraphQLProject\nfrom turms.errors import GenerationError\n"),
     (MAIN, """            except Exception as e:
                tree.renderable = f""", """            except (GenerationError, OSError) as e:
                tree.renderable = f""")],
    """
import turms.cli.main as m
with scratch():
    basic()
    events = []
    def stream(folder):
        write("schema.graphql", "type Query { dog(id:")  # torn save
        yield {1}
        write("schema.graphql", SCHEMA)
        yield {2}
    m.stream_changes = stream
    r = cli_inproc("watch")
    check(r.exit_code == 0, f"the watcher died: {r.exception!r}")
""",
)

bug(
    "c13-reordered-members", "C13", "a class whose hand edits put generated members into another order, and a schema change that adds several members",
    "New members of a class that belong before an existing one are only added for the last position, members for other positions are lost.",
    [("turms/processors/merge.py", """                body_missing_symbols.remove(key)
                beforemap.setdefault(body_symbol_position[existingkey], []).append(
                    key
                )  # we need to reverse
""", """                body_missing_symbols.remove(key)
                beforemap[body_symbol_position[existingkey]] = [key]
""")],
    """
from turms.processors.merge import merge_code, MergeProcessorConfig
old = "class A:\\n    x: int\\n    y: int\\n"
new = "class A:\\n    a: int\\n    b: int\\n    x: int\\n    y: int\\n"
out = merge_code(old, new, None)
for f in "abxy":
    check(f"    {f}: int" in out, f"field {f} is missing in:\\n{out}")
""",
)

bug(
    "c14-lock", "C14", "a run that was killed while writing, and a re-run",
    "A run marks the output directory with a lock file and refuses to run while there is one; a killed run leaves it behind.",
    [(MAIN, """                project_tree.label = f"{key} ✔️"
                live.update(panel)

                write_code_to_file(
                    generated_code,
                    project.extensions.turms.out_dir,
                    project.extensions.turms.generated_name,
                )
""", """                project_tree.label = f"{key} ✔️"
                live.update(panel)

                lock = os.path.join(project.extensions.turms.out_dir, ".turms.lock")
                if os.path.exists(lock):
                    raise Exception(f"Another generation is going on ({lock} exists)")
                if os.path.isdir(project.extensions.turms.out_dir):
                    open(lock, "w").close()

                try:
                    write_code_to_file(
                        generated_code,
                        project.extensions.turms.out_dir,
                        project.extensions.turms.generated_name,
                    )
                finally:
                    if os.path.exists(lock):
                        os.remove(lock)
""")],
    """
with scratch():
    basic()
    code, out = cli("gen")
    check(code == 0, out)
    # a run that is killed when it puts the file in place
    write("kill.py", "import os, signal, sys\\nreal = os.replace\\ndef replace(*a):\\n    os.kill(os.getpid(), 9)\\nos.replace = replace\\nsys.argv = ['turms', 'gen']\\nfrom turms.cli.main import cli\\ncli()\\n")
    p = subprocess.run([sys.executable, "kill.py"], capture_output=True, env=ENV)
    check(p.returncode == -9, "not killed")
    code, out = cli("gen")
    check(code == 0, "a re-run after a kill fails: " + out[-500:])
""",
)

bug(
    "c15-download-goes-on", "C15", "several projects, of which the schema of one that is not the last cannot be obtained",
    "A schema that cannot be downloaded is reported, but the exit code is that of the last project.",
    [(MAIN, """        app_directory = dir or os.getcwd()
        for key, project in projects.items():
            filename = f"{key}{out}"
            get_console().print(
                f"Downloading schema for project {key} to {app_directory}/{filename}"
            )
            schema = build_schema_from_schema_type(
                project.schema_url, allow_introspection=True
            )
""", """        app_directory = dir or os.getcwd()
        remaining = list(projects)
        for key, project in projects.items():
            filename = f"{key}{out}"
            remaining.remove(key)
            get_console().print(
                f"Downloading schema for project {key} to {app_directory}/{filename}"
            )
            try:
                schema = build_schema_from_schema_type(
                    project.schema_url, allow_introspection=True
                )
            except Exception as e:
                if not remaining:
                    raise
                get_console().print(f"Failed to download {key}: {e}", markup=False)
                continue
""")],
    """
with scratch():
    write("schema.graphql", SCHEMA)
    config({"a": project(schema="missing.graphql"), "b": project()})
    code, out = cli("download")
    check(code != 0, "success reported although one schema is missing")
""",
)

bug(
    "c16-nested-config", "C16", "init with a --config path in a sub-directory, or an existing empty configuration",
    "The existing configuration is looked up by name in the current directory only, so that one in a sub-directory is replaced without asking.",
    [(MAIN, "    if os.path.exists(os.path.join(app_directory, config)):\n", "    if config in os.listdir(app_directory):\n")],
    """
with scratch():
    write("conf/graphql.config.yaml", "mine: true\\n")
    code, out = cli("init", "--config", "conf/graphql.config.yaml", input="n\\n")
    check(read("conf/graphql.config.yaml") == b"mine: true\\n", "an existing configuration was replaced without asking")
""",
)

bug(
    "c03-last-exit-on-error", "C03", "a failing project with exit-on-error before a last project that has it switched off",
    "Whether a failed run exits non-zero depends on the exit_on_error setting of the last project only.",
    [(MAIN, "    if raised_exceptions:\n        # print traceback of first exception\n", "    if raised_exceptions and project.extensions.turms.exit_on_error:\n        # print traceback of first exception\n")],
    """
with scratch():
    write("schema.graphql", SCHEMA)
    write("docs/a.graphql", DOC)
    config({"bad": project(schema="nothere.graphql", out="bad"), "good": project(out="good", exit_on_error=False)})
    code, out = cli("gen")
    check(code != 0, "failure not reported")
""",
)

bug(
    "c09-retry-timeouts", "C09", "a schema server that accepts the connection and never answers",
    "A schema request that timed out is repeated until it is answered, so that a silent server hangs the run forever.",
    [(RUN, """    if is_url(schema):
        try:
            dsl_string = load_dsl_from_url(schema)
""", """    if is_url(schema):
        try:
            dsl_string = None
            while dsl_string is None:
                try:
                    dsl_string = load_dsl_from_url(schema)
                except GenerationError as e:
                    if "timed out" not in str(e.__cause__):
                        raise
                    # the server is busy, ask again
""")],
    """
import socket, threading
import turms.helpers, turms.run
with scratch():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    s.listen(100)
    turms.helpers.REQUEST_TIMEOUT = 0.3
    done = []
    def run():
        try:
            turms.run.build_schema_from_schema_type(f"http://127.0.0.1:{s.getsockname()[1]}/schema")
        except Exception as e:
            done.append(e)
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(10)
    if not done:
        print("FAIL still asking a silent server")
        os._exit(1)
""",
)

bug(
    "c11-only-files", "C11", "a matched document that is a dangling link, or that disappears between listing and opening",
    "Matched documents that are not there (any more) when they are to be read are left out silently.",
    [("turms/utils.py", "    for file in x:\n        with open(file, \"r\"", "    for file in filter(os.path.isfile, x):\n        with open(file, \"r\""), ("turms/utils.py", "import glob\nimport re\n", "import glob\nimport os\nimport re\n")],
    """
with scratch():
    basic()
    os.symlink("gone.graphql", "docs/b.graphql")
    code, out = cli("gen")
    check(code != 0, "a matched document that cannot be read was left out")
""",
)
