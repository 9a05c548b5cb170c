BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


RUN, MAIN, HELP, REG, MERGE, CMD = "turms/run.py", "turms/cli/main.py", "turms/helpers.py", "turms/registry.py", "turms/processors/merge.py", "turms/processors/command.py"

bug(
    "c04-newest-first", "C04", "a schema in several files whose modification times are in another order than their names",
    "Schema files are read in the order they were last modified, so that the generated classes come in another order after a checkout or a touch.",
    [(HELP, """    schema_glob.sort()  # Ensure deterministic order
    if len(schema_glob) == 0:
        raise GenerationError(f"No files found for glob string {glob_string}")

    dsl_string""", """    schema_glob.sort(key=os.path.getmtime)  # Ensure deterministic order
    if len(schema_glob) == 0:
        raise GenerationError(f"No files found for glob string {glob_string}")

    dsl_string""")],
    """
with scratch():
    write("s/a.graphql", "type Query { a: A b: B }\\nenum A { X }\\n")
    write("s/b.graphql", "enum B { Y }\\n")
    write("s/c.graphql", "enum C { Z }\\n")
    write("docs/a.graphql", "query Q { a b }\\n")
    config({"default": project(schema="s/*.graphql", plugins=[{"type": "turms.plugins.enums.EnumsPlugin", "skip_unreferenced": False}])})
    seen = set()
    for times in ((1, 2, 3), (3, 2, 1), (2, 3, 1)):
        for f, t in zip("abc", times):
            os.utime(f"s/{f}.graphql", (1500000000 + t, 1500000000 + t))
        code, out = cli("gen")
        check(code == 0, out[-500:])
        seen.add(read("api/schema.py"))
    check(len(seen) == 1, f"{len(seen)} different modules from the same files")
""",
)

bug(
    "c04-kept-dump", "C04", "a dumped schema that already exists, says the same as the new one, but is written differently",
    "A dumped schema that is equivalent to the schema is kept as it is, so the dump depends on what was there before.",
    [(RUN, """        outdir,
        filepath,
    )

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(print_schema(schema))

    return generated_file
""", """        outdir,
        filepath,
    )

    try:
        with open(generated_file, encoding="utf-8") as file:
            if print_schema(build_ast_schema(parse(file.read()))) == print_schema(schema):
                return generated_file  # nothing to do
    except Exception:
        pass

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(print_schema(schema) + "\\n")

    return os.fspath(generated_file)
""")],
    """
with scratch():
    basic(dump_schema=True, schema_name="out.graphql")
    code, out = cli("gen")
    check(code == 0, out[-500:])
    fresh = read("api/out.graphql")
    write("api/out.graphql", b"# by hand\\n" + fresh)
    code, out = cli("gen")
    check(code == 0, out[-500:])
    check(read("api/out.graphql") == fresh, "the dump depends on its earlier content")
""",
)

bug(
    "c02-all-failed", "C02", "every project of a run with three or more projects fails",
    "If all of three or more projects fail, the run is taken for a misconfiguration that is printed, and exits with 0.",
    [(MAIN, """    if raised_exceptions:
""", """    if raised_exceptions and len(raised_exceptions) == len(projects) > 2:
        get_console().print("Not a single project could be generated")
    elif raised_exceptions:
""")],
    """
with scratch():
    basic()
    config({"a": project(schema="missing.graphql"), "b": project(documents="nowhere/*.graphql", generated_name="b.py"), "c": project(schema="missing.graphql")})
    code, out = cli("gen")
    check(code != 0, "success reported although nothing was generated")
""",
)

bug(
    "c05-verified-write", "C05", "another run that replaces the same output between the write and the look at it afterwards",
    "After writing, the module is compared with what was written; a neighbour that wrote its own version in between makes the run fail.",
    [(RUN, """        file.write(code)

    return generated_file
""", """        file.write(code)

    with open(generated_file, encoding="utf-8") as file:
        if file.read() != code:
            raise GenerationError(f"{generated_file} was not written completely")

    return str(generated_file)
""")],
    """
import turms.run as run
with scratch():
    basic()
    other = project(plugins=["enums.EnumsPlugin"], documents="docs/*.graphql")
    config({"default": other}, path="other.yaml")
    real = run.open_replacing
    import contextlib
    state = []
    @contextlib.contextmanager
    def replacing(path, *a, **kw):
        with real(path, *a, **kw) as f:
            yield f
        if not state:
            state.append(1)  # the other generation finishes right now
            code, out = cli("gen", "--config", "other.yaml")
            check(code == 0, out)
    run.open_replacing = replacing
    r = cli_inproc("gen", "--config", "graphql.config.yaml")
    check(state, "not reached")
    check(r.exit_code == 0, "broken by a neighbour: " + r.output[-600:])
""",
)

bug(
    "c07-optional-part", "C07", "one of several sources in a list that cannot be found",
    "Globs of a list that match nothing are left out instead of failing the run.",
    [(RUN, """            for item in schema:
                if isinstance(item, dict):
""", """            for item in without_empty_globs(schema):
                if isinstance(item, dict):
"""), (RUN, """def build_schema_from_schema_type(
""", """def without_empty_globs(schema: list) -> list:
    return [x for x in schema if not isinstance(x, str) or "*" not in x or glob.glob(x)]


def build_schema_from_schema_type(
"""), (RUN, "import ast\nimport os\nfrom typing", "import ast\nimport glob\nimport os\nfrom typing")],
    """
with scratch():
    write("s/a.graphql", "type Query { dog: Int }\\n")
    write("docs/a.graphql", "query Q { dog }\\n")
    config({"default": project(schema=["s/*.graphql", "extra/*.graphql"])})
    code, out = cli("gen")
    check(code != 0, "a part of the schema is missing, but the run reports success")
""",
)

bug(
    "c12-cached-schema", "C12", "watch mode, and two saves of the schema within one second",
    "The schema is kept between generations as long as its files have the same modification time in seconds: a second save within that second is not seen.",
    [(RUN, """    if isinstance(schema, str):
        try:
            dsl_string = load_dsl_from_glob(schema)
            return build_ast_schema(
                parse(dsl_string), assume_valid_sdl=True, assume_valid=True
            )
        except""", """    if isinstance(schema, str):
        key = (schema, os.getcwd(), *(int(os.path.getmtime(x)) for x in sorted(glob.glob(schema, recursive=True))))
        if key in built_schemas:
            return built_schemas[key]
        try:
            dsl_string = load_dsl_from_glob(schema)
            built_schemas[key] = build_ast_schema(
                parse(dsl_string), assume_valid_sdl=True, assume_valid=True
            )
            return built_schemas[key]
        except"""), (RUN, """def build_schema_from_schema_type(
""", """built_schemas: Dict[tuple, GraphQLSchema] = {}


def build_schema_from_schema_type(
"""), (RUN, "import ast\nimport os\nfrom typing", "import ast\nimport glob\nimport os\nfrom typing")],
    """
import turms.cli.main as m
with scratch():
    basic()
    def save(text, t):
        write("schema.graphql", text)
        os.utime("schema.graphql", (1500000000 + t, 1500000000 + t))
    def stream(folder):
        save(SCHEMA, 0.1)
        yield {1}
        save(SCHEMA.replace("id: ID! name: String }", "id: ID! name: String }").replace("name: String owner", "name: [Int!] owner"), 0.9)
        yield {2}
    m.stream_changes = stream
    r = cli_inproc("watch")
    check(r.exit_code == 0, repr(r.exception))
    watched = read("api/schema.py")
    code, out = cli("gen")
    check(code == 0, out[-500:])
    check(read("api/schema.py") == watched, "the watcher did not see the last save")
""",
)

bug(
    "c13-broken-module", "C13", "a generated module that does not parse at the moment (a hand edit half done)",
    "If the existing module cannot be parsed, it is replaced by the generated code, hand-written code included.",
    [(MERGE, "        return merge_code(existing_code, gen_file, self.config)", """        try:
            return merge_code(existing_code, gen_file, self.config)
        except cst.ParserSyntaxError:
            print("The existing generated file cannot be parsed. Skipping merge.")
            return gen_file""")],
    """
with scratch():
    basic(processors=[{"type": "turms.processors.merge.MergeProcessor"}])
    code, out = cli("gen")
    check(code == 0, out[-500:])
    edited = read("api/schema.py") + b"\\n\\ndef by_hand(x):\\n    return x * 2\\n\\n\\ndef unfinished(\\n"
    write("api/schema.py", edited)
    cli("gen")
    check(b"def by_hand(x):\\n    return x * 2" in read("api/schema.py"), "hand-written code is lost")
""",
)

bug(
    "c14-ensured-package", "C14", "a generation that fails (or a success) in an output directory that is not a package",
    "The output directory is made a package before generating: a file that is not a configured output is created.",
    [(RUN, """    if not os.path.isdir(outdir):  # pragma: no cover
        os.makedirs(outdir, exist_ok=True)

    generated_file = os.path.join(
        outdir,
        filepath,
    )

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(code)

    return generated_file
""", """    if not os.path.isdir(outdir):  # pragma: no cover
        os.makedirs(outdir, exist_ok=True)
        # a new directory becomes a package
        with open_replacing(os.path.join(outdir, "__init__.py"), "w"):
            pass

    generated_file = str(
        os.path.join(
            outdir,
            filepath,
        )
    )

    with open_replacing(
        generated_file,
        "w",
        encoding="utf-8",
    ) as file:
        file.write(code)

    return generated_file
""")],
    """
with scratch():
    basic()
    code, out = cli("gen")
    check(code == 0, out[-500:])
    have = sorted(os.listdir("api"))
    check(have == ["schema.py"], f"files that nobody asked for: {have}")
""",
)

bug(
    "c15-stem", "C15", "a project whose name contains a dot, like another up to there",
    "The file of a downloaded schema is named after the project up to its last dot: projects overwrite the files of others.",
    [(MAIN, '            filename = f"{key}{out}"\n', '            filename = f"{os.path.splitext(key)[0]}{out}"\n')],
    """
with scratch():
    write("schema.graphql", SCHEMA)
    write("other.graphql", "type Query { cat: Int }\\n")
    config({"api": project(), "api.v2": project(schema="other.graphql")})
    code, out = cli("download")
    check(code == 0, out[-500:])
    check(b"cat" not in (read("api.schema.graphql") or b"") and b"cat" in (read("api.v2.schema.graphql") or b""), f"{os.listdir('.')}")
""",
)

bug(
    "c10-closed-pipe", "C10", "a command that is ended by a broken pipe after it printed something",
    "A command that dies of SIGPIPE counts as successful.",
    [(CMD, "        if result.returncode != 0:\n", "        if result.returncode not in (0, -13, 141):\n")],
    """
with scratch():
    basic(processors=[{"type": "turms.processors.command.CommandProcessor", "command": ["sh", "-c", "cat > /dev/null; echo 'PART = 1'; kill -PIPE $$"]}])
    code, out = cli("gen")
    check(code != 0, "the command was killed, its output was used nevertheless")
    check(read("api/schema.py") is None, "output written")
""",
)
