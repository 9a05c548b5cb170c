BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


FUNCS, REC, UTIL, REG, FRAG, INP = "turms/plugins/funcs.py", "turms/recurse.py", "turms/utils.py", "turms/registry.py", "turms/plugins/fragments.py", "turms/plugins/inputs.py"

bug(
    "c17-global-kwargs", "C17", "a definition with extra_kwargs of its own in a plugin that also has global_kwargs, and two clients",
    "The extra keyword arguments of a definition are accepted by the function but not handed on if there are global ones: the call goes through another client than the one given.",
    [(FUNCS, "        for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)\n", "        for kwarg in plugin_config.global_kwargs or definition.extra_kwargs\n")],
    """
S = "type Query { a(x: Int): Int b: Int }"
with scratch():
    defs = [{"type": "query", "is_async": False, "use": "proxies.execute", "extra_kwargs": [{"key": "client", "type": "builtins.str"}]}]
    api, H = client(S, "query A($x: Int) { a(x: $x) b }", funcs={"global_kwargs": [{"key": "timeout", "type": "builtins.int"}]}, definitions=defs)
    got = []
    H["execute"] = lambda op, v, **kw: got.append(kw) or {"a": 1, "b": 2}
    api.a(x=1, client="one", timeout=3)
    api.a(x=1, client="two")
    check([(k.get("client"), k.get("timeout")) for k in got] == [("one", 3), ("two", None)], got)
""",
)

bug(
    "c17-constant-queries", "C17", "the synchronous function of a query without variables, called more than once (for another client or later)",
    "Functions of queries without variables remember their first answer and send no further requests.",
    [(FUNCS, """            ast.FunctionDef(
                name=generate_sync_func_name(o, plugin_config, config, registry),
""", """            ast.FunctionDef(
                type_params=[],
                name=generate_sync_func_name(o, plugin_config, config, registry),
"""), (FUNCS, """                        else genereate_sync_iterator(
                            definition,
                            o,
                            client_schema,
                            config,
                            plugin_config,
                            registry,
                            collapse,
                        )
                    ),
                ],
                decorator_list=[],
""", """                        else genereate_sync_iterator(
                            definition,
                            o,
                            client_schema,
                            config,
                            plugin_config,
                            registry,
                            collapse,
                        )
                    ),
                ],
                decorator_list=generate_decorators(definition, o, registry),
"""), (FUNCS, """def is_collapsable(o: OperationDefinitionNode):
""", """def generate_decorators(
    definition: FunctionDefinition,
    o: OperationDefinitionNode,
    registry: ClassRegistry,
) -> list:
    \"\"\"Queries without variables always ask for the same data\"\"\"
    if definition.type != OperationType.QUERY or o.variable_definitions:
        return []
    registry.register_import("functools.lru_cache")
    return [ast.Name(id="lru_cache", ctx=ast.Load())]


def is_collapsable(o: OperationDefinitionNode):
""")],
    """
S = "type Query { a: Int b: Int }"
with scratch():
    api, H = client(S, "query A { a b }")
    answers = [{"a": 1, "b": 2}, {"a": 3, "b": None}]
    H["execute"] = lambda op, v: answers.pop(0)
    check([api.a().a, api.a().a] == [1, 3], "the second call was given the first answer")
""",
)

bug(
    "c18-buffered", "C18", "the synchronous function of a subscription of a single field, and a stream that stays open, fails or is left early",
    "The events are collected until the stream ends before the first one is yielded: events before a transport error are lost.",
    [(FUNCS, """            else o.selection_set.selections[0].name.value
        )

        return ast.For(
            target=ast.Name(id="event", ctx=ast.Store()),
            iter=ast.Call(
                func=ast.Name(
                    id=definition.use.split(".")[-1],
                    ctx=ast.Load(),
                ),
                keywords=generate_passing_extra_kwargs_for_onode(
                    definition, plugin_config
                ),
                args=generate_passing_extra_args_for_onode(definition, plugin_config)
                + [
                    generate_document_arg(o, registry),
                    ast.Name(id="variables", ctx=ast.Load()),
                ],
            ),
""", """            else o.selection_set.selections[0].name.value
        )

        stream = ast.Call(
            func=ast.Name(
                id=definition.use.split(".")[-1],
                ctx=ast.Load(),
            ),
            keywords=generate_passing_extra_kwargs_for_onode(
                definition, plugin_config
            ),
            args=generate_passing_extra_args_for_onode(definition, plugin_config)
            + [
                generate_document_arg(o, registry),
                ast.Name(id="variables", ctx=ast.Load()),
            ],
        )
        return ast.For(
            target=ast.Name(id="event", ctx=ast.Store()),
            iter=ast.Call(
                func=ast.Name(id="list", ctx=ast.Load()), args=[stream], keywords=[]
            ),
""")],
    """
S = "type Query { a: Int } type Subscription { tick: Int }"
with scratch():
    api, H = client(S, "subscription Tick { tick }")

    def stream(op, v):
        yield {"tick": 1}
        yield {"tick": 2}
        raise ConnectionError("lost")

    H["subscribe"] = stream
    got = []
    try:
        for x in api.tick():
            got.append(x)
    except ConnectionError:
        got.append("lost")
    check(got == [1, 2, "lost"], got)
""",
)

bug(
    "c18-null-events", "C18", "an asynchronous subscription of a single nullable field and an event in which it is null",
    "Events whose only field is null are not yielded to the subscriber.",
    [(FUNCS, """        return ast.AsyncFor(
            target=ast.Name(id="event", ctx=ast.Store()),
            iter=ast.Call(
                func=ast.Name(
                    id=definition.use.split(".")[-1],
                    ctx=ast.Load(),
                ),
                keywords=generate_passing_extra_kwargs_for_onode(
                    definition, plugin_config
                ),
                args=generate_passing_extra_args_for_onode(definition, plugin_config)
                + [
                    generate_document_arg(o, registry),
                    ast.Name(id="variables", ctx=ast.Load()),
                ],
            ),
            body=[
                ast.Expr(
                    value=ast.Yield(
                        value=ast.Attribute(
                            value=ast.Name(id="event", ctx=ast.Load()),
                            ctx=ast.Load(),
                            attr=registry.generate_node_name(correct_attr),
                        )
                    )
                ),
            ],
""", """        data = ast.Attribute(
            value=ast.Name(id="event", ctx=ast.Load()),
            ctx=ast.Load(),
            attr=registry.generate_node_name(correct_attr),
        )
        return ast.AsyncFor(
            target=ast.Name(id="event", ctx=ast.Store()),
            iter=ast.Call(
                func=ast.Name(
                    id=definition.use.split(".")[-1],
                    ctx=ast.Load(),
                ),
                keywords=generate_passing_extra_kwargs_for_onode(
                    definition, plugin_config
                ),
                args=generate_passing_extra_args_for_onode(definition, plugin_config)
                + [
                    generate_document_arg(o, registry),
                    ast.Name(id="variables", ctx=ast.Load()),
                ],
            ),
            body=[
                ast.If(
                    test=ast.Compare(
                        left=data,
                        ops=[ast.IsNot()],
                        comparators=[ast.Constant(value=None)],
                    ),
                    body=[ast.Expr(value=ast.Yield(value=data))],
                    orelse=[],
                ),
            ],
""")],
    """
import asyncio
S = "type Query { a: Int } type Subscription { tick: Int }"
with scratch():
    api, H = client(S, "subscription Tick { tick }")

    async def stream(op, v):
        for t in (1, None, 3):
            yield {"tick": t}

    H["asubscribe"] = stream

    async def main():
        return [x async for x in api.atick()]

    got = asyncio.run(main())
    check(got == [1, None, 3], got)
""",
)

bug(
    "c19-expanded-null", "C19", "an input type expanded into parameters, an optional field of it given as null and set to something else by default",
    "Optional fields of an expanded input that are explicitly given as null are left out of the request.",
    [(FUNCS, """                    stmts.append(
                        _guarded_variable_assign(
                            field_subscript, field_param, field_value, registry
                        )
                    )
""", """                    stmts.append(
                        ast.If(
                            test=ast.Compare(
                                left=field_value,
                                ops=[ast.NotIn()],
                                comparators=[
                                    ast.Tuple(
                                        elts=[
                                            ast.Constant(value=None),
                                            registry.reference_unset(),
                                        ],
                                        ctx=ast.Load(),
                                    )
                                ],
                            ),
                            body=[
                                ast.Assign(
                                    targets=[field_subscript], value=field_value
                                )
                            ],
                            orelse=[],
                        )
                    )
""")],
    """
S = "type Query { a(filter: F!): Int b: Int } input F { x: Int! y: String = \\"t\\" z: Boolean }"
with scratch():
    api, H = client(S, "query A($filter: F!) { a(filter: $filter) b }", funcs={"expand_input_types": ["filter"]})
    got = []
    H["execute"] = lambda op, v: got.append(v) or {"a": 1, "b": 2}
    api.a(x=0, y=None)
    api.a(x=1, z=False)
    check(got == [{"filter": {"x": 0, "y": None}}, {"filter": {"x": 1, "z": False}}], got)
""",
)

bug(
    "c19-required-default", "C19", "a variable that is non-null and has a default value, left out by the caller",
    "A non-null variable with a default value is sent even if the caller did not pass it.",
    [(FUNCS, "        is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value\n", "        is_required = isinstance(v.type, NonNullTypeNode)\n")],
    """
S = "type Query { a(x: Int!, y: String): Int b: Int }"
with scratch():
    api, H = client(S, "query A($x: Int! = 7, $y: String) { a(x: $x, y: $y) b }")
    got = []
    H["execute"] = lambda op, v: got.append(v) or {"a": 1, "b": 2}
    api.a(x=3)
    try:
        api.a(y="t")
    except Exception as e:
        fail(repr(e)[:300])
    check(got == [{"x": 3}, {"y": "t"}], got)
""",
)

bug(
    "c20-list-items", "C20", "a field of type [T]! (list required, items nullable) and an answer with null items",
    "The items of a required list are required, too, even if the schema allows null.",
    [(REC, """            return list_builder(
                recurse_annotation(
                    node,
                    parent,
                    type.of_type,  # type: ignore type.of_type is the non-nullable type
                    client_schema,
                    config,
                    subtree,
                    registry,
                )
            )
""", """            return list_builder(
                recurse_annotation(
                    node,
                    parent,
                    type.of_type,  # type: ignore type.of_type is the non-nullable type
                    client_schema,
                    config,
                    subtree,
                    registry=registry,
                    is_optional=is_optional,
                )
            )
""")],
    """
S = "type Query { a: [D]! b: Int } type D { id: ID! tags: [Int]! }"
with scratch():
    api, H = client(S, "query A { a { id tags } b }")
    H["execute"] = lambda op, v: {"a": [None, {"__typename": "D", "id": "1", "tags": [1, None]}], "b": 1}
    try:
        r = api.a()
    except Exception as e:
        fail(repr(e)[:300])
    check(r.a[0] is None and r.a[1].tags == [1, None], r)
""",
)

bug(
    "c20-two-inline-fragments", "C20", "two inline fragments on the same implementation in the selection of an interface",
    "Of several inline fragments on the same type in the selection of an interface only the fields of the last one can be read.",
    [(REC, "                inline_fragment_fields.setdefault(on_type_name, []).append(\n                    inline_fields\n                )\n", "                inline_fragment_fields[on_type_name] = [inline_fields]\n")],
    """
S = "type Query { n: N b: Int } interface N { id: ID! } type D implements N { id: ID! x: Int y: Int } type E implements N { id: ID! z: Int }"
with scratch():
    api, H = client(S, "query A { n { id ... on D { x } ... on E { z } ... on D { y } } b }")
    H["execute"] = lambda op, v: {"n": {"__typename": "D", "id": "1", "x": 1, "y": 2}, "b": 1}
    r = api.a()
    check(getattr(r.n, "x", None) == 1 and getattr(r.n, "y", None) == 2, r)
""",
)

bug(
    "c20-catchall-lists", "C20", "an interface field below a list that is not itself optional ([N!]), create_catchall, and an unknown implementation",
    "The catch-all class of an interface is only among the accepted types where the field is optional.",
    [(REC, """        if config.create_catchall:
            catch_all_class_name = f"{mother_class_name}CatchAll"
""", """        if config.create_catchall and is_optional:
            catch_all_class_name = f"{mother_class_name}CatchAll"
""")],
    """
S = "type Query { n: [N!]! b: Int } interface N { id: ID! } type D implements N { id: ID! x: Int } type E implements N { id: ID! z: Int }"
with scratch():
    api, H = client(S, "query A { n { id ... on D { x } } b }", create_catchall=True)
    H["execute"] = lambda op, v: {"n": [{"__typename": "D", "id": "1", "x": 1}, {"__typename": "New", "id": "2"}], "b": 1}
    try:
        r = api.a()
    except Exception as e:
        fail(repr(e)[:300])
    check([x.id for x in r.n] == ["1", "2"], r)
""",
)

bug(
    "c21-scalar-definitions", "C21", "a generation with scalar_definitions, followed in the same process by one of a project without them",
    "The scalar definitions of a project stay in effect for the generations that follow in the same process.",
    [(REG, """        self.scalar_map: Dict[str, str] = {
            **SCALAR_DEFAULTS,
            **config.scalar_definitions,
        }
""", """        self.scalar_map: Dict[str, str] = SCALAR_DEFAULTS
        self.scalar_map.update(config.scalar_definitions)
""")],
    """
with scratch():
    write("schema.graphql", "type Query { a: Int b: ID! }")
    write("docs/a.graphql", "query A { a b }")
    first = text()
    text(scalar_definitions={"ID": "uuid.UUID"})
    check(text() == first, "the code changed after the generation of another project")
""",
)

bug(
    "c21-interface-fragments", "C21", "a generation with a fragment on an interface, then one in the same process whose fragment of that name is on an implementing object",
    "The implementations of interface fragments are kept for all generations of the process: fragments of the same name in later ones are taken for fragments on interfaces.",
    [(REG, "        self.interfacefragments_impl_map: Dict[str, Dict[str, str]] = {}\n", "        self.interfacefragments_impl_map = self.__class__.impl_map\n"),
     (REG, """    def __init__(
        self, config: GeneratorConfig, stylers: List[Styler], log: LogFunction
    ):
""", """    impl_map: Dict[str, Dict[str, str]] = {}

    def __init__(
        self, config: GeneratorConfig, stylers: List[Styler], log: LogFunction
    ):
""")],
    """
S = "type Query { n: N d: D } interface N { id: ID! } type D implements N { id: ID! x: Int }"
with scratch():
    write("schema.graphql", S)
    write("docs/a.graphql", "query A { d { ...F x } } fragment F on D { id }")
    write("more/a.graphql", "query A { n { ...F } } fragment F on N { id }")
    first = text()
    text(documents="more/*.graphql")
    check(text() == first, "the code changed after the generation of another project")
""",
)
