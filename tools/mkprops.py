#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Generated files are replaced whole or not at all",
  "At every instant of a generation run - also after the process is killed, interrupted with Ctrl-C, or hits a disk error (full disk, I/O error, short write, permission error) at any point - each output file (generated code, dumped schema, dumped configuration) holds either exactly its previous content (or is still absent) or exactly its complete new content. It is never truncated, empty, missing although it existed before, or a mixture of old and new.",
  ["crash_points", "fault_sequences", "inputs"],
  "every file operation of a run x every crash/interrupt/errno at it, for every project and every previous content",
  "Existing tests run generation to completion on a healthy disk; none stops it half way, none observes the output while a run is in progress.",
  ["turms/run.py", "turms/cli/main.py"],
  [("output writers for code, schema and configuration", "turms/run.py"), ("per-project write sequence", "turms/cli/main.py: generate_projects")],
  ["content of out_dir at every file operation and after the run"])

p("C02", "A failed generation is reported and leaves the outputs untouched",
  "If loading the schema, loading or validating the documents, or any plugin, parser or processor fails for a project, none of that project's output files is created or changed, and the failure is reported: the command line exits non-zero (unless the project switched exit-on-error off) and the strict library entry point raises. A run that reports success has written every configured output completely, identical to a fault-free run, through the command line and the library alike.",
  ["fault_sequences", "inputs", "configurations"],
  "every stage at which a run can fail, every fault (missing/unreadable/undecodable/invalid input, failing source, failing plugin, processor or command, failing write) and every previous content of the output",
  "Tests trigger two or three failures on an empty output directory and look at the exit code; they do not inject read/write faults and never check that previous outputs survive.",
  ["turms/run.py", "turms/cli/main.py", "turms/utils.py", "turms/helpers.py"],
  [("stage wrapping of errors", "turms/run.py: generate_ast, parse_ast, process_code"), ("generate first, write afterwards, collect errors, exit code", "turms/cli/main.py: generate_projects"), ("library entry point", "turms/run.py: gen")],
  ["exit code / raised exception", "content of out_dir before and after"])

p("C03", "One project's failure never affects the other projects of a run",
  "In a run over several projects, every project that can be generated produces exactly the outputs it produces when it is run alone, whichever other projects fail, in whatever way and in whatever position in the configuration. The run exits non-zero if and only if at least one failing project has exit-on-error enabled.",
  ["fault_sequences", "configurations", "histories"],
  "every subset and order of projects, each healthy or failing at any stage through any injected fault",
  "The multi-project tests use one or two fixed configurations without injected faults and compare no outputs with solo runs.",
  ["turms/cli/main.py", "turms/run.py", "turms/config.py"],
  [("per-project try/except and deferred raise", "turms/cli/main.py: generate_projects"), ("per-project loop", "turms/run.py: gen")],
  ["each project's output files", "exit code"])

p("C04", "The output is a function of configuration, schema and documents only",
  "For the same configuration, schema sources and documents every run produces byte-identical output files, regardless of hash randomisation, the order in which the file system lists directories, when the source files were last modified, what the output files contained before (unless the project merges into them), the locale, the time zone and clock, the directory the files happen to live in, and which entry point (command line, library, watch mode) is used.",
  ["schedules", "inputs", "configurations"],
  "every hash seed, directory enumeration order, locale, clock and entry point, for every project",
  "Tests generate once, in one process with one fixed hash seed (PYTHONHASHSEED=0) and one directory order, and compare with snapshots at most.",
  ["turms/run.py", "turms/registry.py", "turms/utils.py", "turms/helpers.py", "turms/parsers/polyfill.py", "turms/recurse.py", "turms/plugins"],
  [("sorted glob expansion", "turms/utils.py: parse_documents; turms/helpers.py: load_dsl_from_glob"), ("sorted forward references and fragments", "turms/registry.py: generate_forward_refs; turms/utils.py: replace_iteratively"), ("import and builtin emission", "turms/registry.py: generate_imports, generate_builtins")],
  ["bytes of all output files"])

p("C05", "Concurrent runs on shared output directories do not break each other",
  "Any number of generation processes running at the same time, into the same, overlapping or not-yet-existing output directories, all complete as they would alone; afterwards every output file is byte-identical to what one of the runs writes on its own, and a program reading an output file meanwhile sees a complete version.",
  ["schedules"],
  "every interleaving of the file operations of two or more generation processes (and readers), on every starting state of the output directory",
  "No test runs two generations at once; an interleaving of their file operations cannot be chosen from a unit test.",
  ["turms/run.py", "turms/cli/main.py"],
  [("creation of the output directory", "turms/run.py: write_code_to_file, write_schema_to_file, write_project"), ("file replacement", "turms/run.py")],
  ["exit codes of all runs", "content of shared outputs at every step and at the end"])

p("C06", "A faulty schema fetch never yields output from a wrong schema",
  "Whatever happens while a remote schema is fetched (connection refused or reset, error status, redirect, empty, truncated, undecodable or non-GraphQL body, error or data-less introspection answer), a run either uses the complete schema that the server publishes or fails naming the source; it never generates from a partial or error payload. Introspection is used only for a single remote source, only after fetching SDL from it failed and only if the project allows it, and then yields a schema with the same types, fields and arguments as the SDL.",
  ["fault_sequences", "inputs"],
  "every sequence of network faults over the requests of a run, for every schema and both settings of allow-introspection",
  "The tests that fetch a schema need the internet and are excluded; nothing exercises a failing, partial or misbehaving server.",
  ["turms/helpers.py", "turms/run.py"],
  [("status, content and payload checks", "turms/helpers.py: load_dsl_from_url, load_introspection_from_url"), ("fallback", "turms/run.py: build_schema_from_schema_type")],
  ["requests seen by the simulated server", "schema used (dumped schema)", "generated code", "exit code"])

p("C07", "A schema given as several sources is exactly the union of its sources",
  "When a schema is configured as several sources - a glob over files, a list mixing files, globs, URLs and URLs with headers, or a map of URLs - the schema used is the union of all of them, however definitions, comments, byte-order marks and final newlines are distributed over the sources and in whatever order the sources are listed or answered. If any one source cannot be found, read or fetched, the run fails instead of continuing without it.",
  ["inputs", "fault_sequences", "configurations"],
  "every partition of a schema over files and servers, every order, and every fault of any one source",
  "One test covers a glob of two local files; lists with URLs, headers, faults and source boundaries are not covered.",
  ["turms/run.py", "turms/helpers.py", "turms/config.py"],
  [("source dispatch and concatenation", "turms/run.py: build_schema_from_schema_type"), ("glob loading", "turms/helpers.py: load_dsl_from_glob")],
  ["types and fields of the schema used", "requests seen by each simulated server"])

p("C08", "Configured request headers reach their source on every request and no other",
  "Headers configured for a schema source are sent, unchanged, with every request made for that source - first fetch as well as the introspection fallback after any fault - and are never sent to another source, whatever the number, order and failures of sources and projects in the run. (Across a redirect the HTTP library may drop Cookie and Content-Type; everything else still arrives.)",
  ["fault_sequences", "histories", "configurations"],
  "every set of sources and projects with and without headers x every fault sequence that triggers fallbacks",
  "No test looks at the headers of an outgoing request, least of all those of the fallback after a failed fetch or of later sources in the same run.",
  ["turms/helpers.py", "turms/run.py", "turms/config.py"],
  [("header merging", "turms/helpers.py: load_dsl_from_url, load_introspection_from_url"), ("header hand-over", "turms/run.py: build_schema_from_schema_type")],
  ["every request recorded by the simulated servers"])

p("C09", "A silent schema server cannot hang a run",
  "If a schema server stops answering at any point of an exchange (while connecting, before the response, in the middle of headers or body), the run terminates within a bounded simulated time: that project fails and is reported, its outputs stay untouched, and the remaining projects are still generated.",
  ["fault_sequences", "schedules"],
  "every point of an HTTP exchange at which the peer falls silent, for fetch, introspection fallback and download, in any project of the run",
  "A test would have to wait for a hang; there is no clock to control and no stalled server in the suite.",
  ["turms/helpers.py", "turms/cli/main.py"],
  [("HTTP requests", "turms/helpers.py: load_dsl_from_url, load_introspection_from_url")],
  ["simulated clock at termination", "exit code", "outputs"])

p("C10", "Code from an external command is used only if the command succeeded",
  "An external post-processing command receives the generated code unchanged on its standard input, and exactly what it prints (line ends aside) becomes the result - only if it exits successfully. If it cannot be started, is killed, exits non-zero (even after printing plausible output) or prints undecodable bytes, the run fails with the outputs untouched, and later processors are not run on its partial output.",
  ["fault_sequences", "inputs"],
  "every behaviour of the commands in a processor chain (exit status, signal, partial or delayed reads and writes, large volumes on both streams) for every generated module",
  "Tests run one succeeding and one failing command on ASCII input; signals, partial output, large or non-ASCII streams and existing outputs are not covered.",
  ["turms/processors/command.py", "turms/processors/ruff.py", "turms/run.py"],
  [("return code check", "turms/processors/command.py: run; turms/processors/ruff.py: _run_ruff"), ("processor chain", "turms/run.py: process_code")],
  ["bytes the command received", "final output file", "exit code"])

p("C11", "No matched document or schema file is silently skipped",
  "Every operation and fragment of every document file matched by the configured pattern - in whatever nesting, order and encoding detail (byte-order mark, line ends, missing final newline) - is represented in the generated module. A matched document or schema file that cannot be opened, read or decoded, or disappears while the run is reading, makes the run fail instead of being left out or used in part. (A directory that cannot be listed is what the pattern does not match.)",
  ["fault_sequences", "inputs"],
  "every set of document files x every read-side disk fault (open/read errors, short reads, file vanishing between listing and reading) at every file operation",
  "Tests read intact files only; whether a failed or short read can drop a document is never exercised.",
  ["turms/utils.py", "turms/helpers.py", "turms/plugins/operations.py", "turms/plugins/fragments.py"],
  [("document loading", "turms/utils.py: parse_documents"), ("schema file loading", "turms/helpers.py: load_dsl_from_file, load_dsl_from_glob")],
  ["operations and fragments present in the generated module", "exit code"])

p("C12", "Watch mode converges to the saved state and survives everything on the way",
  "While watching, after any sequence of saves, torn or invalid intermediate saves, renames, deletions, unrelated files and temporary read, write or network faults, the watcher keeps running, a failed attempt leaves the last good output in place, and once changes stop and the last one to a watched GraphQL file has been delivered, the generated module equals what a one-shot run produces for the final files. Its own output does not trigger it again.",
  ["histories", "schedules", "fault_sequences"],
  "every history of edits, their batching into notifications and their interleaving with running generations, and every transient fault",
  "Watch mode is excluded from coverage (pragma: no cover) and untested; it depends on timing and on a file-system event stream.",
  ["turms/cli/watch.py", "turms/cli/main.py"],
  [("event filter", "turms/cli/watch.py: GraphQLFilter"), ("watch loop", "turms/cli/main.py: watch_projects")],
  ["generated module after quiescence", "liveness of the watcher", "number of generations"])

p("C13", "Merging keeps hand-written code and adds what is new, over any history",
  "With the merge processor, over any history of schema changes, hand edits, regenerations and crashes, hand-written code in the generated module - the bodies of functions and methods (whose signature, decorators and leading comments follow the schema), added functions, classes, members, assignments, imports, and comments elsewhere - is preserved verbatim, and after a successful regeneration the module defines every class, function and field the current schema calls for and can be imported as the merge's inputs could. Regenerating again without changes changes nothing.",
  ["histories", "crash_points", "inputs"],
  "every interleaving of schema evolution steps, hand edits, regenerations and crashes/faults during them",
  "Tests merge one fixed pair of files; whether edits survive the tenth regeneration or a crash in the fifth is not reachable with examples.",
  ["turms/processors/merge.py", "turms/run.py"],
  [("symbol-wise merge", "turms/processors/merge.py: merge_code, merge_class, merge_functions"), ("reading the previous module", "turms/processors/merge.py: MergeProcessor.run")],
  ["generated module after every step of the history"])

p("C14", "A plain re-run recovers from any interruption; runs leave nothing else behind",
  "After a run was killed or failed at any point, re-running it once the cause is gone succeeds and produces the same outputs as if it had never been interrupted; re-running without changes changes nothing. A run that ends - with success, a reported failure or Ctrl-C - has created or changed no files other than its configured outputs, and never modifies configuration, schema or documents.",
  ["crash_points", "histories", "fault_sequences"],
  "every sequence of interrupted, failed and completed runs with a crash or fault at any file operation",
  "Tests start from fresh temporary directories; recovery from a half-finished previous run is not exercised.",
  ["turms/run.py", "turms/cli/main.py"],
  [("creation of output directory and files", "turms/run.py: write_code_to_file, write_schema_to_file, write_project")],
  ["full tree of the project directory before and after each run"])

p("C15", "Schema download leaves a complete, equivalent schema file or the old one",
  "Downloading writes for each selected project one file from which exactly the project's schema can be rebuilt, and reports failure by a non-zero exit if any project's schema cannot be obtained or written. Under crashes, interrupts, network and disk faults, each target file holds either its previous content or the complete new schema, and files of other projects are not touched.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash point, network fault and disk fault during a download of any set of projects",
  "The download test needs the internet and only checks the exit code.",
  ["turms/cli/main.py", "turms/run.py", "turms/helpers.py"],
  [("download loop", "turms/cli/main.py: download")],
  ["target files at every step", "exit code"])

p("C16", "Initialisation never loses an existing configuration",
  "Initialising a project replaces an existing configuration file only after the user confirmed, and a declined, aborted or interrupted prompt changes nothing. Under crashes, interrupts and disk faults at any point the configuration file is either the previous one or the complete new template, and a reported success always leaves a configuration that loads. (The existence of the file itself can be determined.)",
  ["crash_points", "fault_sequences", "inputs"],
  "every answer to the prompt, every template, and every crash or fault point",
  "Tests cover the happy path of init in an empty directory.",
  ["turms/cli/main.py"],
  [("confirmation and writing of the template", "turms/cli/main.py: init")],
  ["configuration file at every step", "exit code"])

p("C17", "Each caller of a generated function gets its own server's answer",
  "However calls of generated functions overlap - concurrent tasks or threads, responses delayed, reordered, failed or cancelled, through whichever client is passed to the call - each call sends exactly one request for its own operation with its own arguments and returns the data of its own response or raises its own error; cancelling or failing one call affects no other.",
  ["schedules", "fault_sequences"],
  "every interleaving of concurrent calls of generated functions and every delay, reordering, failure and cancellation of their exchanges",
  "Tests inspect the text of generated functions or execute a single call; concurrent calls under a controlled schedule are never executed.",
  ["turms/plugins/funcs.py", "turms/plugins/operations.py", "turms/registry.py"],
  [("generated call functions", "turms/plugins/funcs.py: generate_operation_func, genereate_async_call, genereate_sync_call"), ("result extraction", "turms/plugins/funcs.py: collapse handling")],
  ["requests recorded by the simulated server", "value or exception each caller observes"])

p("C18", "Generated subscriptions deliver every event once, in order, to their subscriber",
  "A generated subscription function yields to its caller exactly the events the server sent for that subscription, each once and in order, under any interleaving with other subscriptions and calls and any delays; a transport error is raised to the caller after the events that preceded it, completion ends the iteration, and when the caller stops early or is cancelled the underlying stream is released.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of event deliveries, slow consumers, errors, completions, early exits and cancellations over several subscriptions",
  "No test executes a subscription.",
  ["turms/plugins/funcs.py"],
  [("generated iterators", "turms/plugins/funcs.py: genereate_async_iterator, genereate_sync_iterator")],
  ["event sequences sent and yielded", "state of the upstream stream after the consumer stopped"])

p("C19", "Requests on the wire are valid and carry exactly the arguments given",
  "Every request a generated function issues is accepted by a server running the schema it was generated from: the document is self-contained and valid, required variables are present, and values are encoded under their GraphQL names. Arguments the caller did not pass are absent from the request so that the server's defaults apply, arguments explicitly passed as null are sent as null, and all others arrive with the value given - also when calls overlap or are retried.",
  ["schedules", "inputs", "histories"],
  "every operation x every subset of given, null and omitted arguments, over concurrent and retried calls",
  "Tests check generated source text for a few operations; no test sends a generated request to a server that validates and executes it.",
  ["turms/plugins/operations.py", "turms/plugins/funcs.py", "turms/plugins/inputs.py", "turms/utils.py"],
  [("document with fragments", "turms/utils.py: replace_iteratively; turms/plugins/operations.py"), ("omission of unset arguments", "turms/plugins/funcs.py: generate_variable_assignments"), ("aliases of arguments", "turms/plugins/operations.py; turms/plugins/inputs.py")],
  ["request document and variables received by the simulated server"])

p("C20", "Generated clients read every valid answer, also of a server that moved on",
  "Every answer a server running the schema can give to a generated operation - nulls where allowed, empty and nested lists, every member of unions and interfaces, aliased and repeated fields - is accepted by the generated models and read back with the same values. This stays true while servers are upgraded under running clients to additively changed schemas: objects of implementation types unknown to the client are still accepted for interface fields, with their common fields readable.",
  ["histories", "inputs", "schedules"],
  "every operation x every answer the server may give, in every interleaving of client calls with additive server upgrades",
  "Tests parse a handful of hand-written answers with one generated module at most; mixed client/server versions are not simulated.",
  ["turms/recurse.py", "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/utils.py"],
  [("field recursion and union discrimination", "turms/recurse.py"), ("catch-all classes", "turms/recurse.py; turms/plugins/fragments.py"), ("typename injection", "turms/utils.py: auto_add_typename_field_to_selection_set")],
  ["value returned to the caller against the answer the server sent"])

p("C21", "Generations sharing a process do not affect one another",
  "A generation executed in a process that already ran, or is concurrently running in other threads, any other generations - successful or failed, with other schemas, options and plugins - produces the same code as in a fresh process, and the project configuration passed to it can be used again with the same result.",
  ["schedules", "histories"],
  "every history of generations in one process and every interleaving of concurrent generations in threads",
  "Tests do run many generations in one process but compare none of them with a fresh-process result, and never overlap two.",
  ["turms/run.py", "turms/registry.py", "turms/config.py", "turms/plugins", "turms/parsers/polyfill.py"],
  [("per-run registry", "turms/registry.py: ClassRegistry"), ("module-level builtin definitions", "turms/registry.py: built_in_map"), ("per-run plugin configuration copies", "turms/plugins/funcs.py, turms/plugins/input_funcs.py: generate_ast")],
  ["returned code of every generation"])

# ---- properties that are pure functions of their input (not claimed, see MANIFEST not_applicable)
p("C30", "All configuration file formats are equivalent",
  "The same configuration written as YAML, TOML or JSON, as single or multiple projects, selects the same projects with the same settings; unknown generator options are rejected.",
  ["inputs", "configurations"], "every configuration in every supported format",
  "Tests load fixed sample files.", ["turms/run.py", "turms/config.py"],
  [("format loaders", "turms/run.py: load_projects_from_configpath")])
p("C31", "Field and argument renaming is reversible",
  "Whatever stylers rename fields, arguments, enum values or classes to, every generated field keeps its GraphQL name as its alias, and no two names of one type collide.",
  ["inputs", "configurations"], "every schema name x every styler combination",
  "Tests style a handful of names.", ["turms/stylers", "turms/registry.py"],
  [("stylers and keyword escaping", "turms/registry.py: generate_node_name")])
p("C32", "A generated strawberry server exposes the schema it was generated from",
  "Importing the code generated by the strawberry plugin and printing its schema gives back the types, fields, arguments, nullability, enums and directives of the source schema.",
  ["inputs"], "every schema in the supported subset",
  "Tests compare a few snapshots.", ["turms/plugins/strawberry.py"],
  [("strawberry plugin", "turms/plugins/strawberry.py")])
p("C33", "Plugin options only change what they name",
  "Options such as freezing, extra handling, skipping unreferenced types, additional bases or prefixes change exactly the aspect of the generated classes they name, for exactly the types they select.",
  ["configurations", "inputs"], "every combination of options and every schema",
  "Tests cover single options on single schemas.", ["turms/config.py", "turms/plugins"],
  [("option handling", "turms/utils.py: generate_config_dict")])
p("C34", "Environment settings and file settings have a fixed precedence",
  "A setting given both in the configuration file and through the environment always takes the file's value; one given only in the environment takes effect.",
  ["configurations"], "every setting x both sources", "Not tested.",
  ["turms/config.py"], [("settings classes", "turms/config.py: GeneratorConfig")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
