From 7ccd5e7d86c6c797dc0d005f48ffb6b6ab9444c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 01/42] fix: resolve fragment spreads whose names contain
 digits or underscores

---
 turms/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..3c4fd8d 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -529,7 +529,7 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[_a-zA-Z0-9]*)")
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
-- 
2.43.0


From 12c8bdb3a65433e1c71cc66fe23850813c036b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/42] fix: import pydantic.Field for operations whose only
 optional part is an argument

---
 turms/plugins/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..20fa7a0 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -369,6 +369,7 @@ def generate_operation(
                     )
             else:
                 if is_optional:
+                    registry.register_import("pydantic.Field")
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
                         annotation=annotation,
-- 
2.43.0


From a949267278769ea47c1ace22f876c470a31d586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 03/42] fix: replace output files atomically instead of
 truncating them in place

---
 turms/cli/main.py |  9 +++++++--
 turms/helpers.py  | 31 ++++++++++++++++++++++++++++++-
 turms/run.py      |  7 ++++---
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..adb95da 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -5,6 +5,7 @@ from typing import Any, Callable, Dict
 
 import yaml
 from turms.config import GraphQLProject
+from turms.helpers import open_replacing
 from turms.run import generate, write_code_to_file, write_project, write_schema_to_file
 from rich import get_console
 from rich.panel import Panel
@@ -404,7 +405,9 @@ def init(config, template):
     get_console().print(
         f"Creating {config} in {app_directory} (template: {template})"
     )
-    with open(os.path.join(app_directory, config), "w") as f:
+    with open_replacing(
+        os.path.join(app_directory, config), "w", encoding="utf-8"
+    ) as f:
         f.write(build_default_settings(template))
 
     get_console().print(TEMPLATES[template]["hint"])
@@ -449,7 +452,9 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
-            with open(os.path.join(app_directory, filename), "w") as f:
+            with open_replacing(
+                os.path.join(app_directory, filename), "w", encoding="utf-8"
+            ) as f:
                 f.write(print_schema(schema))
     except Exception as e:
         raise click.ClickException(str(e)) from e
diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..6a3fa53 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -1,7 +1,11 @@
 import glob
 import json
+import os
+import shutil
+import uuid
+from contextlib import contextmanager
 from importlib import import_module
-from typing import Any, Dict, Optional, Tuple
+from typing import IO, Any, Dict, Iterator, Optional, Tuple
 
 from graphql import (
     get_introspection_query,
@@ -40,6 +44,31 @@ def import_string(dotted_path: str) -> Any:
         ) from err
 
 
+@contextmanager
+def open_replacing(path: str, mode: str = "w", **kwargs: Any) -> Iterator[IO[Any]]:
+    """Like open() for (re)writing a file, but replaces it atomically
+
+    The content is written to a temporary file next to the target, which takes
+    the target's place only once everything was written. If anything goes wrong
+    on the way the target is left as it was and the temporary file is removed.
+    """
+    target = os.path.realpath(path)
+    folder, name = os.path.split(target)
+    temporary = os.path.join(folder, f".{name}.{uuid.uuid4().hex[:8]}.tmp")
+    try:
+        with open(temporary, mode.replace("w", "x"), **kwargs) as file:
+            yield file
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        try:
+            os.unlink(temporary)
+        except OSError:
+            pass
+        raise
+
+
 def load_introspection_from_url(
     url: AnyHttpUrl, headers: Optional[Dict[str, str]] = None
 ) -> IntrospectionResult:
diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..d0c0a87 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -27,6 +27,7 @@ from turms.helpers import (
     load_dsl_from_glob,
     load_dsl_from_url,
     import_string,
+    open_replacing,
 )
 from turms.plugins.base import Plugin
 from turms.parsers.base import Parser
@@ -171,7 +172,7 @@ def write_code_to_file(code: str, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
+    with open_replacing(
         generated_file,
         "w",
         encoding="utf-8",
@@ -190,7 +191,7 @@ def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
+    with open_replacing(
         generated_file,
         "w",
         encoding="utf-8",
@@ -209,7 +210,7 @@ def write_project(project: GraphQLProject, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
+    with open_replacing(
         generated_file,
         "w",
         encoding="utf-8",
-- 
2.43.0


From 7d807fb459f3aa5ea0c1e213c9d16e0408553344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 04/42] fix: write the generated code, not the (code, schema)
 tuple, from the library entry point

---
 turms/run.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index d0c0a87..3609006 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -244,7 +244,7 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, schema = generate(project)
 
             write_code_to_file(
                 generated_code,
@@ -253,11 +253,6 @@ def gen(
             )
 
             if project.extensions.turms.dump_schema:
-                schema = build_schema_from_schema_type(
-                    project.schema_url,
-                    allow_introspection=project.extensions.turms.allow_introspection,
-                )
-
                 write_schema_to_file(
                     schema,
                     project.extensions.turms.out_dir,
-- 
2.43.0


From 8621221494d6bdeafc4f6777960d7c91a85ddcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 05/42] fix: tolerate the output directory being created
 concurrently

---
 turms/run.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index 3609006..7ced41b 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -165,7 +165,7 @@ def scan_folder_for_single_config(folder_path: str | None = None) -> str:
 
 def write_code_to_file(code: str, outdir: str, filepath: str):
     if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     generated_file = os.path.join(
         outdir,
@@ -184,7 +184,7 @@ def write_code_to_file(code: str, outdir: str, filepath: str):
 
 def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
     if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     generated_file = os.path.join(
         outdir,
@@ -203,7 +203,7 @@ def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
 
 def write_project(project: GraphQLProject, outdir: str, filepath: str):
     if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     generated_file = os.path.join(
         outdir,
-- 
2.43.0


From d642a9b3c15e22cc587f5bb5eaadde354ea54fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 06/42] fix: emit imports and builtins in a deterministic order

---
 turms/parsers/polyfill.py | 4 ++--
 turms/registry.py         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..2aa47b4 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -36,7 +36,7 @@ def polyfill_python_seven(
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=[ast.alias(name=name) for name in sorted(need_extensions)],
                             level=0,
                         )
                     )
@@ -44,7 +44,7 @@ def polyfill_python_seven(
                 okay_imports = aliases - need_extensions
                 new_nodes.append(
                     ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
+                        names=[ast.alias(name=name) for name in sorted(okay_imports)],
                         module="typing",
                         level=0,
                     )
diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..e1c0af3 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -639,7 +639,7 @@ class ClassRegistry(object):
 
         lone_top_imports: Set[str] = set()
         top_level: Dict[str, Set[str]] = {}
-        for name in self._imports:
+        for name in sorted(self._imports):
             if "." not in name:
                 lone_top_imports.add(name)
             else:
@@ -647,14 +647,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
         for top_level_name, sub_level_names in top_level.items():
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -665,7 +665,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From 5c6016f67050b11dfb22b5f2abd61f55049cf7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 07/42] fix: treat each item of a schema list as exactly one
 kind of source

---
 turms/run.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index 7ced41b..01508c7 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -336,12 +336,12 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(item):
+                    dsl_subschemas.append(load_dsl_from_url(item))
+                elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
             return build_ast_schema(parse(" ".join(dsl_subschemas)))
-- 
2.43.0


From cad4b962c15635f51df3aff5b840408c48f5d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 08/42] fix: do not take paths that merely start with http for
 urls

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 01508c7..4bf58e3 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -291,7 +291,7 @@ def instantiate(module_path: str, **kwargs):
 
 
 def is_url(url: str) -> bool:
-    return url.startswith("http") or url.startswith("https")
+    return url.startswith("http://") or url.startswith("https://")
 
 
 def build_schema_from_schema_type(
-- 
2.43.0


From 776697bd7443346317ad1b31d7c0f9e59be95d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 09/42] fix: keep schema sources and documents apart when
 concatenating, read them as utf-8

---
 turms/helpers.py | 4 ++--
 turms/run.py     | 4 ++--
 turms/utils.py   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 6a3fa53..448fa1a 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -130,7 +130,7 @@ def load_dsl_from_url(
         req = requests.get(url, headers=default_headers)  # type: ignore
         assert req.status_code == 200, "Incorrect status code"
         assert req.content, "No content"
-        x = req.content.decode()
+        x = req.content.decode("utf-8-sig")
     except Exception as e:
         raise GenerationError(f"Failed to fetch schema from {url}") from e
     return x
@@ -163,7 +163,7 @@ def load_dsl_from_glob(
 
     dsl_string = ""
     for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
+        dsl_string += load_dsl_from_file(file) + "\n"
 
     return dsl_string
 
diff --git a/turms/run.py b/turms/run.py
index 4bf58e3..22662cc 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -323,7 +323,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -344,7 +344,7 @@ def build_schema_from_schema_type(
                 elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index 3c4fd8d..5f4cf9b 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -508,10 +508,10 @@ def parse_documents(
     dsl = ""
 
     for file in x:
-        with open(file, "r") as f:
-            dsl += f.read()
+        with open(file, "r", encoding="utf-8-sig") as f:
+            dsl += f.read() + "\n"
 
-    if dsl == "":
+    if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 3467f1f88133c8c05dcdcfb3807b0c7e0c55a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 10/42] fix: give up on schema servers that stop answering

---
 turms/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 448fa1a..1f68ba6 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -17,6 +17,9 @@ from turms.errors import GenerationError
 IntrospectionResult = Dict[str, Any]
 DSLString = str
 
+REQUEST_TIMEOUT = 60
+"""Seconds to wait for a schema server to connect, or to send more of its answer"""
+
 
 def import_class(module_path: str, class_name: str) -> Any:
     """Import a module from a module_path and return the class"""
@@ -96,7 +99,9 @@ def load_introspection_from_url(
     if headers:
         default_headers.update(headers)
     try:
-        req = requests.post(url, data=jdata, headers=default_headers)  # type: ignore
+        req = requests.post(
+            url, data=jdata, headers=default_headers, timeout=REQUEST_TIMEOUT
+        )  # type: ignore
         x = req.json()
     except Exception as e:
         raise GenerationError(f"Failed to fetch schema from {url}") from e
@@ -127,7 +132,7 @@ def load_dsl_from_url(
     if headers:
         default_headers.update(headers)
     try:
-        req = requests.get(url, headers=default_headers)  # type: ignore
+        req = requests.get(url, headers=default_headers, timeout=REQUEST_TIMEOUT)  # type: ignore
         assert req.status_code == 200, "Incorrect status code"
         assert req.content, "No content"
         x = req.content.decode("utf-8-sig")
-- 
2.43.0


From 25480f43a189d296ee1cf90c172eb6fbb56680ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 11/42] fix: recognise watched graphql files by their last
 extension

---
 turms/cli/watch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 0287a10..6a69466 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -10,7 +10,7 @@ class GraphQLFilter(BaseFilter):  # pragma: no cover
             return False
 
         x = os.path.basename(path)
-        fileending = x.split(".")[1]
+        fileending = x.split(".")[-1]
 
         return fileending == "graphql"
 
-- 
2.43.0


From c18491770b68c5353321583621ab61403882ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 12/42] fix: do not interpret error messages as console markup

---
 turms/cli/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index adb95da..71e0192 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -10,6 +10,7 @@ from turms.run import generate, write_code_to_file, write_project, write_schema_
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
+from rich.markup import escape
 from rich.tree import Tree
 from rich.console import Group
 import rich_click as click
@@ -222,7 +223,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
             def log(message: str, level: str = "INFO"):
                 if level == "WARN":
-                    project_tree.add(Tree(message, style="yellow"))
+                    project_tree.add(Tree(escape(message), style="yellow"))
 
             try:
                 generated_code, schema = generate(project, log=log)
@@ -253,7 +254,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
             except Exception as e:
                 project_tree.style = "red"
                 project_tree.label = f"{key} 💥"
-                project_tree.add(Tree(str(e), style="red"))
+                project_tree.add(Tree(escape(str(e)), style="red"))
                 if project.extensions.turms.exit_on_error:
                     raised_exceptions.append(e)
                 live.update(panel)
@@ -359,7 +360,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
                 live.update(panel)
 
             except Exception as e:
-                tree.renderable = f"[red] {str(e)} [/],"
+                tree.renderable = f"[red] {escape(str(e))} [/],"
                 tree.border_style = "not bold red"
                 tree.style = "not bold red"
                 live.update(panel)
-- 
2.43.0


From f15d4d0e14bb234c9a486d40c213f766373c80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 13/42] fix: exchange code with external processors as utf-8
 whatever the locale

---
 turms/processors/command.py | 2 +-
 turms/processors/ruff.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5454d67..1dee81f 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -44,7 +44,7 @@ class CommandProcessor(Processor):
             command,
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 37df3f6..59a59bd 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -31,7 +31,7 @@ class RuffProcessor(Processor):
             [sys.executable, "-m", "ruff", *args, "-"],
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
-- 
2.43.0


From efe7810f27438d381c98b7541ab462e07aefa3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 14/42] fix: find fragment spreads in the parsed document, not
 in string literals

---
 turms/utils.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 5f4cf9b..f107050 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,12 +1,13 @@
 import ast
 import glob
 import re
-from typing import List, Optional, Sequence, Set, Union
+from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -29,9 +30,11 @@ from graphql import (
     TypeNode,
     Undefined,
     ValueNode,
+    Visitor,
     parse,
     print_ast,
     validate,
+    visit,
 )
 from graphql.error.graphql_error import GraphQLError
 from graphql.language.ast import DocumentNode, FieldNode, NameNode
@@ -529,7 +532,22 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[_a-zA-Z0-9]*)")
+class FragmentSpreadCollector(Visitor):
+    """Collects the names of all fragments that are spread in a document"""
+
+    def __init__(self) -> None:
+        super().__init__()
+        self.names: Set[str] = set()
+
+    def enter_fragment_spread(self, node: FragmentSpreadNode, *_: Any) -> None:
+        self.names.add(node.name.value)
+
+
+def find_fragment_spreads(document: str) -> Set[str]:
+    """Returns the names of all fragments that are spread in the document"""
+    collector = FragmentSpreadCollector()
+    visit(parse(document), collector)
+    return collector.names
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +578,9 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
-
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [
+        new_f for new_f in find_fragment_spreads(pattern) if new_f not in taken
+    ]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From 2f5d26023c1cf46552c07a809ae56d8ed4b6a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:51 +0000
Subject: [PATCH 15/42] fix: read documents once per generation, so that all
 plugins see the same files

---
 turms/plugins/enums.py       |  3 ++-
 turms/plugins/fragments.py   |  2 +-
 turms/plugins/funcs.py       |  5 ++++-
 turms/plugins/input_funcs.py |  3 ++-
 turms/plugins/inputs.py      |  3 ++-
 turms/plugins/operations.py  |  2 +-
 turms/registry.py            |  3 +++
 turms/utils.py               | 37 +++++++++++++++++++++++++++---------
 8 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..8cfeb18 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -43,7 +43,8 @@ def generate_enums(
 
     if plugin_config.skip_unreferenced and config.documents:
         ref_registry = create_reference_registry_from_documents(
-            client_schema, parse_documents(client_schema, config.documents, config)
+            client_schema,
+            parse_documents(client_schema, config.documents, config, registry),
         )
     else:
         ref_registry = None
diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..8799ebd 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -663,7 +663,7 @@ class FragmentsPlugin(Plugin):
             )
             return []
 
-        documents = parse_documents(client_schema, glob, config)
+        documents = parse_documents(client_schema, glob, config, registry)
 
         # Find dependencies and sort fragments topologically
         fragment_dependencies = build_recursive_dependency_graph(documents)
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..7a25d5c 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -1407,7 +1407,10 @@ class FuncsPlugin(Plugin):
         )
 
         documents = parse_documents(
-            client_schema, plugin_config.funcs_glob or config.documents, config
+            client_schema,
+            plugin_config.funcs_glob or config.documents,
+            config,
+            registry,
         )
 
         operations = [
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..96fd1ec 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -164,7 +164,8 @@ def generate_input_funcs(
 
     if plugin_config.skip_unreferenced and config.documents:
         ref_registry = create_reference_registry_from_documents(
-            client_schema, parse_documents(client_schema, config.documents, config)
+            client_schema,
+            parse_documents(client_schema, config.documents, config, registry),
         )
     else:
         ref_registry = None
diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..f02a2f4 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -545,7 +545,8 @@ def generate_inputs(
 
     if plugin_config.skip_unreferenced and config.documents:
         ref_registry = create_reference_registry_from_documents(
-            client_schema, parse_documents(client_schema, config.documents, config)
+            client_schema,
+            parse_documents(client_schema, config.documents, config, registry),
         )
     else:
         ref_registry = None
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 20fa7a0..9c62147 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -493,7 +493,7 @@ class OperationsPlugin(Plugin):
                 "No documents found. Please provide a glob pattern for the documents."
             )
 
-        documents = parse_documents(client_schema, glob, config)
+        documents = parse_documents(client_schema, glob, config, registry)
 
         definitions = documents.definitions
         operations = [
diff --git a/turms/registry.py b/turms/registry.py
index e1c0af3..130c7a1 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -231,6 +231,9 @@ class ClassRegistry(object):
             **SCALAR_DEFAULTS,
             **config.scalar_definitions,
         }
+        # map of documents globs to the text of the documents they matched
+        self.documents: Dict[str, str] = {}
+
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
diff --git a/turms/utils.py b/turms/utils.py
index f107050..0af828b 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -496,24 +496,43 @@ def auto_add_typename_field_to_all_objects(document: DocumentNode) -> DocumentNo
     return document
 
 
-def parse_documents(
-    client_schema: GraphQLSchema, scan_glob: str, config: GeneratorConfig
-) -> DocumentNode:
-    """ """
-    if not scan_glob:
-        raise GenerationError("Couldnt find documents glob")
-
+def read_documents(scan_glob: str) -> str:
+    """Reads all the documents that match the glob"""
     x = glob.glob(scan_glob, recursive=True)
     x.sort()  # Ensure deterministic order
 
-    errors: List[GraphQLError] = []
-
     dsl = ""
 
     for file in x:
         with open(file, "r", encoding="utf-8-sig") as f:
             dsl += f.read() + "\n"
 
+    return dsl
+
+
+def parse_documents(
+    client_schema: GraphQLSchema,
+    scan_glob: str,
+    config: GeneratorConfig,
+    registry: Optional[ClassRegistry] = None,
+) -> DocumentNode:
+    """Parses and validates all the documents that match the glob
+
+    If a registry is passed the files are read only once per generation, so that all
+    plugins work on the same documents, even if the files change meanwhile.
+    """
+    if not scan_glob:
+        raise GenerationError("Couldnt find documents glob")
+
+    errors: List[GraphQLError] = []
+
+    if registry is None:
+        dsl = read_documents(scan_glob)
+    else:
+        if scan_glob not in registry.documents:
+            registry.documents[scan_glob] = read_documents(scan_glob)
+        dsl = registry.documents[scan_glob]
+
     if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
-- 
2.43.0


From 055def15534b239bd6e2d6095e7f871856d61f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 16/42] fix: keep the comments around the merged module, its
 indentation and its end

---
 turms/processors/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..a02e120 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -220,7 +220,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    md = cst.Module(body=updated_body)
+    md = existing_module.with_changes(body=updated_body)
 
     return md.code
 
-- 
2.43.0


From 0ec9f6dc30323b26b2fe324b2b5ea82031841ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 17/42] fix: do not take a module that cannot be looked at for
 a missing one when merging, read it as utf-8

---
 turms/processors/merge.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index a02e120..69db95b 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -252,12 +252,12 @@ class MergeProcessor(Processor):
             config.generated_name,
         )
 
-        if not os.path.exists(old_generated_file):
+        # the one we want to merge into
+        try:
+            with open(old_generated_file, encoding="utf-8") as f:
+                existing_code = f.read()
+        except FileNotFoundError:
             print("No existing generated file found. Skipping merge.")
             return gen_file
 
-        # the one we want to merge into
-        with open(old_generated_file) as f:
-            existing_code = f.read()
-
         return merge_code(existing_code, gen_file, self.config)
-- 
2.43.0


From 8fdd660857c9a9dff35cf2a8f1ff4c36132a17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 18/42] fix: merge members that turn from a field into a
 function and back

---
 turms/processors/merge.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 69db95b..57ab48d 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -36,6 +36,19 @@ def merge_statements(
     return new_def
 
 
+def merge_members(generated: cst.BaseStatement, existing: cst.BaseStatement):
+    # a member can turn from a plain field into a function and back
+    if isinstance(generated, cst.FunctionDef):
+        if isinstance(existing, cst.FunctionDef):
+            return merge_functions(generated, existing)
+        return generated
+
+    if isinstance(existing, cst.FunctionDef):
+        return existing  # still defines the member, and its body might be hand-written
+
+    return merge_statements(generated, existing)
+
+
 def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     # merge the two classes
     body_symbols = OrderedDict()
@@ -63,7 +76,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if name is not None:
                 if name in body_symbols:
                     body_symbol_position[name] = len(new_body)
-                    new_body.append(merge_statements(body_symbols[name], node))
+                    new_body.append(merge_members(body_symbols[name], node))
                     body_implemented_symbols.append(name)
                 else:
                     new_body.append(node)
@@ -74,7 +87,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if node.name.value in body_symbols:
                 x = body_symbols[node.name.value]
                 body_symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
+                new_body.append(merge_members(x, node))
                 body_implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
-- 
2.43.0


From 7d269afa28f238110917e0619225d91cda40b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 19/42] fix: merge enum values and nested classes

---
 turms/processors/merge.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 57ab48d..bf5190d 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -12,6 +12,10 @@ def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
     for node in simple_statement.body:
         if isinstance(node, cst.AnnAssign):
             return node.target.value
+        if isinstance(node, cst.Assign) and isinstance(
+            node.targets[0].target, cst.Name
+        ):
+            return node.targets[0].target.value
     else:
         return None
 
@@ -46,6 +50,11 @@ def merge_members(generated: cst.BaseStatement, existing: cst.BaseStatement):
     if isinstance(existing, cst.FunctionDef):
         return existing  # still defines the member, and its body might be hand-written
 
+    if isinstance(generated, cst.ClassDef) or isinstance(existing, cst.ClassDef):
+        if type(generated) is type(existing):
+            return merge_class(generated, existing)
+        return existing
+
     return merge_statements(generated, existing)
 
 
@@ -58,7 +67,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     generated_indented_block = generated.body
 
     for node in generated_indented_block.body:
-        if isinstance(node, cst.FunctionDef):
+        if isinstance(node, (cst.FunctionDef, cst.ClassDef)):
             body_symbols[node.name.value] = node
 
         if isinstance(node, cst.SimpleStatementLine):
@@ -83,7 +92,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             else:
                 new_body.append(node)
 
-        elif isinstance(node, cst.FunctionDef):
+        elif isinstance(node, (cst.FunctionDef, cst.ClassDef)):
             if node.name.value in body_symbols:
                 x = body_symbols[node.name.value]
                 body_symbol_position[node.name.value] = len(new_body)
-- 
2.43.0


From 34b69c585a8c84795b70472fbe1e1c39a3bc1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 20/42] fix: add the imports, assignments and calls that new
 generated code needs when merging

---
 turms/processors/merge.py | 105 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 103 insertions(+), 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index bf5190d..40658b3 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -4,6 +4,7 @@ import libcst as cst
 from collections import OrderedDict
 from turms.config import GeneratorConfig
 import os
+from typing import Sequence
 
 # load beasts.py as a ast.Module
 
@@ -150,6 +151,83 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     return new_class
 
 
+def imported_names(node: cst.BaseStatement):
+    """The names a statement imports, as (module, name, alias)"""
+    names = set()
+
+    if isinstance(node, cst.SimpleStatementLine):
+        for statement in node.body:
+            if isinstance(statement, (cst.Import, cst.ImportFrom)):
+                module = getattr(statement, "module", None)
+                code = cst.Module(body=[]).code_for_node
+                prefix = "." * len(getattr(statement, "relative", ()))
+                if module is not None:
+                    prefix += code(module)
+                if isinstance(statement.names, cst.ImportStar):
+                    names.add((prefix, "*", None))
+                    continue
+                for alias in statement.names:
+                    asname = code(alias.asname.name) if alias.asname else None
+                    names.add((prefix, code(alias.name), asname))
+
+    return names
+
+
+def is_call(node: cst.BaseStatement):
+    """Whether the statement only calls something, like a rebuild of a model"""
+    return (
+        isinstance(node, cst.SimpleStatementLine)
+        and len(node.body) == 1
+        and isinstance(node.body[0], cst.Expr)
+        and isinstance(node.body[0].value, cst.Call)
+    )
+
+
+def is_string(node: cst.BaseStatement):
+    return (
+        isinstance(node, cst.SimpleStatementLine)
+        and isinstance(node.body[0], cst.Expr)
+        and isinstance(
+            node.body[0].value, (cst.SimpleString, cst.ConcatenatedString)
+        )
+    )
+
+
+def is_type_alias(node: cst.BaseStatement):
+    """Whether the statement names a type, like Animal = Union[Cat, Dog]"""
+    return isinstance(node, cst.SimpleStatementLine) and isinstance(
+        getattr(node.body[0], "value", None), cst.Subscript
+    )
+
+
+def add_missing_statements(
+    body: list[cst.BaseStatement], new_body: Sequence[cst.BaseStatement]
+):
+    """Adds the imports and calls of the generated code that are not yet there"""
+    imported = set()
+    calls = set()
+    code = cst.Module(body=[]).code_for_node
+
+    # imports go behind the imports (or the docstring) the module starts with
+    position = 1 if body and is_string(body[0]) else 0
+    started = False
+    for index, node in enumerate(body):
+        imported |= imported_names(node)
+        if is_call(node):
+            calls.add(code(node.body[0]))
+        if isinstance(node, (cst.ClassDef, cst.FunctionDef)):
+            started = True
+        if imported_names(node) and not started:
+            position = index + 1
+
+    imports = [node for node in new_body if imported_names(node) - imported]
+    missing_calls = [
+        node for node in new_body if is_call(node) and code(node.body[0]) not in calls
+    ]
+
+    return body[:position] + imports + body[position:] + missing_calls
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -177,6 +255,12 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             symbols[node.name.value] = node
             new_symbols.add(node.name.value)
 
+        if isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node)
+            if name is not None:
+                symbols[name] = node
+                new_symbols.add(name)
+
     symbol_position = {}
 
     for node in existing_module.body:
@@ -186,7 +270,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
                 # merge the two classes
 
                 symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_class(x, node))
+                new_body.append(merge_members(x, node))
                 implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
@@ -197,11 +281,26 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
                 x = symbols[node.name.value]
 
                 symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
+                new_body.append(merge_members(x, node))
                 implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
 
+        elif isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node)
+            if name in symbols:
+                x = symbols[name]
+
+                symbol_position[name] = len(new_body)
+                if is_type_alias(x) and is_type_alias(node):
+                    new_body.append(merge_statements(x, node))
+                else:
+                    # the value of an assignment might be hand-written
+                    new_body.append(node)
+                implemented_symbols.append(name)
+            else:
+                new_body.append(node)
+
         else:
             new_body.append(node)
 
@@ -242,6 +341,8 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
+    updated_body = add_missing_statements(updated_body, new_module.body)
+
     md = existing_module.with_changes(body=updated_body)
 
     return md.code
-- 
2.43.0


From 1700cd5169e31364fcd502817730be2691bafb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 21/42] fix: do not add the disclaimer again to a merged file

---
 turms/processors/disclaimer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turms/processors/disclaimer.py b/turms/processors/disclaimer.py
index 90ad090..2bd0872 100644
--- a/turms/processors/disclaimer.py
+++ b/turms/processors/disclaimer.py
@@ -19,4 +19,7 @@ class DisclaimerProcessor(Processor):
     config: DisclaimerProcessorConfig = Field(default_factory=DisclaimerProcessorConfig)
 
     def run(self, gen_file: str, config: GeneratorConfig):
+        if gen_file.startswith(self.config.disclaimer):
+            return gen_file  # merged into a file that already carries it
+
         return self.config.disclaimer + "\n" + gen_file
-- 
2.43.0


From cf5de7fa3803bfffae750f4773597c492388af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 22/42] fix: order merged definitions so that each comes after
 those it needs

---
 turms/processors/merge.py | 89 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 40658b3..66234a0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -228,6 +228,91 @@ def add_missing_statements(
     return body[:position] + imports + body[position:] + missing_calls
 
 
+class NeededNames(cst.CSTVisitor):
+    """Collects the names that have to be there when a definition is executed"""
+
+    def __init__(self):
+        self.names = set()
+
+    def visit_Name(self, node: cst.Name):
+        self.names.add(node.value)
+
+    def visit_Attribute(self, node: cst.Attribute):
+        node.value.visit(self)
+        return False
+
+    def visit_Arg(self, node: cst.Arg):
+        node.value.visit(self)
+        return False
+
+    def visit_Param(self, node: cst.Param):
+        for part in (node.annotation, node.default):
+            if part is not None:
+                part.visit(self)
+        return False
+
+    def visit_AnnAssign(self, node: cst.AnnAssign):
+        for part in (node.annotation, node.value):
+            if part is not None:
+                part.visit(self)
+        return False
+
+    def visit_Assign(self, node: cst.Assign):
+        node.value.visit(self)
+        return False
+
+    def visit_ClassDef(self, node: cst.ClassDef):
+        for part in (*node.decorators, *node.bases, *node.keywords, node.body):
+            part.visit(self)
+        return False
+
+    def visit_FunctionDef(self, node: cst.FunctionDef):
+        for part in (*node.decorators, node.params, node.returns):
+            if part is not None:
+                part.visit(self)
+        return False
+
+    def visit_Lambda(self, node: cst.Lambda):
+        return False
+
+
+def definition_name(node: cst.BaseStatement):
+    if isinstance(node, (cst.ClassDef, cst.FunctionDef)):
+        return node.name.value
+    if isinstance(node, cst.SimpleStatementLine):
+        return retrieve_symbol_name(node)
+    return None
+
+
+def sort_definitions(body: Sequence[cst.BaseStatement]):
+    """Moves definitions in front of the ones that need them, as the existing
+    and the generated code do not have to agree on an order"""
+    definitions = {}
+    for index, node in enumerate(body):
+        definitions.setdefault(definition_name(node), index)
+
+    sorted_body = []
+    added = set()
+
+    def add(index: int):
+        if index in added:
+            return
+        added.add(index)
+        node = body[index]
+        if definition_name(node) is not None:
+            visitor = NeededNames()
+            node.visit(visitor)
+            needed = {definitions[x] for x in visitor.names if x in definitions}
+            for needed_index in sorted(needed):
+                add(needed_index)
+        sorted_body.append(node)
+
+    for index in range(len(body)):
+        add(index)
+
+    return sorted_body
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -341,7 +426,9 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    updated_body = add_missing_statements(updated_body, new_module.body)
+    updated_body = add_missing_statements(
+        sort_definitions(updated_body), new_module.body
+    )
 
     md = existing_module.with_changes(body=updated_body)
 
-- 
2.43.0


From 63b4bbbf93a1788981fa6482c67846538e654374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 23/42] fix: generate operations whose variables default to an
 enum value, a list, an object or null

---
 turms/plugins/funcs.py |  3 ++-
 turms/utils.py         | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 7a25d5c..21984c3 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -38,6 +38,7 @@ from turms.utils import (
     is_oneof_input_type,
     non_typename_fields,
     parse_documents,
+    parse_value_node,
     recurse_outputtype_annotation,
     recurse_outputtype_label,
     recurse_type_annotation,
@@ -945,7 +946,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
diff --git a/turms/utils.py b/turms/utils.py
index 0af828b..f9c9358 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -5,6 +5,7 @@ from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
@@ -20,9 +21,11 @@ from graphql import (
     GraphQLUnionType,
     IntValueNode,
     ListTypeNode,
+    ListValueNode,
     NamedTypeNode,
     NonNullTypeNode,
     NullValueNode,
+    ObjectValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
@@ -944,7 +947,9 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(
+    value_node: ValueNode,
+) -> Union[None, str, int, float, bool, list, dict]:
     """Parses a Value Node into a Python value
     using standard types
 
@@ -955,7 +960,7 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         NotImplementedError: If the Value Node is not supported
 
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Union[None, str, int, float, bool, list, dict]: The parsed value
     """
     if isinstance(value_node, IntValueNode):
         return int(value_node.value)
@@ -967,6 +972,15 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         return value_node.value == "true"
     elif isinstance(value_node, NullValueNode):
         return None
+    elif isinstance(value_node, EnumValueNode):
+        return value_node.value
+    elif isinstance(value_node, ListValueNode):
+        return [parse_value_node(value) for value in value_node.values]
+    elif isinstance(value_node, ObjectValueNode):
+        return {
+            field.name.value: parse_value_node(field.value)
+            for field in value_node.fields
+        }
     else:
         raise NotImplementedError(f"Cannot parse {value_node}")
 
-- 
2.43.0


From 9b46e6435a234f4e141cb9f773c72ea01e07f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 24/42] fix: document operations that pass variables to nested
 fields

---
 turms/plugins/funcs.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 21984c3..7095f66 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -861,14 +861,13 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            if any(isinstance(sub, FieldNode) for sub in non_typename_fields(field)):
+                estimate_variable_name(
+                    field,
+                    client_schema,
+                    get_named_type(get_field_def(client_schema, root, field).type),
+                    description_map,
+                )
 
 
 def generate_query_doc(
-- 
2.43.0


From d89fc915484445bdd9f844cd70f30e90ce85855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 25/42] fix: accept null for a nullable union selected through
 a single fragment

---
 turms/recurse.py | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..a445e21 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -183,34 +183,28 @@ def recurse_annotation(
 
         if len(union_class_names) > 1:
             registry.register_import("typing.Union")
-            union_slice = ast.Tuple(
-                elts=[
-                    ast.Name(id=clsname, ctx=ast.Load())
-                    for clsname in union_class_names
-                ],
+            union: ast.Subscript | ast.Name = ast.Subscript(
+                value=ast.Name("Union", ctx=ast.Load()),
+                slice=ast.Tuple(
+                    elts=[
+                        ast.Name(id=clsname, ctx=ast.Load())
+                        for clsname in union_class_names
+                    ],
+                    ctx=ast.Load(),
+                ),
                 ctx=ast.Load(),
             )
-
-            if is_optional:
-                registry.register_import("typing.Optional")
-
-                return ast.Subscript(
-                    value=ast.Name("Optional", ctx=ast.Load()),
-                    slice=ast.Subscript(
-                        value=ast.Name("Union", ctx=ast.Load()),
-                        slice=union_slice,
-                    ),
-                    ctx=ast.Load(),
-                )
-            else:
-                registry.register_import("typing.Union")
-                return ast.Subscript(
-                    value=ast.Name("Union", ctx=ast.Load()),
-                    slice=union_slice,
-                    ctx=ast.Load(),
-                )
         else:
-            return ast.Name(id=union_class_names[0], ctx=ast.Load())
+            union = ast.Name(id=union_class_names[0], ctx=ast.Load())
+
+        if is_optional:
+            registry.register_import("typing.Optional")
+            return ast.Subscript(
+                value=ast.Name("Optional", ctx=ast.Load()),
+                slice=union,
+                ctx=ast.Load(),
+            )
+        return union
 
     if isinstance(type, GraphQLInterfaceType):
         # Lets Create Base Class to Inherit from for this
-- 
2.43.0


From 340094f8727c8a08ef73edde977c8b82fdd50f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 26/42] fix: accept the members of a union a selection leaves
 out

---
 turms/recurse.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index a445e21..9bb2f41 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -81,12 +81,21 @@ def recurse_annotation(
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
 
+        # The members of the union that are not selected yet: the server answers with
+        # nothing but their typename
+        left_out = {member.name: member for member in type.types}
+
         sub_nodes = non_typename_fields(node)
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 fragment_name = registry.inherit_fragment(sub_node.name.value)
                 union_class_names.append(fragment_name)
+                fragment_type = registry.get_fragment_type(sub_node.name.value)
+                if isinstance(fragment_type, GraphQLObjectType):
+                    left_out.pop(fragment_type.name, None)
+                else:
+                    left_out.clear()
 
             if isinstance(sub_node, InlineFragmentNode):
                 inline_fragment_name = (
@@ -180,6 +189,32 @@ def recurse_annotation(
 
                 subtree.append(cls)
                 union_class_names.append(inline_fragment_name)
+                left_out.pop(sub_node.type_condition.name.value, None)
+
+        for member in left_out:
+            member_class_name = f"{parent}{member}InlineFragment"
+            subtree.append(
+                ast.ClassDef(
+                    member_class_name,
+                    bases=merge_bases_sequences(
+                        get_additional_bases_for_type(member, config, registry),
+                        [
+                            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                            for base in config.object_bases
+                        ],
+                    ),
+                    decorator_list=[],
+                    keywords=[],
+                    type_params=[],
+                    body=merge_body_sequences(
+                        [generate_typename_field(member, registry, config)],
+                        generate_pydantic_config(
+                            GraphQLTypes.FRAGMENT, config, registry
+                        ),
+                    ),
+                )
+            )
+            union_class_names.append(member_class_name)
 
         if len(union_class_names) > 1:
             registry.register_import("typing.Union")
-- 
2.43.0


From 8d4142898abc572bc2849328f57083758e8ea19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 27/42] fix: ask for the typename of objects selected inside
 inline fragments

---
 turms/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index f9c9358..b79cae5 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -40,7 +40,7 @@ from graphql import (
     visit,
 )
 from graphql.error.graphql_error import GraphQLError
-from graphql.language.ast import DocumentNode, FieldNode, NameNode
+from graphql.language.ast import DocumentNode, FieldNode, InlineFragmentNode, NameNode
 from graphql import GraphQLSchema
 
 from turms.config import GeneratorConfig
@@ -479,10 +479,13 @@ def add_typename_recursively(
             )
         )
 
-    # Apply the function recursively to nested selection sets
+    # Apply the function recursively to nested selection sets (the object an inline
+    # fragment is on gets its __typename from the selection set around it)
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From 6ba02597e5b45122156cf609f35a8bdc26e03cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 28/42] fix: order fragments that are spread inside inline
 fragments of other fragments

---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 8799ebd..4c1171f 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -64,8 +64,11 @@ def find_fragment_dependencies_recursive(
                         fragment.selection_set, fragment_definitions, visited
                     )
                 )
-        # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        # If it's a field or an inline fragment with a nested selection set, dive deeper
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From 289ac7a6d08624f3d8fa3c2f858304aab2d8662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 29/42] fix: generate union fragments that spread the fragment
 of a member

---
 turms/plugins/fragments.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 4c1171f..b307a8f 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -505,12 +505,19 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
-                # We are dealing with a fragment that is a union
-                implementation_map = registry.get_union_fragment_members(
-                    sub_node.name.value
-                )
-                for k, v in implementation_map.items():
-                    member_class_base_classes.setdefault(k, []).append(v)
+                try:
+                    # We are dealing with a fragment that is a union
+                    implementation_map = registry.get_union_fragment_members(
+                        sub_node.name.value
+                    )
+                    for k, v in implementation_map.items():
+                        member_class_base_classes.setdefault(k, []).append(v)
+
+                except KeyError:
+                    x = registry.get_fragment_type(sub_node.name.value)
+                    member_class_base_classes.setdefault(x.name, []).append(
+                        registry.inherit_fragment(sub_node.name.value)
+                    )
 
             elif isinstance(sub_node, FieldNode):
                 if sub_node.name.value == "__typename":
-- 
2.43.0


From 459cf89622725272f928f3d8afab011d28a16ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 30/42] fix: inherit from the generated class of a fragment
 spread in a union fragment

---
 turms/plugins/fragments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index b307a8f..ae945a2 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -531,7 +531,10 @@ def generate_fragment(
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
                         )
                         continue
 
-- 
2.43.0


From 62f908783f3b544ac341b8bdb531da0571d6b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 31/42] fix: keep the fragments spread inside inline fragments
 on interfaces

---
 turms/plugins/fragments.py | 10 ++++++++++
 turms/recurse.py           | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index ae945a2..a2a829b 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -265,6 +265,16 @@ def generate_fragment(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
+                        )
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index 9bb2f41..b0f7696 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -306,6 +306,17 @@ def recurse_annotation(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if not isinstance(field, FieldNode):
                         continue
 
-- 
2.43.0


From 0d59d7ea2c4f70469ed137f4d27102d070636a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 32/42] fix: inherit from the implementation of an interface
 fragment spread in a union's inline fragment

---
 turms/recurse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index b0f7696..7ffbd13 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -111,13 +111,13 @@ def recurse_annotation(
 
                 for sub_sub_node in sub_node.selection_set.selections:
                     if isinstance(sub_sub_node, FragmentSpreadNode):
-                        if registry.is_interface_fragment(sub_sub_node.name.value):
-                            raise Exception(
-                                "Interface Fragments with additional subfields are not yet implemented"
-                            )
                         spread_fragment_bases.append(
                             ast.Name(
-                                id=registry.inherit_fragment(sub_sub_node.name.value),
+                                id=registry.get_interface_fragment_implementation_or_none(
+                                    sub_sub_node.name.value,
+                                    sub_node.type_condition.name.value,
+                                )
+                                or registry.inherit_fragment(sub_sub_node.name.value),
                                 ctx=ast.Load(),
                             )
                         )
-- 
2.43.0


From fe66539d9bea78d526a7a211cf340f7f76f2f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 33/42] fix: keep the fields of interface fragments readable on
 unknown implementations

---
 turms/plugins/fragments.py | 13 ++++++++++++-
 turms/recurse.py           | 10 ++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index a2a829b..439f8d3 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -224,6 +224,9 @@ def generate_fragment(
         # i.e eg subtype of the interface
         implementing_class_base_classes: Dict[str, List[str]] = {}
 
+        # The catch all classes of the interface fragments this one spreads
+        catch_all_base_classes: List[str] = []
+
         # This is a map of inlien fragments field on their respective types
         inline_fragment_fields: Dict[str, List[ast.AnnAssign | ast.Expr]] = {}
 
@@ -241,6 +244,13 @@ def generate_fragment(
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
+                    fragment_type = registry.get_fragment_type(sub_node.name.value)
+                    if fragment_type is type or fragment_type in type.interfaces:
+                        # An unknown implementation has the fields of the fragment, too
+                        catch_all_base_classes.append(
+                            registry.inherit_fragment(sub_node.name.value) + "Catch"
+                        )
+
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
@@ -319,7 +329,8 @@ def generate_fragment(
         catch_class = ast.ClassDef(
             catch_class_name,
             bases=[
-                ast.Name(id=mother_class_name, ctx=ast.Load())
+                ast.Name(id=x, ctx=ast.Load())
+                for x in [*catch_all_base_classes, mother_class_name]
             ],  # Todo: fill with base
             decorator_list=[],
             keywords=[],
diff --git a/turms/recurse.py b/turms/recurse.py
index 7ffbd13..6ccc37a 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -263,6 +263,8 @@ def recurse_annotation(
 
         implementing_class_base_classes: Dict[str, List[str]] = {}
 
+        catch_all_base_classes: List[str] = []
+
         inline_fragment_fields: Dict[str, List[ast.AnnAssign | ast.Expr]] = {}
 
         for sub_node in sub_nodes:
@@ -278,6 +280,13 @@ def recurse_annotation(
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
+                    fragment_type = registry.get_fragment_type(sub_node.name.value)
+                    if fragment_type is type or fragment_type in type.interfaces:
+                        # An unknown implementation has the fields of the fragment, too
+                        catch_all_base_classes.append(
+                            registry.inherit_fragment(sub_node.name.value) + "Catch"
+                        )
+
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
@@ -449,6 +458,7 @@ def recurse_annotation(
             catch_all_class = ast.ClassDef(
                 catch_all_class_name,
                 bases=merge_bases_sequences(
+                    [ast.Name(id=x, ctx=ast.Load()) for x in catch_all_base_classes],
                     [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
-- 
2.43.0


From 70be15cd6b19d57eb73f20bf2f0806822802784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 34/42] fix: keep classes of different selections apart that
 would get the same name

---
 turms/recurse.py | 75 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 6ccc37a..879aa35 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -38,6 +38,33 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
+def unique_class_name(name: str, subtree: list[ast.ClassDef], suffix: str = "") -> str:
+    """Numbers the name of a class if the subtree already has a class of that name"""
+    taken = {cls.name for cls in subtree if isinstance(cls, ast.ClassDef)}
+    unique_name, number = name, 1
+    while unique_name + suffix in taken:
+        number += 1
+        unique_name = f"{name}{number}"
+    return unique_name
+
+
+def add_class(cls: ast.ClassDef, subtree: list[ast.ClassDef]) -> str:
+    """Adds a class to the subtree and returns its name
+
+    Another selection may have led to a class of the same name: If it is the same class
+    it is used again, otherwise the new class gets a number.
+    """
+    same_name = [
+        other
+        for other in subtree
+        if isinstance(other, ast.ClassDef) and other.name == cls.name
+    ]
+    if not any(ast.dump(cls) == ast.dump(other) for other in same_name):
+        cls.name = unique_class_name(cls.name, subtree)
+        subtree.append(cls)
+    return cls.name
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -187,34 +214,28 @@ def recurse_annotation(
                     body=merged_body,
                 )
 
-                subtree.append(cls)
-                union_class_names.append(inline_fragment_name)
+                union_class_names.append(add_class(cls, subtree))
                 left_out.pop(sub_node.type_condition.name.value, None)
 
         for member in left_out:
-            member_class_name = f"{parent}{member}InlineFragment"
-            subtree.append(
-                ast.ClassDef(
-                    member_class_name,
-                    bases=merge_bases_sequences(
-                        get_additional_bases_for_type(member, config, registry),
-                        [
-                            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                            for base in config.object_bases
-                        ],
-                    ),
-                    decorator_list=[],
-                    keywords=[],
-                    type_params=[],
-                    body=merge_body_sequences(
-                        [generate_typename_field(member, registry, config)],
-                        generate_pydantic_config(
-                            GraphQLTypes.FRAGMENT, config, registry
-                        ),
-                    ),
-                )
+            member_class = ast.ClassDef(
+                f"{parent}{member}InlineFragment",
+                bases=merge_bases_sequences(
+                    get_additional_bases_for_type(member, config, registry),
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in config.object_bases
+                    ],
+                ),
+                decorator_list=[],
+                keywords=[],
+                type_params=[],
+                body=merge_body_sequences(
+                    [generate_typename_field(member, registry, config)],
+                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                ),
             )
-            union_class_names.append(member_class_name)
+            union_class_names.append(add_class(member_class, subtree))
 
         if len(union_class_names) > 1:
             registry.register_import("typing.Union")
@@ -248,7 +269,9 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = f"{parent}{target.capitalize()}"
+        base_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        )
 
         if type.description:
             mother_class_fields.append(
@@ -615,7 +638,7 @@ def recurse_annotation(
             ),
         )
 
-        subtree.append(cls)
+        object_class_name = add_class(cls, subtree)
 
         if is_optional:
             registry.register_import("typing.Optional")
-- 
2.43.0


From c2a130245756f5d82318cc027d0ab47f80a10377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 35/42] fix: keep enum values importable whose names python
 does not allow for members of an Enum

---
 turms/plugins/enums.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index 8cfeb18..02d0967 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -1,6 +1,7 @@
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from keyword import iskeyword
 from typing import List, Sequence
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
@@ -27,6 +28,13 @@ class EnumsPluginConfig(PluginConfig):
     append: str = ""
 
 
+def enum_member_name(value: str) -> str:
+    """The python name of an enum value: some names are not allowed for members of an Enum"""
+    if iskeyword(value) or value == "mro" or (value[0] == "_" and value[-1] == "_"):
+        return value + "_"
+    return value
+
+
 def generate_enums(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -74,7 +82,7 @@ def generate_enums(
                 servalue = value.value.value
 
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[ast.Name(id=enum_member_name(value_key), ctx=ast.Store())],
                 value=ast.Constant(value=servalue),
             )
 
-- 
2.43.0


From f46adf9b46ec6a45ad92db53cfc2ce544dc9abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 36/42] fix: request the __typename of objects of which only an
 alias is selected

---
 turms/utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index b79cae5..069c083 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -102,6 +102,15 @@ def target_from_node(node: FieldNode) -> str:
     )
 
 
+def is_typename_field(node: SelectionNode) -> bool:
+    """Whether the node is the __typename the classes read (which does not go by an alias)"""
+    return (
+        isinstance(node, FieldNode)
+        and node.name.value == "__typename"
+        and not node.alias
+    )
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
@@ -463,10 +472,7 @@ def add_typename_recursively(
 
     # Collect all existing fields in the selection set
     selections = list(selection_set.selections)
-    has_typename = any(
-        isinstance(field, FieldNode) and field.name.value == "__typename"
-        for field in selections
-    )
+    has_typename = any(is_typename_field(field) for field in selections)
 
     # Add __typename if it's not already present
     if not has_typename and not skip:
@@ -580,10 +586,7 @@ def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
     for fragment in x.definitions:
         if isinstance(fragment, FragmentDefinitionNode):
             selections = list(fragment.selection_set.selections)
-            if not any(
-                isinstance(field, FieldNode) and field.name.value == "__typename"
-                for field in selections
-            ):
+            if not any(is_typename_field(field) for field in selections):
                 selections.append(
                     FieldNode(
                         name=NameNode(value="__typename"),
-- 
2.43.0


From e51e69169ce3a513ca03dda34038b485deac6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:15 +0000
Subject: [PATCH 37/42] fix: keep models importable whose fields are named like
 _id or model_config

---
 turms/plugins/input_funcs.py |  4 +++-
 turms/plugins/strawberry.py  | 15 ++++++++++-----
 turms/registry.py            | 19 +++++++++++++++----
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 96fd1ec..9aaecb7 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -58,7 +58,9 @@ def generate_input_func(
     """Builds a factory function that constructs and returns the input model."""
     class_name = registry.get_inputtype_class(typename)
 
-    func_name = plugin_config.prepend + registry.generate_parameter_name(typename)
+    func_name = plugin_config.prepend + registry.generate_parameter_name(
+        typename, of_model=False
+    )
     if func_name == class_name:
         # Avoid shadowing the model class (would make the body call itself).
         func_name += "_"
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..b072ce2 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -248,7 +248,8 @@ def default_generate_directives(
 
             assign = ast.AnnAssign(
                 target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
+                    id=registry.generate_node_name(value_key, of_model=False),
+                    ctx=ast.Store(),
                 ),
                 annotation=build_directive_type_annotation(type, registry),
                 value=field_value,
@@ -797,7 +798,8 @@ def generate_inputs(
 
             assign = ast.AnnAssign(
                 target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
+                    registry.generate_node_name(value_key, of_model=False),
+                    ctx=ast.Store(),
                 ),
                 annotation=recurse_argument_annotation(
                     value.type,
@@ -955,7 +957,9 @@ def generate_types(
                 for argkey, arg in sorted_args.items():
                     additional_args.append(
                         ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
+                            arg=registry.generate_parameter_name(
+                                argkey, of_model=False
+                            ),
                             annotation=recurse_argument_annotation(
                                 arg.type,
                                 classname,
@@ -1004,7 +1008,8 @@ def generate_types(
                 # lets create a simple field
                 assign = ast.AnnAssign(
                     target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
+                        registry.generate_node_name(value_key, of_model=False),
+                        ctx=ast.Store(),
                     ),
                     annotation=returns,
                     value=assign_value,
@@ -1041,7 +1046,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=registry.generate_node_name(value_key, of_model=False),
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
diff --git a/turms/registry.py b/turms/registry.py
index 130c7a1..0d200e0 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -3,6 +3,7 @@ from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
 from graphql import DocumentNode, GraphQLNamedType
+from pydantic import BaseModel
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
 from turms.errors import (
@@ -211,6 +212,16 @@ built_in_map = {
 }  # builtin map provides the default types for any schema if they are referenced
 
 
+def model_field_name(name: str) -> str:
+    """The name of a field in a pydantic model: Fields must not start with an underscore
+    or take the place of an attribute of the model"""
+    if name.startswith("_"):
+        return "field" + name
+    if name.startswith("model_") and hasattr(BaseModel, name):
+        return name + "_"
+    return name
+
+
 class ClassRegistry(object):
     """Class Registry is responsible for keeping track of all the classes that are generated
     as well as their names. It also keeps track of all the imports that are required for the
@@ -531,23 +542,23 @@ class ClassRegistry(object):
             )
         return self.fragment_class_map[typename]
 
-    def generate_node_name(self, node_name: str):
+    def generate_node_name(self, node_name: str, of_model: bool = True):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
 
         if iskeyword(node_name):
             return node_name + "_"
 
-        return node_name
+        return model_field_name(node_name) if of_model else node_name
 
-    def generate_parameter_name(self, node_name: str):
+    def generate_parameter_name(self, node_name: str, of_model: bool = True):
         for styler in self.stylers:
             node_name = styler.style_parameter_name(node_name)
 
         if iskeyword(node_name):
             return node_name + "_"
 
-        return node_name
+        return model_field_name(node_name) if of_model else node_name
 
     def style_query_class(self, typename: str):
         for styler in self.stylers:
-- 
2.43.0


From 563ffcc8b0aeb9226ac91064a88160e8e0c81366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:14 +0000
Subject: [PATCH 38/42] fix: generate functions for operations that select
 nothing but the __typename of an object

---
 turms/plugins/funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 7095f66..19a3b4c 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -732,7 +732,7 @@ def get_return_type_annotation(
         sub_nodes = non_typename_fields(collapsable_field)
         field_definition = get_field_def(client_schema, root, collapsable_field)
 
-        if len(sub_nodes) == 0:  # pragma: no cover
+        if not collapsable_field.selection_set:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
@@ -795,7 +795,9 @@ def get_return_type_string(
             client_schema, root, potential_return_field
         )
 
-        if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
+        if (
+            not potential_return_field.selection_set
+        ):  # Dealing with a scalar type  # pragma: no cover
             return recurse_outputtype_label(potential_return_type.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
-- 
2.43.0


From 0f5f1857c4b1e669d31d4ad6830912a51618d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 39/42] fix: read answers without fields that an @include or
 @skip directive leaves out

---
 turms/recurse.py | 5 +++++
 turms/utils.py   | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index 879aa35..62ea4d4 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -15,6 +15,7 @@ from turms.utils import (
     generate_typename_field,
     get_additional_bases_for_type,
     get_interface_bases,
+    is_conditional,
     merge_bases_sequences,
     merge_body_sequences,
     non_typename_fields,
@@ -788,6 +789,10 @@ def type_field_node(
 
     type = cast(BoundType, field.type)
 
+    if isinstance(type, GraphQLNonNull) and is_conditional(node):
+        # The server leaves the field out, depending on the variables
+        type = type.of_type
+
     if not isinstance(type, GraphQLNonNull):
         keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))
 
diff --git a/turms/utils.py b/turms/utils.py
index 069c083..d65d3e1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -111,6 +111,13 @@ def is_typename_field(node: SelectionNode) -> bool:
     )
 
 
+def is_conditional(node: FieldNode) -> bool:
+    """Whether the field is part of the answer only under a condition"""
+    return any(
+        directive.name.value in ("include", "skip") for directive in node.directives
+    )
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
-- 
2.43.0


From d60061b09e659e164ca1d520a1e31c6567d8745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:33 +0000
Subject: [PATCH 40/42] fix: let functions and input factories take arguments
 called like the variables they use

---
 turms/plugins/funcs.py       | 20 +++++++++++++++-----
 turms/plugins/input_funcs.py |  7 +++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 19a3b4c..0f78e88 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -318,6 +318,11 @@ def generate_input_type_descriptions(
     return description
 
 
+def parameter_name(name: str, local: str = "variables") -> str:
+    """The name of a parameter, kept apart from the local variable they are collected in"""
+    return name + "_" if name == local else name
+
+
 def coercible_input_union(
     inputtype_reference: ast.expr,
     coercible: PythonType,
@@ -404,13 +409,14 @@ def generate_input_type_params(
     input_type: GraphQLInputObjectType,
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
+    local: str = "variables",
 ):
     pos_args = []
     kw_args = []
     kw_values = []
 
     for value_key, value in input_type.fields.items():
-        field_name = registry.generate_node_name(value_key)
+        field_name = parameter_name(registry.generate_node_name(value_key), local)
 
         if isinstance(value.type, GraphQLNonNull):
             pos_args.append(
@@ -503,7 +509,9 @@ def generate_parameters(
     for v in non_expandable_args:
         pos_args.append(
             ast.arg(
-                arg=registry.generate_parameter_name(v.variable.name.value),
+                arg=parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value)
+                ),
                 annotation=generate_variable_annotation(
                     v.type, registry, plugin_config
                 ),
@@ -517,7 +525,9 @@ def generate_parameters(
         # is part of the parameter's type: Union[<type>, UnsetType].
         kw_args.append(
             ast.arg(
-                arg=registry.generate_parameter_name(v.variable.name.value),
+                arg=parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value)
+                ),
                 annotation=unset_union_annotation(
                     generate_variable_annotation(v.type, registry, plugin_config),
                     registry,
@@ -629,7 +639,7 @@ def generate_variable_assignments(
                 )
             )
             for value_key, field in input_type.fields.items():
-                field_param = registry.generate_node_name(value_key)
+                field_param = parameter_name(registry.generate_node_name(value_key))
                 field_subscript = ast.Subscript(
                     value=ast.Name(id=inner_name, ctx=ast.Load()),
                     slice=ast.Constant(value=value_key),
@@ -654,7 +664,7 @@ def generate_variable_assignments(
                 )
             )
         else:
-            param = registry.generate_parameter_name(gql_name)
+            param = parameter_name(registry.generate_parameter_name(gql_name))
             param_value = ast.Name(id=param, ctx=ast.Load())
             if is_required:
                 # required positional argument → always present
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 9aaecb7..9a6357a 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -25,6 +25,7 @@ from turms.plugins.funcs import (
     dict_str_any_annotation,
     generate_input_type_descriptions,
     generate_input_type_params,
+    parameter_name,
 )
 from turms.referencer import create_reference_registry_from_documents
 from turms.registry import ClassRegistry
@@ -68,7 +69,7 @@ def generate_input_func(
     # Required fields -> positional params; optional fields -> keyword params
     # defaulting to UNSET (so they can be omitted). Honors coercible_scalars.
     pos_args, kw_args, kw_values = generate_input_type_params(
-        input_type, plugin_config, registry
+        input_type, plugin_config, registry, local="data"
     )
 
     body: List[ast.stmt] = []
@@ -90,7 +91,9 @@ def generate_input_func(
     )
 
     for value_key, value in input_type.fields.items():
-        field_param = registry.generate_node_name(value_key)
+        field_param = parameter_name(
+            registry.generate_node_name(value_key), local="data"
+        )
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-- 
2.43.0


From 43eaff873c108362f498e2b065423ac0cc097743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:45 +0000
Subject: [PATCH 41/42] fix: refuse an answer of nothing but blank space as a
 schema

A blank answer to a schema request was taken for an empty part if the schema
has several sources, so that the code was generated without that source.
---
 turms/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 1f68ba6..47773bc 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -134,8 +134,8 @@ def load_dsl_from_url(
     try:
         req = requests.get(url, headers=default_headers, timeout=REQUEST_TIMEOUT)  # type: ignore
         assert req.status_code == 200, "Incorrect status code"
-        assert req.content, "No content"
         x = req.content.decode("utf-8-sig")
+        assert x.strip(), "No content"
     except Exception as e:
         raise GenerationError(f"Failed to fetch schema from {url}") from e
     return x
-- 
2.43.0


From 75106ca06549e4c8a6a2de471f8d4fe4d8e6ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:50 +0000
Subject: [PATCH 42/42] fix: generate functions for fields of an interface that
 spread a fragment on one of its interfaces

---
 turms/plugins/funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 0f78e88..2167a9e 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -14,6 +14,7 @@ from graphql import (
     NamedTypeNode,
     VariableNode,
     get_named_type,
+    is_object_type,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -755,6 +756,8 @@ def get_return_type_annotation(
                         collapsable_fragment_field.name.value,
                         get_named_type(field_definition.type).name,
                     )
+                    if is_object_type(get_named_type(field_definition.type))
+                    else None
                 )
                 overwrite_final = (
                     implementation
@@ -821,6 +824,8 @@ def get_return_type_string(
                         collapsable_fragment_field.name.value,
                         get_named_type(potential_return_type.type).name,
                     )
+                    if is_object_type(get_named_type(potential_return_type.type))
+                    else None
                 )
                 overwrite_final = (
                     implementation
-- 
2.43.0

