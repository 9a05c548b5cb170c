"""Import everything once, before processes are forked."""
import encodings.ascii, encodings.idna, encodings.latin_1, encodings.utf_8_sig  # noqa
import importlib
import pkgutil

import turms.cli.main  # noqa
import turms.run  # noqa
for pkg in ("turms.plugins", "turms.processors", "turms.parsers", "turms.stylers", "turms.cli"):
    p = importlib.import_module(pkg)
    for m in pkgutil.iter_modules(p.__path__):
        try:
            importlib.import_module(f"{pkg}.{m.name}")
        except ImportError:
            pass
import requests  # noqa
import toml  # noqa
import rich.traceback, rich.live, rich.tree, rich.panel, rich.markup  # noqa
import rich._emoji_codes  # noqa
import pygments.lexers.python, pygments.styles, pygments.formatters  # noqa
import click  # noqa
import entries  # noqa

try:
    import black  # noqa
    black.format_str("x = 1\n", mode=black.FileMode())
except Exception:
    pass
try:
    import libcst
    libcst.parse_module("x = 1\n")
except Exception:
    pass
try:
    import isort  # noqa
    isort.code("import a\n")
except Exception:
    pass

import gc
gc.collect()
gc.freeze()
