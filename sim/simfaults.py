"""Generator components that misbehave on demand; configured like any third-party component."""
import subprocess
from typing import Any, Dict, Optional

from turms.errors import GenerationError
from turms.parsers.base import Parser, ParserConfig
from turms.plugins.base import Plugin, PluginConfig
from turms.processors.base import Processor, ProcessorConfig
from turms.stylers.base import BaseStyler, StylerConfig


def boom(kind):
    if kind == "generation":
        raise GenerationError("simulated failure [/component] of a plugin")
    if kind == "key":
        raise KeyError("simulated")
    if kind == "os":
        raise OSError(5, "simulated I/O error")
    if kind == "assert":
        raise AssertionError
    if kind == "recursion":
        raise RecursionError("simulated")
    if kind == "unicode":
        b"\xff".decode("utf-8")
    if kind == "group":
        raise ExceptionGroup("several", [ValueError("a"), TypeError("b")])
    if kind == "stop":
        raise StopIteration("simulated")
    if kind == "called":
        raise subprocess.CalledProcessError(1, ["tool"], "", "simulated")
    if kind in BY_NAME:
        raise BY_NAME[kind]("simulated failure (" + kind + ")")
    raise ValueError("simulated failure with a newline\nand [red]markup[/]")


BY_NAME = {"import": ImportError, "module": ModuleNotFoundError, "implemented": NotImplementedError, "timeout": TimeoutError, "permission": PermissionError,
           "notfound": FileNotFoundError, "attribute": AttributeError, "type": TypeError, "index": IndexError, "runtime": RuntimeError, "eof": EOFError,
           "syntax": SyntaxError, "connection": ConnectionError, "memory": MemoryError, "warning": UserWarning}
EXCS = ["generation", "key", "os", "assert", "recursion", "unicode", "group", "stop", "value", "called", *BY_NAME]


class PC(PluginConfig):
    exc: str = "value"


class FailingPlugin(Plugin):
    config: PC

    def generate_ast(self, client_schema, config, registry):
        boom(self.config.exc)


class PrC(ParserConfig):
    exc: str = "value"


class FailingParser(Parser):
    config: PrC
    log: Any = None

    def parse_ast(self, asts):
        boom(self.config.exc)


class SC(StylerConfig):
    exc: str = "value"
    after: int = 0


class FailingStyler(BaseStyler):
    config: SC
    log: Any = None

    def style_node_name(self, name):
        boom(self.config.exc)

    style_enum_name = style_query_name = style_fragment_name = style_mutation_name = style_object_name = style_node_name
    style_subscription_name = style_input_name = style_node_name


class XC(ProcessorConfig):
    exc: str = "value"
    partial: bool = False


class FailingProcessor(Processor):
    config: XC

    def run(self, gen_file, config):
        boom(self.config.exc)


class TagC(ProcessorConfig):
    tag: str = ""
    pad: int = 0


class TagProcessor(Processor):
    """Appends a comment and notes that it ran."""
    config: TagC

    def run(self, gen_file, config):
        import os
        d = os.environ.get("SIM_TOOL")
        if d:
            with open(os.path.join(d, self.config.tag + ".ran"), "a") as f:
                f.write("x")
        return gen_file + tag_text(self.config.tag, self.config.pad)


def tag_text(tag, pad):
    return "\n# tag " + tag + " größe\n" + "# padding – 0123456789 abcdefghijklmnopqrstuvwxyz\n" * pad
