"""What a simulated process runs: the real entry points of turms."""
from __future__ import annotations

EXPORT = {}


def cli(spec):
    from turms.cli.main import cli as group
    group.main(args=list(spec["args"]), prog_name="turms", standalone_mode=True)


def lib(spec):
    """The library entry point: turms.run.gen."""
    from turms.run import gen
    gen(spec.get("config"), spec.get("project"), strict=spec.get("strict", False), overwrite_path=spec.get("overwrite"))


def cliseq(spec):
    """Several command lines one after the other in one simulated process (forked per command)."""
    import os
    rc = 0
    for args in spec["argslist"]:
        try:
            cli({"args": args})
        except SystemExit as e:
            rc = rc or (e.code if isinstance(e.code, int) else 0 if e.code is None else 1)
    return {"rc": rc}


def hook_watch_once(arg, root):
    """Watch mode that sees one notification and then ends."""
    import turms.cli.main as m
    import turms.cli.watch as tw

    def fake(*a, **k):
        yield {(1, "docs/x.graphql")}
    tw.watch = fake


def hook_tool(arg, root):
    """External commands: the python interpreter they may be started through, and failing forks."""
    import errno, os, subprocess, sys
    sys.executable = os.path.join(os.path.dirname(os.environ["SIM_SO"]), "simtool")
    real, n = subprocess._fork_exec, [0]

    def fork_exec(*a):
        n[0] += 1
        if arg.get("fail_at") == n[0]:
            e = getattr(errno, arg["err"])
            raise OSError(e, os.strerror(e))
        return real(*a)
    subprocess._fork_exec = fork_exec


def hook_notify(arg, root):
    import watchsim
    watchsim.install(arg, root)


def hook_net(arg, root):
    import net
    net.install(arg)


def export():
    out = {}
    for k, v in EXPORT.items():
        if k == "net":
            import net
            v = net.export(v)
        out[k] = v
    return out


ENTRIES = {"cli": cli, "lib": lib, "cliseq": cliseq}
HOOKS = {"notify": hook_notify, "tool": hook_tool, "net": hook_net, "watch_once": hook_watch_once}
