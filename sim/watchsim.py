"""The file notification service of the simulation: stands in for watchfiles' native part."""
import json
import os

POLL = ".simwatch-poll"


class SimNotify:
    """Same interface as watchfiles' RustNotify; every call waits for the controller."""

    def __init__(self, paths, debug=False, force_polling=False, poll_delay_ms=300, recursive=True, ignore_permission_denied=False):
        self.paths = [os.path.realpath(p) for p in paths]
        self.given = list(paths)
        self.recursive = recursive

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def watch(self, debounce_ms, step_ms, timeout_ms, stop_event=None):
        try:
            os.close(os.open(os.path.join(self.root, POLL), os.O_RDONLY))
        except FileNotFoundError:
            pass
        with open(self.mailbox) as f:      # outside the simulated root
            m = json.load(f)
        if m.get("net"):                   # what the schema server publishes, and how it behaves, from now on
            import net
            for key, x in m["net"].items():
                net.NET.servers[key]["sdl"] = x["sdl"]
                net.NET.faults[key] = [None] * net.NET.count.get(key, 0) + x["faults"]
        if m["what"] != "changes":
            return m["what"]
        out = set()
        for change, rel in m["changes"]:
            full = os.path.join(self.root, rel)
            for given, base in zip(self.given, self.paths):
                if full == base or full.startswith(base + "/") and (self.recursive or "/" not in full[len(base) + 1:]):
                    out.add((change, full if os.path.isabs(given) else os.path.join(given, os.path.relpath(full, base))))
                    break
        return out or "timeout"


def install(arg, root):
    import watchfiles.main as m
    SimNotify.root = os.path.realpath(root)
    SimNotify.mailbox = os.path.join(os.path.dirname(root), "meta", "mailbox.json")
    m.RustNotify = SimNotify
