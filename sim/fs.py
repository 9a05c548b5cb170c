"""Controller of simulated processes: every file operation of every process parks at the libc seam
(shim.c) and goes on only when this controller says so, in the order this controller picks."""
from __future__ import annotations

import ctypes
import errno
import json
import os
import random
import re
import select
import shutil
import signal
import socket
import struct
import sys
import time

from core import HarnessError

OPS = {1: "openr", 2: "openw", 3: "read", 4: "write", 5: "trunc", 6: "fsync", 7: "closew", 8: "rename", 9: "unlink", 10: "mkdir",
       11: "rmdir", 12: "opendir", 13: "link", 14: "chmod", 15: "stat", 16: "lock"}
NUM = {v: k for k, v in OPS.items()}
MUTATING = {"openw", "write", "trunc", "closew", "rename", "unlink", "mkdir", "rmdir", "link", "chmod", "fsync"}
MSG = struct.Struct("=Ii QQ 232s 232s")
REP = struct.Struct("=IiQ")
GO, FAIL, SHORT, CRASH_BEFORE, CRASH_AFTER, CRASH_PARTIAL, SIGINT, SIGINT_EINTR = range(8)
ACTION = {"fail": FAIL, "short": SHORT, "crash_before": CRASH_BEFORE, "crash_after": CRASH_AFTER, "crash_partial": CRASH_PARTIAL,
          "sigint": SIGINT, "sigint_eintr": SIGINT_EINTR}
MASK_DEFAULT = sum(1 << n for n in OPS if n != NUM["stat"])
MASK_ALL = sum(1 << n for n in OPS)
ERRNO = {k: getattr(errno, k) for k in ("EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "EMFILE", "ENOENT", "EPERM", "ENOMEM", "EINTR", "EBUSY", "EISDIR", "ESTALE", "EEXIST")}

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("SIM_SO")
        if not so:
            raise HarnessError("the seam is not loaded")
        _lib = ctypes.CDLL(so)
        _lib.sim_attach.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint32, ctypes.c_uint64, ctypes.c_int64]
    return _lib


class Proc:
    def __init__(self, name, spec):
        self.name, self.spec = name, spec
        self.pid = None
        self.sock = None
        self.pending = None      # the announced operation
        self.ops = 0
        self.done = False
        self.result = None       # dict from the child, or None if it died
        self.status = None
        self.full_from = None
        self.oplog = []

    @property
    def rc(self):
        if self.result is not None:
            return self.result["rc"]
        return 137


class World:
    """One simulated machine: a directory tree and the processes running on it."""

    def __init__(self, base=None, cap=6000):
        self.base = base or os.path.join(os.environ["SIM_SCRATCH"], "world")
        self.root = os.path.join(self.base, "root")
        self.meta = os.path.join(self.base, "meta")
        for d in (self.root, self.meta):
            if os.path.lexists(d):
                shutil.rmtree(d)
            os.makedirs(d)
        self.trace = []
        self.cap = cap
        self.known = set()
        self.alias = {}
        self.hang = False
        self.capped = False
        self.deadlock = False
        self.fired = []
        self.choices = []
        self.clock = 0
        self.patience = 120

    # ---- files
    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        self.known.update(rel.split("/"))

    def populate(self, files, mtime_seed=0):
        """Write files; their modification times are fixed, or in a seeded order (and partly equal) if a seed is given."""
        rng = random.Random(mtime_seed)
        for rel, data in files.items():
            self.write(rel, data)
            t = 1500000000 + (rng.randrange(0, 40) * 3600 if mtime_seed else 0)
            os.utime(self.path(rel), (t, t))

    def make_link(self, rel, to):
        """The file lies elsewhere, a symbolic link leads to it."""
        os.makedirs(os.path.dirname(self.path(to)), exist_ok=True)
        os.rename(self.path(rel), self.path(to))
        os.symlink(os.path.relpath(self.path(to), os.path.dirname(self.path(rel))), self.path(rel))

    def read(self, rel):
        try:
            with open(self.path(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
            for x in ds:
                out.setdefault(os.path.relpath(os.path.join(d, x), self.root) + "/", None)
        return out

    def restore(self, snap):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for rel, data in snap.items():
            if rel.endswith("/"):
                os.makedirs(self.path(rel), exist_ok=True)
        for rel, data in snap.items():
            if data is not None:
                self.write(rel, data)

    def norm(self, path):
        if path == ".":
            return path
        parts = []
        for c in path.split("/"):
            if c not in self.known:
                if c not in self.alias:
                    self.alias[c] = f"new{len(self.alias)}"
                c = self.alias[c]
            parts.append(c)
        return "/".join(parts)

    # ---- processes
    def start(self, name, spec, mask=MASK_DEFAULT, rng_seed=1, clock=0):
        p = Proc(name, spec)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        resf = os.path.join(self.meta, name + ".json")
        outf = os.path.join(self.meta, name + ".out")
        for f in (resf, outf):
            if os.path.exists(f):
                os.unlink(f)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                _child(b, self.root, spec, resf, outf, mask, rng_seed, clock)
            finally:
                os._exit(99)
        b.close()
        p.pid, p.sock, p.resf, p.outf = pid, a, resf, outf
        self._await(p)
        return p

    def _await(self, p):
        """Wait until p parks at an operation or ends."""
        r, _, _ = select.select([p.sock], [], [], self.patience)
        if not r:
            self.hang = True
            os.kill(p.pid, signal.SIGKILL)
            self._reap(p)
            self.trace.append([p.name, "hang"])
            return
        data = p.sock.recv(MSG.size)
        if len(data) != MSG.size:
            self._reap(p)
            self.trace.append([p.name, "exit", p.rc])
            return
        op, fd, arg, arg2, p1, p2 = MSG.unpack(data)
        p.pending = {"op": OPS[op], "path": p1.split(b"\0")[0].decode("utf-8", "replace"), "path2": p2.split(b"\0")[0].decode("utf-8", "replace"), "arg": arg, "arg2": arg2, "i": p.ops}

    def _reap(self, p):
        p.done, p.pending = True, None
        _, st = os.waitpid(p.pid, 0)
        p.status = st
        p.sock.close()
        try:
            with open(p.resf) as f:
                p.result = json.load(f)
        except (OSError, ValueError):
            p.result = None
        if p.result is None and not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137) and not self.hang:
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            out = self.output(p)
            raise HarnessError(f"simulated process ended unexpectedly ({code}): {out[-1500:]}")

    def output(self, p):
        try:
            with open(p.outf, "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def step(self, p, action=GO, err=0, n=0):
        """Let the parked operation of p happen as decided and run p to its next operation."""
        e = p.pending
        p.pending = None
        verdict = {GO: "", FAIL: f"!{errno.errorcode.get(err, err)}", SHORT: f"!short{n}", CRASH_BEFORE: "!crash-before", CRASH_AFTER: "!crash-after",
                   CRASH_PARTIAL: f"!crash-partial{n}", SIGINT: "!sigint", SIGINT_EINTR: "!sigint-eintr"}[action]
        row = [p.name, e["op"], self.norm(e["path"])]
        if e["path2"]:
            row.append(self.norm(e["path2"]))
        if e["op"] in ("write", "trunc"):
            row.append(e["arg"])
        if verdict:
            row.append(verdict)
        self.trace.append(row)
        p.ops += 1
        p.oplog.append((e["op"], self.norm(e["path"]), self.norm(e["path2"]) if e["path2"] else ""))
        try:
            p.sock.send(REP.pack(action, err, n))
        except (BrokenPipeError, ConnectionResetError):
            pass
        self._await(p)

    def run(self, procs, faults=(), schedule=None, observe=None, dir_seed=0):
        """Run processes to their end.

        procs: list of Proc already started (parked).  faults: [{"proc","at","kind","err","n"}].
        schedule: None (first alive first), {"seed": s, "p": switch probability} or
        {"script": [names...]} - the script names who goes next, falling back to the first parked.
        """
        fl = {}
        for f in faults:
            fl.setdefault(f["proc"], {})[f["at"]] = f
        rng = random.Random(schedule["seed"]) if schedule and "seed" in schedule else None
        script = list(schedule["script"]) if schedule and "script" in schedule else None
        cur = None
        steps = 0
        si = 0
        while True:
            live = [p for p in procs if not p.done]
            if not live or self.hang:
                break
            if steps >= self.cap:
                self.capped = True
                for p in live:
                    os.kill(p.pid, signal.SIGKILL)
                    p.result = None
                    try:
                        self._reap(p)
                    except HarnessError:
                        pass
                break
            ready = [p for p in live if p.pending["op"] != "lock"] or live
            if script is not None:
                want = script[si] if si < len(script) else None
                si += 1
                nxt = next((p for p in ready if p.name == want), None) or (cur if cur in ready else ready[0])
            elif rng is not None and len(ready) > 1:
                if cur not in ready or rng.random() < schedule.get("p", 0.3):
                    nxt = ready[rng.randrange(len(ready))]
                else:
                    nxt = cur
            else:
                nxt = cur if cur in ready else ready[0]
            cur = nxt
            self.choices.append(cur.name)
            steps += 1
            self.clock += 1
            e = cur.pending
            if observe:
                observe(self, cur, e)
            action, err, n = GO, 0, 0
            f = fl.get(cur.name, {}).get(cur.ops)
            if cur.full_from is not None and e["op"] in ("openw", "write", "mkdir", "rename", "link", "trunc"):
                # the disk stays full / read-only
                if not (e["op"] == "rename" and cur.full_err == errno.ENOSPC) and not (e["op"] == "trunc"):
                    action, err = FAIL, cur.full_err
            if f is not None:
                k = f["kind"]
                if k == "disk_full":
                    cur.full_from, cur.full_err = cur.ops, ERRNO[f.get("err", "ENOSPC")]
                    if e["op"] in ("openw", "write", "mkdir"):
                        action, err = FAIL, cur.full_err
                    self.fired.append((k + ":" + f.get("err", "ENOSPC"), e["op"], cur.name, cur.ops))
                else:
                    action = ACTION[k]
                    err = ERRNO.get(f.get("err", ""), 0)
                    n = f.get("n", 0)
                    if k in ("short", "crash_partial"):
                        n = max(0, min(int(e["arg"]) - 1, int(e["arg"] * f.get("frac", 0.5)))) if e["op"] in ("write", "read") else 0
                    if k == "fail" and e["op"] == "closew" and False:
                        pass
                    label = k + (":" + f["err"] if f.get("err") else "")
                    self.fired.append((label, e["op"], cur.name, cur.ops))
            elif action == GO and e["op"] == "opendir" and dir_seed:
                n = (dir_seed * 1000003 + cur.ops) & 0x7FFFFFFFFFFFFFFF or 1
            self.step(cur, action, err, n)
        if observe:
            observe(self, None, None)
        return self

    def kill_all(self, procs):
        for p in procs:
            if not p.done:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
                p.done = True
                p.sock.close()

    def spawn_run(self, specs, faults=(), schedule=None, observe=None, dir_seed=0, mask=MASK_DEFAULT, clock=0, rng_seed=1):
        """Start the named processes, run them to the end; {name: Proc}."""
        procs = []
        try:
            for i, (name, spec) in enumerate(specs):
                procs.append(self.start(name, spec, mask, rng_seed + i, clock))
            self.run(procs, faults, schedule, observe, dir_seed)
        finally:
            self.kill_all(procs)
        return {p.name: p for p in procs}


# ---------------------------------------------------------------------------- in the simulated process
def _child(sock, root, spec, resf, outf, mask, rng_seed, clock):
    fd = os.open(outf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    inp = spec.get("input")
    r, w = os.pipe()
    if inp:
        os.write(w, inp.encode())
    os.close(w)
    os.dup2(r, 0)
    os.close(r)
    sys.stdin = os.fdopen(os.dup(0), "r", encoding="utf-8")
    sys.stdout = os.fdopen(1, "w", encoding="utf-8", errors="replace", closefd=False)
    sys.stderr = os.fdopen(2, "w", encoding="utf-8", errors="replace", closefd=False)
    sys.__stdout__, sys.__stderr__, sys.__stdin__ = sys.stdout, sys.stderr, sys.stdin
    signal.signal(signal.SIGINT, signal.default_int_handler)
    import rich
    rich._console = None
    os.chdir(os.path.join(root, spec.get("cwd", ".")))
    if "env" in spec:
        os.environ.update(spec["env"])
    random.seed(rng_seed)
    import entries
    hooks = spec.get("hooks")
    if hooks:
        for h, arg in hooks:
            entries.HOOKS[h](arg, root)
    fn = entries.ENTRIES[spec["kind"]]
    L = lib()
    L.sim_attach(sock.fileno(), root.encode(), mask, rng_seed, clock)
    res = {"rc": 0, "exc": None}
    try:
        try:
            r = fn(spec)
            if isinstance(r, dict):
                res.update(r)
        except SystemExit as e:
            res["rc"] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except KeyboardInterrupt:
            res["rc"], res["exc"] = 130, "KeyboardInterrupt"
        except BaseException as e:  # noqa
            import traceback
            res["rc"], res["exc"] = 1, type(e).__name__
            res["tb"] = "".join(traceback.format_exception(e))[-4000:]
        L.sim_detach()
    except KeyboardInterrupt:  # a signal that arrived on the way out
        L.sim_detach()
        res["rc"], res["exc"] = 130, "KeyboardInterrupt"
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    if entries.EXPORT:
        res["export"] = entries.export()
    with open(resf, "w") as f:
        json.dump(res, f)
    os._exit(0)
