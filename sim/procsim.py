"""Simulation of one process that generates again and again: sequentially, with failures, and in threads that take turns.

The worker never generates anything itself; fresh-process results and histories run in forked children of it."""
from __future__ import annotations

import builtins
import collections
import hashlib
import json
import os
import random
import re
import shutil
import signal
import sys
import threading

from core import REPO, HarnessError

TURMS = os.path.join(os.path.realpath(REPO), "turms") + os.sep
TURMS2 = os.path.join(REPO, "turms") + os.sep
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
BATON = None


def ours(filename):
    return filename.startswith((TURMS, TURMS2))


class Stuck(BaseException):
    pass


# ------------------------------------------------------------------------------------------- locks of turms
class CoopLock:
    """A lock that lets the other simulated threads run while it is taken."""

    def __init__(self, reentrant=False):
        self.owner, self.n, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me, tries = threading.get_ident(), 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            tries += 1
            if BATON is None or not BATON.running or tries > 2000 or (timeout is not None and timeout >= 0 and tries > 50):
                if timeout is not None and timeout >= 0:
                    return False
                raise Stuck("a generation waits for a lock nobody will release")
            BATON.switch(1.0, other=True)
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def install_locks():
    def lock():
        return CoopLock() if ours(sys._getframe(1).f_code.co_filename) else REAL_LOCK()

    def rlock():
        return CoopLock(True) if ours(sys._getframe(1).f_code.co_filename) else REAL_RLOCK()
    threading.Lock, threading.RLock = lock, rlock


# ------------------------------------------------------------------------------------------- threads taking turns
class Baton:
    """Simulated threads of which exactly one runs; a seeded choice is made whenever turms code calls a function (or at every line)."""

    def __init__(self, seed, p, lines):
        self.r, self.p, self.lines = random.Random(seed), p, lines
        self.sems, self.live, self.switches = {}, [], 0
        self.main = threading.Semaphore(0)
        self.running = False
        self.importing = collections.Counter()
        self.order = hashlib.sha256()

    def add(self, name, fn, fault=None):
        self.sems[name] = threading.Semaphore(0)
        self.live.append(name)

        def body():
            self.sems[name].acquire()
            sys.settrace(tracer(self, fault))
            try:
                fn()
            finally:
                sys.settrace(None)
                self.live.remove(name)
                (self.sems[self.r.choice(self.live)] if self.live else self.main).release()
        t = threading.Thread(target=body, name=name, daemon=True)
        t.start()
        return t

    def switch(self, p, other=False):
        if len(self.live) < 2 or self.r.random() >= p:
            return
        me = threading.current_thread().name
        if me not in self.live or self.importing[me]:
            return
        to = self.r.choice([x for x in self.live if x != me] if other else self.live)
        if to == me:
            return
        self.switches += 1
        self.order.update(to.encode())
        self.sems[to].release()
        self.sems[me].acquire()

    def run(self, ts):
        global BATON
        BATON, self.running = self, True
        try:
            self.sems[self.r.choice(self.live)].release()
            self.main.acquire()
            for t in ts:
                t.join(60)
        finally:
            BATON, self.running = None, False


class Count:
    """Raises an exception in turms code: in the n-th call, some lines later."""

    def __init__(self, n=None, lines=0, exc=None):
        self.n, self.lines, self.exc = n, lines, exc
        self.seen, self.fired = 0, False

    def call(self):
        self.seen += 1

    def line(self):
        if self.n is not None and self.seen >= self.n and not self.fired:
            if self.lines <= 0:
                self.fired = True
                raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit, "OSError": OSError}[self.exc]("simulated")
            self.lines -= 1


def tracer(baton, count):
    def local(frame, event, arg):
        if event == "line":
            if count is not None:
                count.line()
            if baton is not None and baton.lines:
                baton.switch(baton.p)
        elif event == "return" and frame.f_code.co_name == "<module>" and baton is not None:
            baton.importing[threading.current_thread().name] -= 1
        return local

    def glob(frame, event, arg):
        if event != "call" or not ours(frame.f_code.co_filename):
            return None
        if frame.f_code.co_name == "<module>":
            if baton is not None:
                baton.importing[threading.current_thread().name] += 1
            return local
        if count is not None:
            count.call()
        if baton is not None and not baton.lines:
            baton.switch(baton.p)
        if count is not None and count.n is not None or baton is not None and baton.lines:
            return local
        return None
    return glob


# ------------------------------------------------------------------------------------------- one process
class Process:
    """Runs in a forked child."""

    def __init__(self, plan, base):
        self.plan, self.base = plan, base
        self.state = [0] * len(plan["projects"])
        self.objects = {}
        self.raws = {}
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.fail_open = None
        self.net = None

    def populate(self):
        shutil.rmtree(self.base, ignore_errors=True)
        for i in range(len(self.plan["projects"])):
            self.write(i)

    def write(self, i):
        p = self.plan["projects"][i]
        files = p["files"][self.state[i]]
        d = f"{self.base}/p{i}"
        shutil.rmtree(d, ignore_errors=True)
        for k, t in files.items():
            path = os.path.join(d, k)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(t)
        if p.get("url") and self.net is not None:
            self.net.servers[p["url"][1]]["sdl"] = p["sdl"][self.state[i]]

    def start(self):
        os.makedirs(self.base, exist_ok=True)
        os.chdir(self.base)
        urls = [p for p in self.plan["projects"] if p.get("url")]
        if urls:
            import net
            self.net = net.install({"servers": {p["url"][1]: {"sdl": p["sdl"][0], "enc": "length"} for p in urls}, "faults": {}, "seed": 1, "limit": 10000})
        self.populate()
        real = builtins.open

        def opener(file, *a, **k):
            if self.fail_open is not None and isinstance(file, (str, os.PathLike)) and str(file).startswith(self.base):
                self.fail_open -= 1
                if self.fail_open < 0:
                    self.fail_open = None
                    self.faults["open fails"] += 1
                    raise OSError(5, "simulated I/O error", str(file))
            return real(file, *a, **k)
        builtins.open = opener

    def config(self, i):
        c = json.loads(json.dumps(self.plan["projects"][i]["config"]).replace("@BASE@", f"{self.base}/p{i}"))
        return c

    def project(self, i, obj):
        """The configuration object a generation is given: new, used before, or new but built from the same parsed file."""
        from turms.config import GraphQLProject
        if obj is None:
            return GraphQLProject(**self.config(i))
        key = (i, obj)
        if obj.startswith("raw"):
            if key not in self.raws:
                self.raws[key] = self.config(i)
            return GraphQLProject(**self.raws[key])
        if key not in self.objects:
            self.objects[key] = GraphQLProject(**self.config(i))
        return self.objects[key]

    def generate(self, i, obj):
        from graphql import print_schema
        from turms.run import generate
        try:
            code, schema = generate(self.project(i, obj), log=lambda *a, **k: None)
            return {"ok": code, "schema": hashlib.sha256(print_schema(schema).encode("utf-8", "surrogatepass")).hexdigest()[:12]}
        except Stuck as e:
            return {"stuck": str(e)}
        except Exception as e:  # noqa
            return {"err": type(e).__name__, "msg": str(e)[-400:]}
        except BaseException as e:  # noqa
            return {"err": type(e).__name__, "msg": "interrupted"}

    def fresh(self, i, v):
        """The result of a process that generates nothing else."""
        self.state[i] = v
        self.start()
        n = Count()
        sys.settrace(tracer(None, n))
        try:
            r = self.generate(i, None)
        finally:
            sys.settrace(None)
        r["calls"] = n.seen
        return r

    def history(self, calls):
        self.start()
        out = []
        for k, s in enumerate(self.plan["history"]):
            if s["kind"] == "edit":
                self.state[s["p"]] = 1 - self.state[s["p"]]
                self.write(s["p"])
                self.probes["edit"] += 1
                continue
            if s["kind"] == "gen":
                out.append(self.one(k, 0, s, calls))
                continue
            b = Baton(s["sched"], s["prob"], s["lines"])
            res, ts, cs = {}, [], []
            for j, g in enumerate(s["gens"]):
                c = self.count(g, calls)
                cs.append(c)

                def body(j=j, g=g):
                    res[j] = self.generate(g["p"], g.get("obj"))
                ts.append(b.add(f"gen{j}", body, c))
            b.run(ts)
            self.probes["switches"] += b.switches
            self.probes["concurrent generations"] += len(ts)
            for j, g in enumerate(s["gens"]):
                if cs[j] is not None and cs[j].fired:
                    self.faults[cs[j].exc] += 1
                out.append({"at": k, "gen": j, "p": g["p"], "v": self.state[g["p"]], "obj": g.get("obj"), "fault": bool(cs[j] and cs[j].fired), "concurrent": True,
                            "res": res.get(j, {"stuck": "the thread died"}), "order": b.order.hexdigest()[:12]})
        return {"results": out, "faults": dict(self.faults), "probes": dict(self.probes)}

    def count(self, g, calls):
        f = g.get("fault")
        if not f or f["kind"] != "raise":
            return None
        return Count(max(1, int(f["frac"] * calls[f"{g['p']}.{self.state[g['p']]}"])), f["lines"], f["exc"])

    def one(self, k, j, g, calls):
        f = g.get("fault") or {}
        c = self.count(g, calls)
        before = sum(self.faults.values())
        if f.get("kind") == "open":
            self.fail_open = f["n"]
        if f.get("kind") == "net" and self.net is not None and self.plan["projects"][g["p"]].get("url"):
            key = self.plan["projects"][g["p"]]["url"][1]
            self.net.faults[key] = [None] * self.net.count.get(key, 0) + [f["fault"]] * 2
        if c is not None:
            sys.settrace(tracer(None, c))
        try:
            r = self.generate(g["p"], g.get("obj"))
        finally:
            sys.settrace(None)
            self.fail_open = None
            if f.get("kind") == "net" and self.net is not None:
                if self.net.fired:
                    self.faults["net " + f["fault"]["kind"]] += 1
                    del self.net.fired[:]
                self.net.faults.clear()
        if c is not None and c.fired:
            self.faults[c.exc] += 1
        return {"at": k, "gen": j, "p": g["p"], "v": self.state[g["p"]], "obj": g.get("obj"), "fault": sum(self.faults.values()) > before, "concurrent": False, "res": r}


def in_child(fn, seconds=150):
    """Run fn in a forked child and return its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(seconds)
            os.close(r)
            res = fn()
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise HarnessError(f"simulated process ended with status {st}")
    return json.loads(data)
