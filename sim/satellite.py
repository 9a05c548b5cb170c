"""Helper interpreters: the same simulated machine under another hash seed, locale or encoding.

A satellite is started once per worker with a fixed environment and then executes generation requests,
one JSON line each, in fresh forked processes like World does.
"""
from __future__ import annotations

import base64
import json
import os
import subprocess
import sys

import core


class Satellite:
    def __init__(self, tag, hashseed, extra=None):
        self.dir = os.path.join(os.environ["SIM_SCRATCH"], "sat-" + tag)
        os.makedirs(self.dir, exist_ok=True)
        env = core.worker_env(os.environ.get("SIM_SO"), hashseed, self.dir, extra)
        self.p = subprocess.Popen([core.PY, "-B", os.path.join(core.HERE, "satellite.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL, cwd=self.dir, env=env)

    def send(self, req):
        self.p.stdin.write(json.dumps(req).encode("ascii") + b"\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError("satellite died")
        r = json.loads(line)
        if "harness_error" in r:
            raise core.HarnessError(r["harness_error"])
        r["outputs"] = {k: None if v is None else base64.b64decode(v) for k, v in r["outputs"].items()}
        return r

    def ask(self, req):
        self.send(req)
        return self.recv()


def serve():
    sys.path.insert(0, core.HERE)
    sys.path.insert(0, core.REPO)
    out = os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import preload  # noqa
    import fsp
    from fs import World
    import traceback
    for line in os.fdopen(os.dup(0), "rb"):
        q = json.loads(line)
        try:
            w = World(base=os.path.join(os.environ["SIM_SCRATCH"], q.get("base", "world")))
            w.populate(q["files"], q.get("mtime_seed", 0))
            P = w.spawn_run([("p", q["spec"])], dir_seed=q.get("dir_seed", 0), clock=q.get("clock", 0), rng_seed=q.get("rng_seed", 1))
            p = P["p"]
            r = {"rc": p.rc, "outputs": {k: None if w.read(k) is None else base64.b64encode(w.read(k)).decode() for k in q["outputs"]}, "events": len(w.trace),
                 "ops": core.digest(w.trace), "log": w.output(p)[-1500:], "dmg": fsp.world_damage(w, P)}
        except BaseException:  # noqa
            r = {"harness_error": traceback.format_exc()}
        out.write(json.dumps(r).encode("ascii") + b"\n")
        out.flush()


if __name__ == "__main__":
    serve()
