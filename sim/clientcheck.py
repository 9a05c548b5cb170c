"""Common part of the checks of generated clients (C17-C20): plans, runs, shrinking."""
from __future__ import annotations

import copy
import json
import os
import random
import re
import shutil
import tempfile

from core import Check, HarnessError, Outcome, digest
import clientgen

KINDS = {"query", "mutation", "subscription"}


def op_names(docs):
    out = []
    for t in docs:
        m = re.match(r"\s*(query|mutation|subscription) (\w+)", t)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


class ClientCheck(Check):
    feats = clientgen.SAFE
    judged = set()
    only = None
    size = 1.0
    n_ops = (2, 5)

    real = ["turms generator in full (schema and document loading, plugins, stylers)", "generated modules: classes, models, call functions", "pydantic", "asyncio", "graphql-core on the server side"]
    stub = ["event loop clock and selector (virtual time), thread scheduling (one thread at a time, seeded choice at every line of generated code)",
            "transport between client and server; server resolvers (seeded answers)", "proxy functions (written as in turms' documentation)"]

    def setup(self):
        import preload  # noqa
        import warnings
        warnings.simplefilter("ignore")
        os.environ.pop("PYTHONASYNCIODEBUG", None)

    # -- plan
    def project(self, r):
        for _ in range(30):
            p = clientgen.client_project(r, self.pick_feats(r), size=self.size, n_ops=self.n_ops, only=self.only)
            ops = op_names(p["docs"])
            if ops and self.wants(ops):
                return p
        raise HarnessError("no project")

    def wants(self, ops):
        return True

    def exchanges(self, r):
        """The exchanges of one call: retried by the proxy after a lost request or response, up to three times."""
        out = []
        for k in range(r.choice([1, 1, 1, 2, 3])):
            x = {"d1": r.choice([0, 0, 0.001, 0.5, 3]), "d2": r.choice([0, 0, 0.001, 1, 5])}
            if r.random() < 0.3:
                x["fault"] = r.choice(["lost_request", "lost_response", "app_error"])
            out.append(x)
        return out

    def pick_feats(self, r):
        return [f for f in self.feats if r.random() < 0.6]

    def calls(self, r, ops, threads):
        raise NotImplementedError

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        p = self.project(r)
        ops = op_names(p["docs"])
        threads = r.random() < self.p_threads
        plan = {"seed": seed, "project": p, "threads": threads, "servers": r.choice(self.n_servers), "sched": r.getrandbits(32), "p": r.choice([0.1, 0.5, 0.9])}
        plan["calls"] = self.calls(r, ops, threads)
        plan["upgrades"] = self.upgrades(r, plan)
        return plan

    p_threads = 0.4
    n_servers = [1, 2, 2, 3]

    def upgrades(self, r, plan):
        return []

    def call(self, r, ops, threads, spread, pick=None):
        i = r.randrange(len(ops)) if pick is None else pick
        c = {"op": i, "async": not threads, "t": round(r.random() * spread, 3), "vseed": r.getrandbits(40), "client": r.choice([None, 0, 1, 2]), "default": r.randrange(3),
             "positional": r.random() < 0.3}
        if ops[i][0] == "subscription":
            n = r.choice([0, 1, 2, 3, 5, 8])
            st = {"n": n, "gaps": [r.choice([0, 0, 0.1, 1, 5]) for _ in range(r.randint(1, 4))], "end": r.choice(["complete", "complete", "error", "hang"]), "slow": r.choice([0, 0, 0.5, 3])}
            if n > 1 and r.random() < 0.3:
                st["repeat"] = {str(j): j - 1 for j in range(1, n) if r.random() < 0.5}
            if st["end"] == "hang":
                if n == 0:
                    st["n"] = n = 2
                st["take"] = r.randint(1, n)
            elif r.random() < 0.3 and n:
                st["take"] = r.randint(1, n)
            st["aclose"] = r.random() < 0.4
            c["stream"] = st
        return c

    # -- run
    def run(self, plan):
        import client
        o = Outcome(plan)
        scratch = os.environ.get("SIM_SCRATCH") or tempfile.gettempdir()
        sim = None
        try:
            sim = client.ClientSim(plan, scratch)
            try:
                if plan["threads"]:
                    sim.run_threads()
                else:
                    sim.run_async()
            finally:
                o.faults.update(sim.faults)
                o.probes.update(sim.probes)
            sim.judge()
            for c in sim.calls:
                o.probes["outcome_" + str(c.outcome)] += 1
                o.probes["requests"] += len(c.requests)
                o.probes["events"] += len(c.got)
            probs = sim.problems
            o.trace = sim.trace + [[c.i, c.outcome, digest([c.wire, None if c.answer is client.ABSENT else c.answer])] for c in sim.calls]
            o.sim_s = getattr(sim, "sim_s", 0.0)
            o.nontrivial = len(sim.trace) > 4
            o.states.add(digest([[e[1:2] + e[2:3] for e in sim.trace if e and isinstance(e[0], float)]]))
        except client.Broken as e:
            probs = [(e.cls, str(e))]
            o.trace = [["broken", e.cls, str(e)[:200]]]
        finally:
            if sim:
                sim.close()
        for f in plan["project"]["feats"]:
            o.probes["shape_" + f] += 1
        for cls, msg in probs:
            if cls in self.judged:
                o.bad(cls, msg)
            else:
                o.probes["not_judged_" + cls] += 1
        return o

    # -- shrink
    def shrink(self, plan):
        n = len(plan["calls"])
        if n > 1:
            for i in range(n):
                p = copy.deepcopy(plan)
                p["calls"] = [p["calls"][i]]
                yield p
            for i in range(n):
                p = copy.deepcopy(plan)
                del p["calls"][i]
                yield p
        if plan["upgrades"]:
            for i in range(len(plan["upgrades"])):
                p = copy.deepcopy(plan)
                del p["upgrades"][i]
                yield p
        # drop documents no remaining call needs
        docs = plan["project"]["docs"]
        names = op_names(docs)
        used = {c["op"] % len(names) for c in plan["calls"]} if names else set()
        keep = [names[i][1] for i in sorted(used)]
        new = [t for t in docs if not op_names([t]) or op_names([t])[0][1] in keep]
        frs = {re.match(r"\s*fragment (\w+)", t).group(1): (None, t) for t in new if not op_names([t])}
        live = {t for x in new if op_names([x]) for _, t in clientgen.needed(frs, x)}
        new = [t for t in new if op_names([t]) or t in live]
        if len(new) < len(docs):
            p = copy.deepcopy(plan)
            p["project"]["docs"] = new
            left = [x[1] for x in op_names(new)]
            for c in p["calls"]:
                c["op"] = left.index(names[c["op"] % len(names)][1])
            yield p
        for k, v in (("freeze", None), ("options", None), ("parsers", None), ("processors", None), ("object_bases", None), ("interface_bases", None), ("additional_bases", None), ("graphql_default_class", None), ("deprecated_class", None), ("exclude_typenames", None), ("stylers", []), ("create_catchall", None)):
            t = plan["project"]["turms"]
            if k in t and t[k] != v:
                p = copy.deepcopy(plan)
                if v is None:
                    del p["project"]["turms"][k]
                else:
                    p["project"]["turms"][k] = v
                yield p
        for i, c in enumerate(plan["calls"]):
            for k in ("exchanges", "cancel_at", "spoil", "positional"):
                if c.get(k):
                    p = copy.deepcopy(plan)
                    p["calls"][i].pop(k)
                    yield p
            if c.get("client"):
                p = copy.deepcopy(plan)
                p["calls"][i]["client"] = 0
                yield p
            st = c.get("stream")
            if st and st["n"] > 1 and not st.get("take"):
                p = copy.deepcopy(plan)
                p["calls"][i]["stream"]["n"] -= 1
                yield p
