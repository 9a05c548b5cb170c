"""C12 watch mode converges to the saved state and survives everything on the way."""
import ast
import hashlib
import json
import os
import random
import re

import fsp
import netp
import workload
from core import Check, Outcome
from fs import ACTION, ERRNO, FAIL, GO, MUTATING, World
from watchsim import POLL

ADDED, MODIFIED, DELETED = 1, 2, 3
FIELD = re.compile(r"^\s+(\w+)\s*(?:\(|:)")
LEAF = re.compile(r"^(\s+\w+(?:\(.*\))?: )(Int|Float|String|Boolean|ID)(!?)$")
TMP_NAMES = ["docs/.a.graphql.swp", "docs/4913", "docs/a0.graphql~", "docs/#a#", "notes.md", "docs/img.png", "docs/.#b", "src/main.py"]


class C12(Check):
    id = "C12"
    runs = {"quick": 400, "thorough": 6000}
    budget_s = {"quick": 120, "thorough": 1500}
    rule = ("one run = one `turms watch` process over a seeded history of edits (saves, atomic and torn saves, invalid saves, new, renamed, deleted files, schema evolution, editor and unrelated "
            "files), placed before notifications or between the file operations of a running generation, with notifications batched, delayed, duplicated, lost or spurious and disk errors (or, if the schema lives on a server, network faults and changed schemas) during "
            "generations before the last; the module is observed at every operation and compared with one-shot runs; non-trivial = at least two generations were triggered")
    real = ["turms CLI `watch`: event filter, watch loop, generation, writing", "watchfiles (its Python part)", "the kernel's file system (tmpfs) under the seam"]
    stub = ["the native part of watchfiles (inotify): notifications come from the simulator", "the user's editor", "disk errors (libc seam)"]
    assumptions = ["renaming or removing whole directories is outside (the notification names no GraphQL file)", "the configuration is read once, at the start",
                   "the notification for the last change is not lost and the generation it triggers meets no fault"]

    def setup(self):
        import preload  # noqa
        self.memo = {}

    # ---------------------------------------------------------------- plan
    def plan(self, seed, tier, index):
        r = random.Random(seed)
        files, cfg, s, d = workload.gen_project(r, "p0", size=r.choice([0.6, 0.8, 1.1]), wide=0.0)
        t = cfg["extensions"]["turms"]
        cfg["documents"] = r.choice(["docs/**/*.graphql", "docs/**/*.graphql", "docs/*.graphql", "**/*.graphql"])
        if cfg["documents"] == "**/*.graphql":
            cfg["schema"] = "schema.gql"
            files["schema.gql"] = files.pop("schema.graphql")
        if cfg["documents"] == "docs/*.graphql":
            files = {("docs/" + k.rsplit("/", 1)[1] if k.startswith("docs/") else k): v for k, v in files.items()}
        if r.random() < 0.3:
            t["out_dir"] = r.choice([".", "docs/gen", "src/api"])
        if r.random() < 0.2:
            t["generated_name"] = r.choice(["graphql.py", "api.graphql.py"])
        plan = {"mtimes": [r.choice(["same", "close", "jumps"]), r.randrange(1 << 30)], "cfg": cfg, "files": dict(files), "old": r.random() < 0.5, "dir_seed": r.choice([0, r.randrange(1 << 30)]), "end": r.choice(["stop", "stop", "signal"])}
        st = {"files": dict(files), "s": s, "d": d, "n": 0, "schema": cfg["schema"], "theme": r.choice(["any", "any", "any", "schema"])}
        remote = None
        if r.random() < 0.22:      # the schema lives on a server
            sdl = files.pop(cfg["schema"])
            u, key = netp.url(r, 0)
            cfg["schema"] = r.choice([u, u, [u], {u: {"headers": {"X-A": "b"}}}])
            remote = {"key": key, "sdl": sdl, "net": {"servers": {key: netp.server(r, sdl, kind="sdl")}, "faults": {}, "seed": r.randrange(1 << 30), "limit": 4000}}
            plan.update(files=dict(files), remote=remote)
            st.update(files=dict(files), schema=None, sdl=sdl)
        rounds = []
        for i in range(r.randint(3, 6 if tier == "quick" else 9)):
            rd = {"edits": self.edits(r, st, cfg), "deliver": r.choices(["now", "later", "lost", "spurious", "own"], [10, 2, 1, 1, 1])[0], "order": r.randrange(1 << 20)}
            if r.random() < 0.35:
                rd["mid"] = [{"at": r.choice([r.randint(0, 12), r.randint(0, 40)]), **e} for e in self.edits(r, st, cfg)]
            if r.random() < 0.45:
                rd["fault"] = {"pick": r.random(), "kind": r.choice(["fail", "fail", "fail", "short", "disk_full"]), "mut": r.random() < 0.5, "e": r.randrange(100),
                               "frac": r.choice([0.0, 0.1, 0.5, 0.9])}
            if remote and r.random() < 0.5:
                rd["net"] = [netp.get_fault(r, sdl, stalls=r.random() < 0.2)] + ([netp.post_fault(r, sdl)] if r.random() < 0.6 else [])
            rounds.append(rd)
        # the last change: everything is valid again, and its notification arrives (or, now and then, the files stay broken)
        last = {"edits": [], "deliver": "now", "order": 0, "last": True}
        if r.random() < 0.8:
            last["edits"] = self.repair(r, st, files)
        if remote and r.random() < 0.8:
            last["edits"] += [{"do": "server", "path": "", "text": r.choice([sdl, sdl + "\nenum LastOfAll { ONE TWO }\n"])}]
        if not any(self.watched(e) for e in last["edits"]):
            last["edits"] += [self.save(r, st, r.choice(sorted(k for k in st["files"] if k.startswith("docs/") and k.endswith(".graphql")) or ["docs/z.graphql"]), None)]
        rounds.append(last)
        plan["rounds"] = rounds
        return plan

    def watched(self, e):
        return any(p.endswith(".graphql") for p in (e.get("path", ""), e.get("to", "")))

    def save(self, r, st, path, text):
        text = st["files"].get(path, "# a comment\n") + "# saved\n" if text is None else text
        new = path not in st["files"]
        st["files"][path] = text
        return {"do": "save", "path": path, "text": text, "how": r.choice(["inplace", "atomic", "atomic"]), "new": new}

    def edits(self, r, st, cfg):
        out = []
        f, s = st["files"], st["s"]
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            docs = sorted(k for k in f if k.startswith("docs/") and k.endswith(".graphql"))
            kind = r.choices(["change", "add", "delete", "rename", "invalid", "torn", "fix", "tmp", "schema", "away", "touch", "restore", "empty"],
                             [6, 4, 2, 3, 3, 3, 4, 3, 30 if st.get("theme") == "schema" else 3, 1, 1, 2, 1])[0]
            st["n"] += 1
            n = st["n"]
            if kind == "change" and docs:
                p = r.choice(docs)
                ops = [l for l in f[p].split("\n") if l.startswith(("query ", "mutation "))]
                if ops:
                    l = r.choice(ops)
                    w = l.split("(")[0].split(" {")[0].split(" ")
                    out.append(self.save(r, st, p, f[p].replace(l, l.replace(w[1], f"Renamed{n}", 1), 1)))
                else:
                    out.append(self.save(r, st, p, None))
            elif kind == "add":
                leaf = [x for x in st["s"].defs["Query"]["fields"] if workload.named(x["type"]) in workload.BUILTIN and not x.get("args")]
                q = leaf[0]["name"] if leaf else "__typename"
                name = r.choice([f"docs/new{n}.graphql", f"docs/sub/new{n}.graphql", f"docs/new.{n}.graphql", f"docs/ünï{n}.graphql", f"docs/deep/er/n{n}.graphql", f"docs/a b{n}.graphql",
                                 f"docs/node_modules/n{n}.graphql", f"docs/flycheck_{n}.graphql", f"docs/site-packages/v{n}.graphql", f"docs/_n{n}.graphql", f"docs/#n{n}.graphql"])
                out.append(self.save(r, st, name, f"query Added{n} {{ {q} }}\n"))
            elif kind == "delete" and len(docs) > 1:
                p = r.choice(docs)
                del f[p]
                out.append({"do": "delete", "path": p})
            elif kind == "rename" and docs:
                p = r.choice(docs)
                q = r.choice([f"docs/moved{n}.graphql", f"docs/mov.ed{n}.graphql"])
                f[q] = f.pop(p)
                out.append({"do": "rename", "path": p, "to": q})
            elif kind == "away" and len(docs) > 1:
                p = r.choice(docs)
                q = r.choice([p + ".bak", p[:-8] + ".txt"])
                f[q] = f.pop(p)
                out.append({"do": "rename", "path": p, "to": q})
            elif kind == "invalid" and docs:
                p = r.choice(docs)
                out.append(self.save(r, st, p, f[p] + r.choice(["\nquery Brk {", "\nquery Brk { thisFieldDoesNotExist }\n", "\nquery Brk { ...NotAFragment }\n", "# \udcff\udcfe\n", "\nquery Brk { a(x: [/y) }\n"])))
            elif kind == "torn" and docs:
                p = r.choice(docs)
                x = f[p].encode("utf-8", "surrogateescape")
                out.append({"do": "torn", "path": p, "frac": r.choice([0.0, 0.2, 0.5, 0.8, 0.97])})
                st.setdefault("torn", {})[p] = f[p]
                f[p] = x[:int(len(x) * out[-1]["frac"])].decode("utf-8", "surrogateescape")
            elif kind == "fix" and st.get("torn"):
                p = r.choice(sorted(st["torn"]))
                out.append(self.save(r, st, p, st["torn"].pop(p)))
            elif kind == "restore" and docs:
                p = r.choice(docs)
                x = f[p].split("\nquery Brk")[0].replace("# \udcff\udcfe\n", "")
                out.append(self.save(r, st, p, x + "\n"))
            elif kind == "tmp":
                p = r.choice(TMP_NAMES)
                out.append({"do": "tmp", "path": p, "gone": r.random() < 0.5})
            elif kind == "schema":
                x = r.choice(["\nenum Extra%d { ONE TWO }\n", "\ninput ExtraInput%d { a: Int }\n", "\nextend type Query { extra%d: Int }\n"]) % n
                old = st["sdl"] if st["schema"] is None else f[st["schema"]]
                every, leaves = {}, {}
                for i, l in enumerate(old.split("\n")):
                    if FIELD.match(l):
                        every.setdefault(FIELD.match(l)[1], []).append(i)
                    if LEAF.match(l):
                        leaves.setdefault(FIELD.match(l)[1], []).append(i)
                leaves = [i for k, i in sorted(leaves.items()) if every[k] == i]     # all fields of a name at once: interfaces and their types agree
                if leaves and r.random() < 0.6:      # a field turns nullable or not, or gets another type
                    lines = old.split("\n")
                    for where in r.sample(leaves, min(len(leaves), r.choice([1, 3, 8]))):
                        t = r.choice(["Int", "Float", "String", "Boolean"]) + r.choice(["", "!"])
                        for i in where:
                            lines[i] = LEAF.match(lines[i])[1] + t
                    new = "\n".join(lines)
                elif r.random() < 0.2:
                    new = old + "\ntype Broken { a: [String }\n"
                else:
                    new = old + x
                if st["schema"] is None:
                    st["sdl"] = new
                    out.append({"do": "server", "path": "", "text": st["sdl"]})
                else:
                    out.append(self.save(r, st, st["schema"], new))
            elif kind == "touch" and docs:
                out.append(self.save(r, st, r.choice(docs), f[r.choice(docs)] if False else None))
            elif kind == "empty" and docs:
                p = r.choice(docs)
                st.setdefault("torn", {}).setdefault(p, f[p])
                out.append(self.save(r, st, p, ""))
        return out

    def repair(self, r, st, files):
        """Bring every file into a valid state again."""
        out = []
        for p in sorted(st["files"]):
            if p.endswith((".graphql", ".gql")) and p not in files:
                x = st["files"][p]
                if not x.startswith("query Added") or "Brk" in x or x.count("}") != 1 or "saved" in x:
                    del st["files"][p]
                    out.append({"do": "delete", "path": p})
        for p, x in sorted(files.items()):
            if st["files"].get(p) != x:
                out.append(self.save(r, st, p, x))
        r.shuffle(out)
        return out

    # ---------------------------------------------------------------- oracle
    def oneshot(self, cfg, snap, code, published=None):
        """The module a one-shot run makes of these files (None: it fails)."""
        if published is not None:
            cfg = {**cfg, "schema": "schema.gql"}
            snap = {**snap, "schema.gql": published.encode("utf-8")}
        f = {k: v for k, v in snap.items() if v is not None and (k.endswith((".graphql", ".gql")))}
        key = hashlib.sha256(repr((sorted(f.items()), cfg)).encode()).hexdigest()
        if key not in self.memo:
            if len(self.memo) > 400:
                self.memo.clear()
            w = World(os.path.join(os.environ["SIM_SCRATCH"], "oneshot"))
            w.populate({**f, "graphql.config.yaml": fsp.config_text("graphql.config.yaml", {"projects": {"p0": cfg}})})
            p = w.spawn_run([("g", {"kind": "cli", "args": ["gen"]})])["g"]
            self.memo[key] = w.read(code) if p.rc == 0 else None
        return self.memo[key]

    # ---------------------------------------------------------------- run
    def run(self, plan):
        o = Outcome(plan)
        cfg = plan["cfg"]
        code = fsp.outputs(cfg)["code"]
        init = dict(plan["files"])
        init["graphql.config.yaml"] = fsp.config_text("graphql.config.yaml", {"projects": {"p0": cfg}})
        init[POLL] = ""
        if plan["old"]:
            init[code] = "# the previous output\nX = 1\n"
        w = World(cap=20000)
        w.populate(init)
        w.known.update([".", ".."])
        self.remote = plan.get("remote")
        self.mtimes, self.mtime = plan.get("mtimes", ["same", 0]), 1500000000 * 10**9
        self.clock = random.Random(self.mtimes[1])
        for q in init:
            os.utime(w.path(q), ns=(self.mtime, self.mtime))
        self.published = self.remote and self.remote["sdl"]
        self.deliver(w, {"what": "timeout"})
        p = w.start("watch", {"kind": "cli", "args": ["watch"], "hooks": [["notify", {}]] + ([["net", self.remote["net"]]] if self.remote else [])})
        try:
            self.drive(plan, o, w, p, cfg, code)
        finally:
            w.kill_all([p])
        o.trace = w.trace
        o.sim_s += len(w.trace) * 0.001
        return o

    def deliver(self, w, m, faults=()):
        if getattr(self, "remote", None):
            m["net"] = {self.remote["key"]: {"sdl": self.published, "faults": list(faults)}}
        with open(os.path.join(w.meta, "mailbox.json"), "w") as f:
            json.dump(m, f)

    def apply(self, w, e, ev):
        """One edit by the user; the notifications it causes go to ev."""
        if e["do"] == "server":
            self.published = e["text"]
            w.trace.append(["server", hashlib.sha256(e["text"].encode()).hexdigest()[:8]])
            return
        p = e["path"]
        full = w.path(p)
        w.trace.append(["user", e["do"], p, e.get("to", "")])
        w.known.update(p.split("/"))

        def put(path, data):
            os.makedirs(os.path.dirname(w.path(path)) or ".", exist_ok=True)
            with open(w.path(path), "wb") as f:
                f.write(data)
            # saves follow closely upon each other, or the clock jumps
            self.mtime += self.clock.choice({"same": [0, 0, 1], "close": [0, 2, 250, 250, 900], "jumps": [0, 250, 5000, 3600000, -7200000]}[self.mtimes[0]]) * 1000000
            os.utime(w.path(path), ns=(self.mtime, self.mtime))
        if e["do"] == "save":
            data = e["text"].encode("utf-8", "surrogateescape")
            had = os.path.exists(full)
            if e["how"] == "atomic":
                tmp = os.path.join(os.path.dirname(p), ".tmp-" + os.path.basename(p) + ".part")
                put(tmp, data)
                os.rename(w.path(tmp), full)
                ev.append([ADDED, tmp])
                ev.append([DELETED, tmp])
                ev.append([ADDED, p])
            else:
                put(p, data)
                ev.append([MODIFIED if had else ADDED, p])
        elif e["do"] == "torn":
            if os.path.exists(full):
                with open(full, "rb") as f:
                    x = f.read()
                put(p, x[:int(len(x) * e["frac"])])
                ev.append([MODIFIED, p])
        elif e["do"] == "delete":
            if os.path.exists(full):
                os.unlink(full)
                ev.append([DELETED, p])
        elif e["do"] == "rename":
            if os.path.exists(full):
                w.known.update(e["to"].split("/"))
                os.makedirs(os.path.dirname(w.path(e["to"])), exist_ok=True)
                os.rename(full, w.path(e["to"]))
                ev += [[DELETED, p], [ADDED, e["to"]]]
        elif e["do"] == "tmp":
            put(p, b"\0\xffscratch")
            ev.append([ADDED, p])
            if e["gone"]:
                os.unlink(full)
                ev.append([DELETED, p])

    def drive(self, plan, o, w, p, cfg, code):
        queue, rounds = [], list(plan["rounds"])
        last_len = 12          # operations of the previous generation
        state = {"good": w.read(code)}
        delivered_last = False
        gens = 0
        steps = 0
        clean = True
        tail = 0
        while True:
            if p.done:
                o.bad("watcher-ended", f"the watcher ended (rc {p.rc}) before it was told to: {w.output(p)[-700:]}")
                return
            if w.hang:
                o.bad("no-progress", "the watcher made no progress")
                return
            if not (p.pending["op"] == "openr" and p.pending["path"].endswith(POLL)):
                # start-up, before the first poll
                w.step(p)
                steps += 1
                if w.read(code) != state["good"]:
                    o.bad("untriggered-write", "the watcher changed the module before anything was notified")
                    return
                continue
            # ---- parked waiting for notifications
            if rounds:
                rd = rounds.pop(0)
            elif any(x.endswith(".graphql") for _, x in queue) and tail < 6:
                rd, tail = {"edits": [], "deliver": "now", "order": 0, "last": True}, tail + 1
            else:
                break
            for e in rd["edits"]:
                self.apply(w, e, queue)
            mode = rd["deliver"]
            batch = []
            netbad = False
            if mode == "spurious":
                self.deliver(w, {"what": "timeout"})
            elif mode == "later":
                self.deliver(w, {"what": "timeout"})
            elif mode == "lost":
                queue.clear()
                o.faults["lost notification"] += 1
                self.deliver(w, {"what": "timeout"})
            else:
                if mode == "own":
                    batch = [x for x in queue if not x[1].endswith(".graphql")]
                else:
                    batch = list(queue)
                    if rd.get("order", 0) % 5 == 1 and batch:
                        batch = batch + batch[:1]
                queue = [x for x in queue if x not in batch]
                netbad = bool(rd.get("net"))
                self.deliver(w, {"what": "changes", "changes": batch}, rd.get("net") or ())
            published = self.published
            triggered = any(x.endswith(".graphql") for _, x in batch)
            if mode in ("later", "spurious"):
                o.faults["delayed notification"] += mode == "later"
            gens += triggered
            before = w.read(code)
            snap0 = w.snapshot()
            mids = sorted(rd.get("mid", []), key=lambda m: m["at"])
            delivered_last |= bool(triggered and rd.get("last"))
            fault = None if rd.get("last") else rd.get("fault")
            done_mid, fired, full_err = [], [], None
            base = p.ops
            at = None
            if fault and triggered:
                if "at" not in fault:
                    fault["at"] = 1 + int(fault["pick"] * (last_len + 2))
                at = base + fault["at"]
            docs_read = mutated = False
            w.step(p)                                  # the poll itself
            while not p.done and not w.hang and not (p.pending["op"] == "openr" and p.pending["path"].endswith(POLL)):
                steps += 1
                if steps > 20000:
                    o.bad("no-progress", "the watcher keeps generating")
                    return
                while mids and p.ops - base >= mids[0]["at"]:
                    e = mids.pop(0)
                    self.apply(w, e, queue)
                    done_mid.append(e["do"])
                e = p.pending
                action, err, n = GO, 0, 0
                if full_err and e["op"] in ("openw", "write", "mkdir"):
                    action, err = FAIL, full_err
                elif at is not None and p.ops >= at and not fired:
                    k = fault["kind"]
                    hit = e["op"] in MUTATING if fault["mut"] else e["op"] in ("openr", "read", "openw", "write", "rename", "mkdir", "closew")
                    if hit and k == "fail" and e["op"] in ("openr", "read", "openw", "write", "rename", "mkdir", "closew"):
                        name = {"openr": fsp.OPENR_ERRS, "read": fsp.READ_ERRS, "openw": fsp.OPEN_ERRS}.get(e["op"], fsp.WRITE_ERRS)
                        name = name[fault["e"] % len(name)]
                        action, err = FAIL, ERRNO[name]
                        fired.append(f"fail:{name}")
                    elif k == "short" and e["op"] in ("write", "read") and e["arg"] > 1:
                        action, n = ACTION["short"], max(0, min(int(e["arg"]) - 1, int(e["arg"] * fault["frac"])))
                        if e["op"] == "read" or n > 0:
                            fired.append("short")
                        else:
                            action = GO
                    elif hit and k == "disk_full" and e["op"] in ("openw", "write", "mkdir"):
                        full_err = ERRNO["ENOSPC"]
                        action, err = FAIL, full_err
                        fired.append("disk_full")
                if e["op"] in ("openr", "read") and e["path"].endswith((".graphql", ".gql")):
                    docs_read = True
                if e["op"] in MUTATING:
                    mutated = True
                if e["op"] == "openw" and action == GO:
                    queue.append([MODIFIED, e["path"]])
                if e["op"] == "rename" and action == GO:
                    queue += [[DELETED, e["path"]], [ADDED, e["path2"]]]
                w.step(p, action, err, n)
                now = w.read(code)
                if now != before:
                    bad = self.broken(now)
                    if bad:
                        o.bad("broken-output", f"while watching, the module on disk is {bad} (faults {fired}, edits in between {done_mid})")
                        return
            for x in fired:
                o.faults[x] += 1
            for x in (rd.get("net") or []) if netbad and triggered else []:
                o.faults["net:" + x["kind"]] += 1
            if done_mid:
                o.faults["edit during generation"] += len(done_mid)
            for m in mids:                               # the generation was over sooner
                self.apply(w, m, queue)
            if p.done:
                o.bad("watcher-ended", f"the watcher ended (rc {p.rc}) while handling {batch} (faults {fired}): {w.output(p)[-700:]}")
                return
            if w.hang:
                o.bad("no-progress", "the watcher made no progress")
                return
            if triggered:
                last_len = max(4, p.ops - base - 1)
            now = w.read(code)
            what = f"events {batch[:6]}, faults {fired}, edits in between {done_mid}"
            if not triggered and (mutated or now != before):
                o.bad("retriggered", f"notifications that name no watched file (its own output, unrelated files) made it write: {what}")
                return
            if triggered and not done_mid and not netbad:
                want = self.oneshot(cfg, snap0, code, published)
                hard = any(x != "short" for x in fired)
                if want is None and now != before:
                    o.bad("failed-attempt-wrote", f"a one-shot run of these files fails, but the watcher changed the module; {what}")
                    return
                if want is not None and now != want and not (hard and now == before):
                    o.bad("differs", f"the module differs from what a one-shot run makes of the files ({'unchanged' if now == before else 'something else'}); {what}; {self.diff(want, now)}")
                    return
            o.probes[f"round:{mode}:{'trig' if triggered else 'idle'}:{'mid' if done_mid else ''}:{'wrote' if now != before else 'same'}"] += 1
            o.states.add(f"{[e['do'] for e in rd['edits']]}|{mode}|{done_mid}|{fired}|{now != before}")
            o.sim_s += 2.5
        # ---- quiescent: everything was delivered
        final = w.snapshot()
        want = self.oneshot(cfg, final, code, self.published)
        now = w.read(code)
        if tail >= 6:
            o.bad("retriggered", "the watcher keeps producing notifications for itself")
        elif delivered_last and want is not None and now != want:
            o.bad("not-converged", f"after the last change was delivered the module is not what a one-shot run produces: {self.diff(want, now)}")
        self.deliver(w, {"what": plan["end"]})
        while not p.done and not w.hang and steps < 21000:
            w.step(p)
            steps += 1
        if not p.done or w.hang:
            o.bad("no-progress", "the watcher did not end")
        elif w.read(code) != now:
            o.bad("untriggered-write", "ending the watcher changed the module")
        left = [k for k in fsp.changed(final, w.snapshot()) if k != code]
        if left:
            o.bad("untriggered-write", f"ending the watcher changed {left}")
        o.nontrivial = gens >= 2
        o.probes[f"end:{'ok' if want is not None else 'invalid'}"] += 1

    def broken(self, code):
        if code is None:
            return "gone"
        try:
            ast.parse(code.decode("utf-8"))
        except (SyntaxError, ValueError) as e:
            return f"not a valid module ({e})"
        return "empty" if not code.strip() else None

    def diff(self, want, now):
        if now is None:
            return "there is no module"
        a, b = want.decode("utf-8").splitlines(), now.decode("utf-8").splitlines()
        miss = [x for x in a if x not in set(b)][:4]
        extra = [x for x in b if x not in set(a)][:4]
        return f"missing lines {miss}, extra lines {extra}"

    def shrink(self, plan):
        if plan["dir_seed"]:
            yield {**plan, "dir_seed": 0}
        if plan["old"]:
            yield {**plan, "old": False}
        for i in range(len(plan["rounds"]) - 1):
            q = json.loads(json.dumps(plan))
            del q["rounds"][i]
            yield q
        for i, rd in enumerate(plan["rounds"]):
            for k in ("mid", "fault", "net"):
                if rd.get(k):
                    q = json.loads(json.dumps(plan))
                    del q["rounds"][i][k]
                    yield q
            for j in range(len(rd["edits"])):
                q = json.loads(json.dumps(plan))
                del q["rounds"][i]["edits"][j]
                if rd.get("last") and not any(self.watched(e) for e in q["rounds"][i]["edits"]):
                    continue
                yield q
        t = plan["cfg"]["extensions"]["turms"]
        for opt in ("processors", "freeze", "stylers"):
            if t.get(opt):
                q = json.loads(json.dumps(plan))
                del q["cfg"]["extensions"]["turms"][opt]
                yield q


CHECK = C12()
