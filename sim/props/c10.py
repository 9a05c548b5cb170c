"""C10 code from an external command is used only if the command succeeded."""
import glob
import json
import os
import random

import fsp
import simfaults
from core import Check, Outcome
from fs import World

FRAG = ["import os\n", "X = 1\n", "def f():\n    return 'größe'\n", "# 日本語\n", "class A:\n    pass\n", "\r\n", "VALUE = '\\u00e9'\n", "\n\n", "# 🚀 rocket\n"]
SIGNALS = [9, 15, 6, 11, 1, 13, 14]
CODES = [1, 1, 2, 3, 77, 126, 127, 128, 200, 255]
BADBYTES = [b"\xff\xfe", b"\xc3", b"\x80abc", b"\xed\xa0\x80", b"\xf5"]


def text(r, n):
    out = ""
    while len(out) < n:
        out += r.choice(FRAG)
    return out


class C10(Check):
    id = "C10"
    runs = {"quick": 700, "thorough": 12000}
    budget_s = {"quick": 90, "thorough": 1500}
    rule = ("one run = one generation whose processor chain (1-4 of: external command, ruff, in-process processors) meets seeded scripted commands: partial, early, "
            "late, large and non-ASCII reads and writes, exit codes, signals, undecodable output, missing or unusable executables, failing fork; "
            "non-trivial = an external command was started or failed to start")
    real = ["turms CLI and library entry points, config loading, generation, processor chain, writers", "subprocess handling: real fork, exec, pipes, signals"]
    stub = ["the external program (tool.c, scripted by the plan)", "fork failures (process-creation seam)"]
    assumptions = ["command and turms communicate through pipes only and each side's reads block, so the outcome does not depend on how the kernel interleaves them",
                   "line ends are compared after universal-newline translation", "the standard error of successful commands is valid UTF-8"]

    def setup(self):
        import preload  # noqa

    # ------------------------------------------------------------------ plans
    def scenario(self, r, fail):
        """(script lines, data bytes, expectation)"""
        lines, data = [], b""

        def lit(b, fd="w", step=0):
            nonlocal data
            lines.append(f"{fd} {len(data)} {len(b)} {step}")
            data += b
        out = []          # what the command prints: ("lit", bytes) or ("echo", percent or None)

        def w(b, step=0):
            lit(b, "w", step)
            out.append(["lit", b.decode("latin-1")])

        def echo(step=0):
            lines.append(f"E {step}")
            out.append(["echo", 100])
        style = r.choice(["filter", "filter", "stream", "early", "noread", "closein", "big", "empty", "part", "crlf"])
        if r.random() < 0.3:
            lit(("warning: größe\n" * r.choice([1, 40, 9000])).encode(), "e", r.choice([0, 7]))
        full_read = False
        if style == "filter":
            lines.append("R")
            full_read = True
            if r.random() < 0.6:
                w(text(r, 30).encode())
            echo(r.choice([0, 0, 1000, 4096, 33]))
            if r.random() < 0.6:
                w(text(r, r.choice([1, 40])).encode())
        elif style == "stream":
            for _ in range(r.randint(2, 12)):
                lines.append(f"r {r.choice([1, 10, 999, 5000, 70000])}")
                w(text(r, r.choice([1, 50, 3000])).encode(), r.choice([0, 0, 13]))
                if r.random() < 0.2:
                    lines.append("p 1")
            if r.random() < 0.7:
                lines.append("R")
                full_read = True
        elif style == "early":
            w(text(r, r.choice([5, 200, 20000])).encode())
            lines.append("R")
            full_read = True
        elif style == "noread":
            w(text(r, 100).encode())
        elif style == "closein":
            lines.append("c 0")
            lines.append("p 1")
            w(text(r, r.choice([20, 90000])).encode())
        elif style == "big":
            w(text(r, r.choice([70000, 300000, 1500000])).encode(), r.choice([0, 0, 4097]))
            lines.append("R")
            full_read = True
        elif style == "empty":
            lines.append("R")
            full_read = True
        elif style == "part":
            lines.append(f"r {r.choice([1, 100, 2000])}")
            w(text(r, 60).encode())
            lines.append("c 1")
            lines.append("R")
            full_read = True
        elif style == "crlf":
            lines.append("R")
            full_read = True
            w(text(r, 60).replace("\n", "\r\n").encode())
            echo()
        end = ["exit", 0]
        if fail:
            how = r.choice(["code", "code", "signal", "bytes", "code_partial", "signal_partial"])
            if how.endswith("_partial"):    # only part of what a success would print
                keep = r.randint(0, len(lines))
                lines = lines[:keep]
                full_read = full_read and "R" in lines
            if how == "bytes":
                lines = [x for x in lines if x != "c 1"]
                bad = r.choice(BADBYTES)
                lit(bad)
                if bad == b"\xc3" or r.random() < 0.4:
                    lit(b"x = 1\n")
            elif how.startswith("code"):
                end = ["exit", r.choice(CODES)]
                if r.random() < 0.3:
                    lit(b"error: could not \xff format\n" if r.random() < 0.3 else b"error: [/bad] thing\n", "e")
            else:
                end = ["signal", r.choice(SIGNALS)]
            fail = how
        lines.append(("x " if end[0] == "exit" else "k ") + str(end[1]))
        return {"script": "\n".join(lines) + "\n", "data": data.decode("latin-1"), "out": out, "full_read": full_read, "end": end, "fail": fail or None, "style": style}

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        w = fsp.build(r, 1, size=r.choice([0.7, 1.0]), wide=0.2)
        c = w["config"]["projects"]["p0"]
        t = c["extensions"]["turms"]
        t["dump_schema"] = r.random() < 0.4
        t["dump_configuration"] = r.random() < 0.3
        t.pop("processors", None)
        if r.random() < 0.1:
            t["exit_on_error"] = False
        n = r.choice([1, 1, 2, 3, 4])
        failing = r.randrange(n) if r.random() < 0.6 else None
        chain, extra, hook = [], {}, {}
        for i in range(n):
            fail = i == failing
            kind = r.choice(["command", "command", "command", "ruff", "tag"])
            if fail and kind == "tag":
                kind = "command"
            if kind == "ruff" and any(x["kind"] == "ruff" for x in chain):
                kind = "command"
            if kind == "tag":
                chain.append({"kind": "tag", "tag": f"t{i}", "pad": r.choice([0, 0, 0, 1500, 6000])})
            elif kind == "ruff":
                steps = r.choice([["format"], ["check"], ["check", "format"], ["check", "format"]])
                bad = r.choice(steps) if fail else None
                chain.append({"kind": "ruff", "steps": [{"id": "ruff-" + s, **self.scenario(r, s == bad)} for s in steps]})
            else:
                x = {"kind": "command", "cmd": r.choice(["str", "list", "list"])}
                if fail and r.random() < 0.3:
                    x["unstartable"] = r.choice(["missing", "missing_path", "directory", "not_executable", "not_a_program", "fork:EAGAIN", "fork:ENOMEM"])
                    x["steps"] = [{"id": f"c{i}", **self.scenario(r, False)}]
                    x["steps"][0]["fail"] = "not startable: " + x["unstartable"]
                else:
                    x["steps"] = [{"id": f"c{i}", **self.scenario(r, fail)}]
                chain.append(x)
        return {"w": w, "chain": chain, "old": fsp.old_contents(r, w), "entry": r.choice(["cli", "cli", "lib"]), "strict": True}

    # ------------------------------------------------------------------ execution
    def processors(self, chain):
        out, hook, nforks = [], {}, 0
        for x in chain:
            if x["kind"] == "tag":
                out.append({"type": "simfaults.TagProcessor", "tag": x["tag"], "pad": x["pad"]})
                continue
            if x["kind"] == "ruff":
                ids = [s["id"] for s in x["steps"]]
                out.append({"type": "turms.processors.ruff.RuffProcessor", "fix": "ruff-check" in ids, "format": "ruff-format" in ids})
            else:
                u = x.get("unstartable")
                exe = {"missing": "no-such-tool-x", "missing_path": "./tools/none", "directory": "./tools", "not_executable": "./tools/plain", "not_a_program": "./tools/junk"}.get(u, "simtool")
                sid = x["steps"][0]["id"]
                out.append({"type": "turms.processors.command.CommandProcessor", "command": [exe, sid, "-"] if x["cmd"] == "list" else f"{exe} \"{sid}\" '-'"})
                if u and u.startswith("fork:"):
                    hook = {"fail_at": nforks + 1, "err": u[5:]}
            nforks += len(x["steps"])
        return out, hook

    def run(self, plan):
        o = Outcome(plan)
        w_ = json.loads(json.dumps(plan["w"]))
        cfg = w_["config"]["projects"]["p0"]
        outs = fsp.outputs(cfg)
        t = cfg["extensions"]["turms"]
        # what is generated without any processor
        w0, p0 = fsp.reference({**fsp.all_files(w_), **plan["old"]}, {"kind": "cli", "args": ["gen"]})
        if not fsp.succeeded(p0):
            o.probes["reference failed"] += 1
            return o
        code = w0.read(outs["code"]).decode("utf-8")
        procs, hook = self.processors(plan["chain"])
        t["processors"] = procs
        # the model
        cur, failed, expect_in, must_not = code, None, {}, []
        for x in plan["chain"]:
            if failed:
                must_not += [x["tag"] + ".ran"] if x["kind"] == "tag" else [s["id"] for s in x["steps"]]
                continue
            if x["kind"] == "tag":
                cur += simfaults.tag_text(x["tag"], x["pad"])
                continue
            for s in x["steps"]:
                if failed:
                    must_not.append(s["id"])
                    continue
                if s["fail"] and s["fail"].startswith("not startable"):
                    failed = s["fail"]
                    continue
                expect_in[s["id"]] = (cur.encode(), s["full_read"])
                o.faults["command:" + (s["fail"] or "ok:" + s["style"])] += 1
                if s["fail"]:
                    failed = f"{s['fail']} {s['end']}"
                    continue
                res = b"".join(v.encode("latin-1") if k == "lit" else cur.encode() for k, v in s["out"])
                cur = res.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
        if failed and failed.startswith("not startable"):
            o.faults[failed] += 1

        w = World()
        w.patience = 45
        w.populate({**fsp.all_files(w_), **plan["old"], "tools/plain": "#!/bin/sh\ncat\n", "tools/junk": b"\x00\x01junk"})
        os.chmod(w.path("tools/junk"), 0o755)
        os.chmod(w.path("tools/plain"), 0o644)
        td = os.path.join(w.meta, "tool")
        os.makedirs(td)
        for x in plan["chain"]:
            for s in x.get("steps", []):
                with open(os.path.join(td, s["id"] + ".script"), "w") as f:
                    f.write(s["script"])
                with open(os.path.join(td, s["id"] + ".data"), "wb") as f:
                    f.write(s["data"].encode("latin-1"))
        so = os.path.dirname(os.environ["SIM_SO"])
        spec = {**fsp.entry_spec(plan), "hooks": [["tool", hook]], "env": {"SIM_TOOL": td, "PATH": so + ":" + os.environ["PATH"]}}
        before = w.snapshot()
        P = w.spawn_run([("p", spec)])
        p = P["p"]
        o.trace = w.trace
        o.sim_s = len(w.trace) * 0.001
        o.nontrivial = any(x["kind"] != "tag" for x in plan["chain"])
        dmg = fsp.world_damage(w, P)
        if dmg:
            o.bad("no-progress", dmg + f" chain={self.describe(plan)}")
            return o
        after = w.snapshot()
        got = {os.path.basename(f): open(f, "rb").read() for f in sorted(glob.glob(os.path.join(td, "*.in.*")) + glob.glob(os.path.join(td, "*.ran")))}
        o.trace.append(["tools", sorted((k, len(v)) if plan_full(k, expect_in) else (k, -1) for k, v in got.items())])
        for k, v in got.items():
            sid = k.split(".")[0]
            if sid in must_not or k in must_not:
                o.bad("ran-after-failure", f"{k}: was run although an earlier command failed ({failed}); chain {self.describe(plan)}")
            elif sid in expect_in:
                want, full = expect_in[sid]
                if full and v != want or not want.startswith(v):
                    o.bad("input-changed", f"command {sid} did not receive the code as it was generated ({len(v)} of {len(want)} bytes, first difference at {diff(v, want)})")
        for sid in expect_in:
            if not any(k.startswith(sid + ".in.") for k in got) and sid not in must_not:
                o.bad("not-run", f"command {sid} was never run; rc={p.rc}; chain {self.describe(plan)}")
        cli = plan["entry"] == "cli"
        eoe = t.get("exit_on_error", True) or not cli
        if failed:
            ch = [q for q in outs.values() if before.get(q) != after.get(q)]
            if ch:
                o.bad("used-failed-output", f"a command failed ({failed}) but {ch} changed; chain {self.describe(plan)}")
            if p.rc == 0 and eoe:
                o.bad("failure-not-reported", f"a command failed ({failed}) but the {plan['entry']} run reported success; chain {self.describe(plan)}")
        else:
            if p.rc != 0:
                o.bad("failed-without-cause", f"all commands succeeded but the run failed rc={p.rc}: {w.output(p)[-500:]} {(p.result or {}).get('tb', '')[-500:]}; chain {self.describe(plan)}")
            elif after.get(outs["code"]) != cur.encode():
                g = after.get(outs["code"]) or b""
                o.bad("result-changed", f"the written code is not what the last command printed (first difference at {diff(g, cur.encode())} of {len(cur.encode())}); chain {self.describe(plan)}")
        o.probes["failed" if failed else "ok"] += 1
        o.states.add(f"{self.describe(plan)}|{p.rc}")
        return o

    def describe(self, plan):
        return ",".join("tag" if x["kind"] == "tag" else x["kind"] + "(" + "/".join(f"{s['style']}:{s['fail'] or 'ok'}:{s['end'][1]}" for s in x["steps"]) + ")" for x in plan["chain"])

    def shrink(self, plan):
        for i in range(len(plan["chain"])):
            if len(plan["chain"]) > 1:
                q = json.loads(json.dumps(plan))
                del q["chain"][i]
                yield q
        if plan["old"]:
            q = json.loads(json.dumps(plan))
            q["old"] = {}
            yield q
        yield from fsp.shrink_files(plan)


def plan_full(name, expect):
    return expect.get(name.split(".")[0], (b"", False))[1]


def diff(a, b):
    n = min(len(a), len(b))
    return next((i for i in range(n) if a[i] != b[i]), n)


CHECK = C10()
