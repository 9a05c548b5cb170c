"""C04 the output is a function of configuration, schema and documents only."""
import json
import random

import fsp
from core import Check, Outcome

ENVS = {
    "h0": ("0", {}),
    "h1": ("1", {}),
    "h2": ("4242", {"TZ": "Asia/Kathmandu", "COLUMNS": "40"}),
    "h3": ("99", {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "America/Los_Angeles"}),
}


class C04(Check):
    id = "C04"
    runs = {"quick": 260, "thorough": 5000}
    budget_s = {"quick": 95, "thorough": 1800}
    rule = ("one run = one seeded project set (all plugins, parsers, stylers and processors take part) generated in interpreters with four hash seeds (one of them with a plain C locale), each with its own "
            "seeded directory enumeration order, file modification times, earlier contents of the output files, clock, time zone, root directory and entry point (CLI, CLI with explicit configuration, library, watch mode); the output bytes are compared; "
            "non-trivial = the reference generated and every variant ran")
    real = ["turms CLI, library and watch mode, all plugins, parsers, stylers, processors and writers", "CPython hash randomisation and locale handling", "external commands as real child processes"]
    stub = ["directory enumeration order, clock, random bytes (libc seam)", "file notifications (watch entry point)"]
    assumptions = ["configured external commands are deterministic themselves", "file names are ASCII in the C-locale variant"]

    def setup(self):
        import preload  # noqa
        from satellite import Satellite
        self.sats = {k: Satellite(k, hs, extra) for k, (hs, extra) in ENVS.items()}

    def plan(self, seed, tier, index):
        r = random.Random(seed)
        nproj = r.choice([1, 1, 1, 2])
        w = fsp.build(r, nproj, size=r.choice([1.0, 1.6, 2.4, 3.0]), wide=0.6)
        ps = w["config"]["projects"]
        for n, c in ps.items():
            t = c["extensions"]["turms"]
            t["dump_schema"] = r.random() < 0.5
            t["dump_configuration"] = r.random() < 0.6
            if r.random() < 0.3:
                t.setdefault("processors", []).append(r.choice([{"type": "turms.processors.command.CommandProcessor", "command": "cat"},
                                                                {"type": "turms.processors.command.CommandProcessor", "command": ["sed", "s/a/a/"]},
                                                                {"type": "turms.processors.ruff.RuffProcessor"},
                                                                {"type": "turms.processors.black.BlackProcessor"}]))
            # the schema as several files: the order in which a directory lists them must not matter
            if r.random() < 0.35:
                sdl = w["files"].pop(c["schema"])
                d = c["schema"].rsplit(".", 1)[0] + "_parts"
                defs = [x for x in sdl.split("\n\n") if x.strip()]
                k = r.randint(2, 4)
                for i in range(k):
                    part = defs[i::k]
                    if part:
                        w["files"][f"{d}/{r.choice('kzb')}{i}.graphql"] = "\n\n".join(part) + r.choice(["", "\n"])
                c["schema"] = d + "/*.graphql"
        variants = []
        for i, env in enumerate(r.sample(list(ENVS), len(ENVS))):
            v = {"env": env, "dir_seed": r.randrange(1, 1 << 20), "clock": r.choice([0, 86400 * 400, -86400 * 3000, 17]), "rng_seed": r.randrange(1, 1 << 20), "mtime_seed": r.randrange(1, 1 << 20),
                 "base": "world" if env == "h3" else r.choice(["world", "w 2/with space", "deep/er/path/x", "zß"]),
                 "old": "near" if i and r.random() < 0.15 else r.random() < 0.5,
                 "entry": r.choice(["cli", "cli", "cli-config", "cli-each", "lib"] + (["watch"] if nproj == 1 and not t.get("dump_schema") and not t.get("dump_configuration") else []))}
            variants.append(v)
        return {"w": w, "variants": variants, "old": fsp.old_contents(r, w)}

    def spec(self, w, v):
        e = v["entry"]
        if e == "lib":
            return {"kind": "lib", "strict": True}
        if e == "cli-config":
            return {"kind": "cli", "args": ["gen", "--config", w["config_name"]]}
        if e == "watch":
            return {"kind": "cli", "args": ["watch"], "hooks": [["watch_once", None]]}
        return {"kind": "cli", "args": ["gen"]}

    def run(self, plan):
        o = Outcome(plan)
        w = plan["w"]
        files = fsp.all_files(w)
        outs = fsp.all_outputs(w)
        names = list(w["config"]["projects"])
        res = []
        jobs, late = [], []
        for i, v in enumerate(plan["variants"]):
            if v["entry"] == "cli-each":
                spec = {"kind": "cliseq", "argslist": [["gen", n] for n in r_order(names, v["rng_seed"])]}
            else:
                spec = self.spec(w, v)
            q = {"files": {**files, **plan.get("old", {})} if v.get("old") else files, "spec": spec, "outputs": outs, "dir_seed": v["dir_seed"], "clock": v["clock"], "rng_seed": v["rng_seed"], "mtime_seed": v.get("mtime_seed", 0), "base": v["base"]}
            if i and v.get("old") == "near":
                late.append((v, q))
                continue
            self.sats[v["env"]].send(q)
            jobs.append((v, self.sats[v["env"]]))
        for v, s in jobs:
            res.append((v, s.recv()))
        # outputs that are nearly what is generated anyway
        for v, q in late:
            got = {p: c for p, c in res[0][1]["outputs"].items() if c is not None}
            q["files"] = {**files, **{p: nearly(c.decode("utf-8", "surrogateescape"), v["rng_seed"]) for p, c in got.items()}}
            self.sats[v["env"]].send(q)
        for v, q in late:
            res.append((v, self.sats[v["env"]].recv()))
        o.trace = [[v["env"], x["rc"], x["events"], x["ops"] if v["env"] == "h0" else ""] for v, x in res]
        o.sim_s = sum(x["events"] for _, x in res) * 0.001
        for v, x in res:
            o.probes["entry " + v["entry"]] += 1
            o.probes["rc%d" % x["rc"]] += 1
            o.faults["directory order shuffled"] += 1
            o.faults["hash seed " + v["env"]] += 1
            o.faults["file times shuffled"] += 1
            o.faults["outputs of an earlier run present"] += bool(v.get("old"))
            o.faults["clock shifted"] += v["clock"] != 0
            if x["dmg"]:
                o.bad("no-progress", x["dmg"])
                return o
        v0, x0 = res[0]
        o.nontrivial = all(x["rc"] == 0 for _, x in res)
        for v, x in res[1:]:
            if (x["rc"] == 0) != (x0["rc"] == 0):
                f = x if x["rc"] else x0
                o.bad("outcome-differs", f"rc {x0['rc']} under {v0} but rc {x['rc']} under {v}: {f['log'][-800:]}")
            elif x["rc"] == 0:
                for q in outs:
                    if x["outputs"][q] != x0["outputs"][q]:
                        o.bad("output-differs", f"{q} differs between {v0} and {v}: {first_diff(x0['outputs'][q], x['outputs'][q])}")
                        break
        o.states.add(str([x["rc"] for _, x in res]) + str([v["entry"] for v, _ in res]))
        return o

    def shrink(self, plan):
        if len(plan["variants"]) > 2:
            for i in range(len(plan["variants"])):
                q = json.loads(json.dumps(plan))
                del q["variants"][i]
                yield q
        for i, v in enumerate(plan["variants"]):
            for k, simple in (("entry", "cli"), ("clock", 0), ("base", "world"), ("env", "h0"), ("dir_seed", 1), ("rng_seed", 1), ("mtime_seed", 0), ("old", False)):
                if v.get(k, simple) != simple:
                    q = json.loads(json.dumps(plan))
                    q["variants"][i][k] = simple
                    yield q
        yield from fsp.drop_projects(plan)
        yield from fsp.shrink_files(plan)


def nearly(text, seed):
    """A file that says the same as this one, or nearly so"""
    k = seed % 6
    if k == 0:
        return "# by hand\n\n" + text if not text.startswith("{") else " " + text
    if k == 1:
        return text + "\n\n"
    if k == 2:
        return text.rstrip("\n")
    if k == 3:
        return text.replace("\n", "\r\n")
    if k == 4:
        return text.replace("    ", "  ") if text.startswith("{") else text.replace("\n\n", "\n\n\n")
    return text[:-1] + "#" if text else "#"


def r_order(names, seed):
    n = list(names)
    random.Random(seed).shuffle(n)
    return n


def first_diff(a, b):
    if a is None or b is None:
        return f"{'missing' if a is None else 'present'} vs {'missing' if b is None else 'present'}"
    la, lb = a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f"line {i + 1}: {x[:160]!r} vs {y[:160]!r}"
    return f"{len(la)} vs {len(lb)} lines"


CHECK = C04()
