#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed when sim/props/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = {"C30": "Configuration loading of one file in one format is a pure function of its text: no schedule, clock, fault or second party for the simulator to decide (faulty configuration files are covered by C02).",
        "C31": "Renaming is a pure function of names and styler list; nothing nondeterministic or faulty is involved.",
        "C32": "Compares two pure translations of a schema; input generation alone would decide it, not simulation.",
        "C33": "Options are a pure function of configuration and schema; no fault, schedule or history is involved.",
        "C34": "Precedence of settings is a pure function of environment and file."}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
        base = f"{PY} -B sim/run.py {i}"
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": base, "thorough_cmd": base + " --tier thorough",
                       "technique": "deterministic simulation with fault injection: " + tech,
                       "level": "exploration", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": PURE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": f"{PY} -B sim/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every seam is outside the code under test (libc interposition, patched sockets/clock inside the simulated process, scripted notification source, virtual-time event loop, baton scheduler). See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
