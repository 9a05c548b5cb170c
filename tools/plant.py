"""Write planted bugs into /verif/seeded from tools/plants/*.py: python3 tools/plant.py [id...]

Each plants/b_*.py defines BUGS: a list of dicts id, property, needs, what, edits [(file, old, new)], demo (python source using h.py).
"""
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")


def main():
    bugs = []
    for f in sorted(glob.glob(HERE + "/plants/b_*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    want = sys.argv[1:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        tmp = "/tmp/plant-work"
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
        orig = True
        for path, old, new in b["edits"]:
            p = f"{tmp}/{path}"
            s = open(p).read()
            if s.count(old) != 1:
                print("BAD EDIT", b["id"], path, s.count(old), repr(old[:60]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True, check=True).stdout
            # the removed lines have to be original ones
            base = {p: subprocess.run(["git", "show", f"b0a6ec6:{p}"], cwd=tmp, capture_output=True, text=True).stdout.splitlines() for p, _, _ in b["edits"]}
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            mine = [l for l in removed if not any(l in ls for ls in base.values())]
            if not removed or mine:
                print("NOTE", b["id"], "removes", len(removed), "lines, not original:", mine)
            d = f"{SEED}/{b['id']}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom h import *\n" + b["demo"])
            shutil.copy(HERE + "/plants/h.py", d)
            shutil.copy(HERE + "/plants/demo.sh", d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
            print("ok", b["id"])
        shutil.rmtree(tmp, ignore_errors=True)


main()
