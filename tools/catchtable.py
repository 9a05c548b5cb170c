"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} quick | {m['needs']} |")
text = (root / "DESIGN.md").read_text()
block = "<!-- plants -->\n" + "\n".join(rows) + "\n<!-- /plants -->"
text = text.replace("CATCHTABLE", "All of them are caught by the quick tier of the check of their property:\n\n" + block) if "CATCHTABLE" in text else re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: block, text, flags=re.S)
(root / "DESIGN.md").write_text(text)
