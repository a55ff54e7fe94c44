"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
catches = json.loads((V / "tools" / "catches.json").read_text())
rows = ["| bug | property | what breaks | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    what = m["what_it_breaks"].replace("|", "/").replace("\n", " ")
    rows.append(f"| {d.name} | {m['property']} | {what} | {catches.get(d.name.split('-')[0], '?')} |")
p = V / "DESIGN.md"
head = p.read_text().split("<!-- planted -->")[0]
p.write_text(head + "<!-- planted -->\n" + "\n".join(rows) + "\n")
