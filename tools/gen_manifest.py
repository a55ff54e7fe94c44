"""Writes MANIFEST.json: one entry per checks/pNN.py."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = {json.loads(l)["id"]: json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()}
notes = json.loads((V / "tools" / "notes.json").read_text())
checks = []
for pid in sorted(props):
    if not (V / "checks" / f"{pid.lower()}.py").exists():
        continue
    n = notes[pid]
    checks.append(dict(
        property=pid,
        quick_cmd=f"VERIF_TIER=quick ./check {pid}",
        thorough_cmd=f"VERIF_TIER=thorough ./check {pid}",
        evidence_file=f"evidence/{pid}.json",
        technique=n["technique"],
        level="exploration",
        level_note=n["note"],
    ))
have = {c["property"] for c in checks}
m = dict(
    version=1,
    setup_cmd="./check --selftest",
    checks=checks,
    not_applicable=[dict(property=p, reason="check still being built") for p in sorted(props) if p not in have],
    notes="Property-based testing with Hypothesis; every check imports /repo/src directly, so nothing is built.",
)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", "missing", sorted(set(props) - have))
