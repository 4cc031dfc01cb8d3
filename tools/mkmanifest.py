#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the check modules that exist."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    mod = V / "vf" / "props" / (p["id"].lower() + ".py")
    if not mod.exists():
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    consts = {}
    for node in ast.parse(mod.read_text()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": consts.get("TECHNIQUE", "runtime monitoring: reference-model and RPM-oracle monitors over generated edit histories of the real library"),
        "level": consts["LEVEL"],
        "level_note": " ".join(("Held on every execution observed (generated and hostile inputs, counted in the evidence), "
                                "not proved. Trusts the RPM library as oracle and the generator's ground truth. " +
                                "; ".join(consts.get("ASSUMPTIONS", []))).split()),
    })
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all monitors observe the public API from the harness. Repairs of defects found are the 'fix:' commits in /repo, listed in known_findings.jsonl.",
}, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
