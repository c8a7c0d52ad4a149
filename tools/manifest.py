#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.json and properties.jsonl."""
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(root, "harness/checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
for p in props:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
na_path = os.path.join(root, "harness/not_applicable.json")
reasons = json.load(open(na_path)) if os.path.exists(na_path) else {}
out = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; sys.exit(0)'",
    "checks": [],
    "not_applicable": [],
    "notes": "Each check compiles /repo's current sources with its driver (harness/), searches generated cases and shrinks any failure; 'python3 run.py replay FILE' replays one. No hooks in /repo are needed.",
}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing against a reference model"),
            "level": "exploration",
            "level_note": c.get("note", "Generated cases against an independent oracle; absence of violations is evidence over the explored cases, not proof."),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": reasons.get(i, "check under construction")})
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
