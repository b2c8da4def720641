#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for each property which has a module."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(ROOT, "props", i.lower() + "_*.py")):
        note = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s --tier quick" % i,
            "thorough_cmd": "./check.sh %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": note.get("technique", "property-based testing (Hypothesis) against an independent oracle"),
            "level": "exploration",
            "level_note": note.get("note", "Generated-input search; holds on the explored cases within the stated tolerances."),
        })
    else:
        missing.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
           "notes": "Checks build /repo's working tree out of tree in .work (git-ignored), see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
