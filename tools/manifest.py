#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(here, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = cfg.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: every check drives the public interface. The fix: commits in /repo are listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
