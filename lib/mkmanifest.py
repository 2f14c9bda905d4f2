#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
from notes import NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": NOTES[p["id"]][0],
        "level": "exploration",
        "level_note": NOTES[p["id"]][1].strip(),
    })
import jsonschema
m = {
    "version": 1,
    "setup_cmd": "bash lib/setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Runtime monitoring and sanitizers; see DESIGN.md. No hooks in /repo: every monitor observes the public API, the wire, the allocator or the process. Each check builds the instrumented library from /repo's working tree into /verif/build.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
missing = [p["id"] for p in props if p["id"] not in CHECKS]
print(len(checks), "checks; without:", missing)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
