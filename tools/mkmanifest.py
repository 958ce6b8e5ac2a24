#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine"))
from config import CHECKS, LEVEL_NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'engine'); import config\" && g++ --version >/dev/null",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its own programs from /repo's working tree in /verif/.work and removes them.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": CHECKS[i].get("technique", "property-based testing against a binary128 reference model"),
            "level": "exploration",
            "level_note": CHECKS[i].get("note", LEVEL_NOTES["note"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
