#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
TODO = "not claimed yet: its specification and conformance check are still being built (see DESIGN.md)"
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(synedrion_verif)",
               "enable": "RUSTFLAGS='--cfg synedrion_verif' SYNEDRION_VERIF_DIR=/verif/driver (tools/build.sh)",
               "source_commits": ["e9070b1"]},
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], TODO)})
        continue
    m["checks"].append({"property": p["id"],
                        "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": c["technique"], "level": c.get("level", "model_checking"),
                        "level_note": c["note"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
