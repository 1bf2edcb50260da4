#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
claims = json.load(open(R + "/tools/claims.json"))
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "Every check enumerates a finite space of executions of the real code completely (bounded explicit enumeration / stateless schedule exploration) and compares each with an independent reference model. See DESIGN.md."}
for i in ids:
    c = claims.get(i)
    if c and "reason" not in c:
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": (c or {}).get("reason", "check under construction")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
