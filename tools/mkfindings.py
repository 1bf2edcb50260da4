#!/usr/bin/env python3
"""Writes /verif/known_findings.json from tools/fixed.txt (repaired defects) and tools/open.json (recorded ones)."""
import json, os, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for l in open(R + "/tools/fixed.txt"):
    pid, key, what = l.rstrip("\n").split("|")
    c = [x.split(" ", 1)[0] for x in log if x.split(" ", 1)[1].startswith("fix: " + key)]
    assert len(c) == 1, (key, c)
    out.append({"property": pid, "status": "fixed", "space": "", "case": "", "what": what, "line": f"fixed: property={pid} {c[0]} {what}"})
p = R + "/tools/open.json"
if os.path.exists(p):
    out = json.load(open(p)) + out
json.dump({"findings": out}, open(R + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
open(R + "/known_findings.json", "a").write("\n")
print(len(out))
