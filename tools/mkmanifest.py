#!/usr/bin/env python3
"""Writes MANIFEST.json and checks.json from tools/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, here)
import checks
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{root}/properties.jsonl")}
C = checks.CHECKS
json.dump(C, open(f"{root}/checks.json", "w"), indent=1); open(f"{root}/checks.json", "a").write("\n")
done = {c["id"] for c in C}
assert done <= set(props), done - set(props)
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "Symbolic execution of the Go SSA and LLVM IR of /repo with z3; see DESIGN.md."}
if checks.HOOKS: man["hooks"] = checks.HOOKS
for c in C:
    man["checks"].append({"property": c["id"], "quick_cmd": f"bash check.sh {c['id']} quick", "thorough_cmd": f"bash check.sh {c['id']} thorough",
        "technique": c.get("technique", checks.TECH[c["version"]]), "level": "model_checking",
        "level_note": c.get("note", checks.NOTE) + " Bounds: " + c["bounds"]})
for i in props:
    if i not in done: man["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "no check built yet")})
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(C), "checks,", len(man["not_applicable"]), "not applicable")
