#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
for pid in sorted(props):
    if pid in NA or not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        continue
    t = TECH[pid]
    checks.append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                   "technique": t["technique"], "level": "model_checking", "level_note": t["note"]})
na = [{"property": k, "reason": v} for k, v in NA.items()]
claimed = {c["property"] for c in checks}
for pid in sorted(props):
    if pid not in claimed and pid not in NA:
        na.append({"property": pid, "reason": "Not decided yet: its check is still being built."})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "lsharness/build.rs passes --cfg verif_hooks to the language server it builds (the other checks need no hooks)", "source_commits": ["f35fce9"]},
     "notes": "TLA+ specifications in spec/, checked and evaluated with TLC; behaviours are replayed in the real code by harness/ (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", sorted(claimed))
