#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module(pid.lower())
    checks.append({"property": pid, "quick_cmd": f"VERIF_TIER=quick python3 check.py {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "exploration"), "level_note": m.NOTE})
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
