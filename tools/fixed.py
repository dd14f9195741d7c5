#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT WHAT: record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
prop, commit, what = sys.argv[1:]
k.append({"property": prop, "status": "fixed", "commit": commit, "record": f"fixed: property={prop} {commit} {what}"})
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
