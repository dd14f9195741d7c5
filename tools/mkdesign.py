#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, the notes of the checks, the known findings and the
planted bugs."""
import glob, importlib, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()

out = [HEAD.rstrip(), ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        out += [f"### {p['id']}: {p['title']}", "", "Not claimed yet.", ""]
        continue
    m = importlib.import_module(p["id"].lower())
    out += [f"### {p['id']}: {p['title']}", "", m.__doc__.strip().split(": ", 1)[-1].replace("\n", " "), "", f"*Method.* {m.TECHNIQUE}.", "", f"*Workload, oracle and bounds.* {m.NOTE}", "",
            f"*Why tests cannot settle it.* {p.get('why_tests_cannot', p.get('why_not_tests', '')) or ''}".rstrip() if False else f"*Counting.* {m.RULE}.", ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["*Assumed or not judged.* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
known = json.load(open(os.path.join(V, "known_findings.json")))
out += ["## Genuine defects found", "", "Recorded, not repaired (each is printed as KNOWN-FINDING by its check on the unchanged tree):", ""]
out += [f"* {k['property']} `{k['key']}`: {k['what']}" for k in known if k["status"] == "open"]
out += ["", "Repaired with a `fix:` commit in /repo (each was first shown against the real code by the check named):", ""]
out += ["* " + k["record"].replace("fixed: property=", "") for k in known if k["status"] == "fixed"]
out += ["", "## Planted bugs and what catches them", "", "Made with `tools/seed.py`, which confirms each one (builds, passes the stable tests, demonstration passes without and fails with it) and runs the checks on it.", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |")
out += ["", TAIL.rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
