#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules that exist (run by hand, not by the checks)."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "TECHNIQUE", "NOTE"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    b = consts["BOUNDS"]
    q = b["quick"] if isinstance(b, dict) else b
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run {p['id']} --tier quick",
        "thorough_cmd": f"./run {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": consts.get("TECHNIQUE", "stateless model checking of the real code: exhaustive enumeration of a bounded case family under a controlled event loop and fake DUT, compared with a reference model"),
        "level": "model_checking",
        "level_note": consts.get("NOTE", "Exhaustive within: " + q + ". Trusts the fake DUT (pins, Step, StepRis, clock event) to behave as picker's classes and the reference model in the check."),
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import toffee'", "checks": checks, "not_applicable": na,
           "notes": "Every check runs the real toffee code from /repo in-process (no build step, no hooks). ./run CNN --replay FILE re-executes a reported case."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
