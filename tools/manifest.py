#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present (TECHNIQUE, LEVEL, LEVEL_NOTE)."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
checks = []
for f in sorted(glob.glob(os.path.join(here, "checks", "[a-z][0-9][0-9].py"))):
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try: consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    if consts.get("DRAFT"): continue
    pid = consts["PROPERTY"]
    checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid,
        "thorough_cmd": "./check %s thorough" % pid, "technique": consts["TECHNIQUE"],
        "level": consts["LEVEL"], "level_note": consts["LEVEL_NOTE"]})
have = {c["property"] for c in checks}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "No check is built for it yet; it is not claimed.")} for p in props if p not in have]
m = {"version": 1,
     "setup_cmd": "sh -c 'test -x ./check && ./check --selftest'",
     "checks": checks, "not_applicable": na,
     "notes": "Every check runs the code of /repo's working tree directly (no build step, no hooks); see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed:", " ".join(x["property"] for x in na))
