#!/usr/bin/env python3
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import properties_map as PM
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PM.MAP:
        c = PM.MAP[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i, "technique": c.get("technique", "contract-based deductive verification of the real C++ (own VC generator on clang's AST, SMT + Lean); bounded replay for the rest"),
                       "level": c.get("level", "proof"), "level_note": c["note"]})
    else: na.append({"property": i, "reason": PM.NA.get(i, "no contract within reach yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
