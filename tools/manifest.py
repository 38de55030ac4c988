#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules (developer tool, not run by any check)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from zan import checks  # noqa: E402

AI = "abstract interpretation of MIR (inductive typestate/affine invariant, no solver)"
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./zcheck --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    t = TECH.get(i, {})
    if i in checks.RULES and "na" not in t:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./zcheck %s --tier quick" % i,
            "thorough_cmd": "./zcheck %s --tier thorough" % i,
            "technique": t.get("technique", AI),
            "level": "other",
            "level_note": t.get("note", "static analysis of the compiler's MIR of the current source; what is decided and under which assumptions is in DESIGN.md"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": t.get("na", "no static rule has been built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
