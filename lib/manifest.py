#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (run: python3 lib/manifest.py)."""
import json, os, sys
sys.dont_write_bytecode = True
import registry as R
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in R.PROPS:
        s = R.PROPS[i]
        note = ("Seeded deterministic simulation of the real code: every reported run repeats exactly from its seed. "
                "Assurance is that of the executions explored; nothing is proved for unexplored ones.")
        if s.get("assumptions"):
            note += " Assumes: " + "; ".join(s["assumptions"]) + "."
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + s["title"],
                       "level": s["level"], "level_note": note})
na = []
for i in ids:
    if i not in R.PROPS:
        na.append({"property": i, "reason": R.NA.get(i, "machinery not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hook was needed in /repo: seams are the C library's file calls, the allocator, the clock calls and the compiler's thread instrumentation, all replaced at link time; missing third-party libraries (datetime, geodesy, SPICE) are stood in for by /verif/shim."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
