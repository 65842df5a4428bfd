#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import meta
TECH = "contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of the current source, discharged by polynomial normal form and z3"
checks, na = [], []
with open(here + "/properties.jsonl", "w") as o:
    for p in sorted(meta.PROPS, key=lambda p: p["id"]):
        p = dict(p)
        m = p.pop("_m")
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
        i = p["id"]
        if m["na"]:
            na.append({"property": i, "reason": m["na"]})
        else:
            checks.append({"property": i, "quick_cmd": "python3-vt run.py --property %s --tier quick" % i,
                           "thorough_cmd": "python3-vt run.py --property %s --tier thorough" % i,
                           "technique": m["technique"] or TECH, "level": m["level"], "level_note": m["note"],
                           "evidence_file": "evidence/%s.json" % i})
man = {"version": 1, "setup_cmd": "python3-vt run.py --setup", "checks": checks, "not_applicable": na,
       "notes": "All checks read /repo's current source on every run; see DESIGN.md."}
with open(here + "/MANIFEST.json", "w") as o:
    json.dump(man, o, indent=1, ensure_ascii=False)
    o.write("\n")
print(len(meta.PROPS), "properties,", len(checks), "claimed")
