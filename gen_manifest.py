#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py and na.json"""
import json, jobs, os
d = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(d + "/properties.jsonl") if l.strip()]
na = json.load(open(d + "/na.json"))
m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": na}
for p in props:
    if p in jobs.CHECKS:
        c = jobs.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 vf.py check %s --tier quick" % p,
                            "thorough_cmd": "python3 vf.py check %s --tier thorough" % p,
                            "technique": "symbolic execution of the real code's LLVM IR, assertions decided by an SMT solver (z3)",
                            "level": c.get("level", "other"),
                            "level_note": "Bounded, exhaustive within the bounds: " + c["bounds"] + (" Outside: " + c["outside"] + "." if c.get("outside") else "")})
    else:
        assert any(x["property"] == p for x in na), p
for p in jobs.CHECKS: assert p in props, p
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
