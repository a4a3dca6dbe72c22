#!/usr/bin/env python3
"""per-job times of the last run of the given properties"""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open(f"/verif/evidence/{p}.json")); print(p, e["tier"], e["wall_s"], "violations", e["violations"])
    for j in e["coverage"]["jobs"]: print("  %-26s %-70s paths=%-7d q=%-7d solver=%-7.1f wall=%-6.1f %s" % (j["entry"], " ".join(f"{k}={v}" for k, v in j["bounds"].items()), j["paths"], j["queries"], j["solver_s"], j["wall_s"], "" if j["complete_within_bounds"] else "INCOMPLETE"))
