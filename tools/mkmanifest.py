#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/meta.json (claimed properties) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/tools/meta.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    m = meta.get(p["id"])
    if m and m.get("claim", True):
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
    else:
        na.append({"property": p["id"], "reason": (m or {}).get("reason", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Contracts in contracts/*.spec are verified by govc (built from govc/) against the SSA of /repo's working tree on every run; harness/ holds the bounded stand-ins and input searches."},
          open(V + "/MANIFEST.json", "w"), indent=1)
