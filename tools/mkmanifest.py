#!/usr/bin/env python3
"""Write MANIFEST.json from checks/*.py and NA below."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from na import NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = V + "/checks/%s.py" % pid.lower()
    if os.path.exists(f):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({"property": pid,
                       "quick_cmd": "python3 check.py " + pid,
                       "thorough_cmd": "python3 check.py " + pid,
                       "technique": getattr(m, "TECHNIQUE", "dataflow rule over rustc MIR"),
                       "level": getattr(m, "LEVEL", "other"),
                       "level_note": " ".join(getattr(m, "NOTE", m.RULE).split())})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No rule built yet; not claimed.")})
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
print("checks:", [c["property"] for c in checks])
