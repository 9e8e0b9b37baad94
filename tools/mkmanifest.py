#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NOTE:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = NOTE[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' (set by check.py)",
               "source_commits": ["ec1e092"]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check runs the real code of /repo on two backends: the real curve library, and a "
              "transparent group simulation of it (harness/vendor/amcl_wrapper, --cfg vp_sim) in which "
              "discrete logarithms are visible to the monitors."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
