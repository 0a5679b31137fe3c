#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["checks"]:
        t = T["checks"][i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": t["technique"], "level": "model_checking", "level_note": t["note"], "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": T["na"].get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are built in a scratch copy outside /repo and /verif (module replace => /repo; the concurrency check instruments a scratch copy of the sources). The commits added to /repo are fix: commits (see KNOWN_FINDINGS.txt)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
