#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(V + "/lib/manifest_table.py").read())
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("%s/checks/%s.py" % (V, p)) and p in T:
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "python3 checks/%s.py --thorough" % p,
                       "technique": T[p][0], "level": "model_checking", "level_note": T[p][1], "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py build/chk mathlib",
     "hooks": {"guard": "none", "enable": "no hooks are compiled into the code under test", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
