#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import specs
NA = specs.NOT_APPLICABLE
checks = []
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 checks/run.py {i} quick", thorough_cmd=f"python3 checks/run.py {i} thorough", technique=s.technique, level="other",
                           level_note=s.note + " Quick bounds: " + s.q + " Outside: " + s.outside + ". Trusted: z3, the engine in /verif/engine, and the listed assumptions (evidence)."))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in specs.SPECS]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
