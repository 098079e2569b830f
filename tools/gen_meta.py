#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props_data.py.
A property is claimed iff harness/<id>/ exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import P
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=[dict(name=a, meaning=b) for a, b in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if os.path.isdir(root + "/harness/" + p["id"]) and p["claimed"]:
        checks.append(dict(property=p["id"],
            quick_cmd="python3 run.py check %s --tier quick" % p["id"],
            thorough_cmd="python3 run.py check %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="property-based testing: random structured generation, explicit oracle, choice-sequence shrinking",
            level="exploration",
            level_note=p["note"] or "Generated-input search against an explicit oracle on the code compiled from the working tree; no exhaustiveness claimed. Trusts the harness's reference model, the compiler and AddressSanitizer."))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet (in progress)"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="All checks compile the harness under harness/<id>/ against /repo's working tree and drive it with the engine in pbt/. See DESIGN.md.")
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
