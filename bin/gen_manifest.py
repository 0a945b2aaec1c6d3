#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ trace validation with TLC: "
CLAIM = json.load(open(os.path.join(V, "claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIM["claimed"]:
        c = CLAIM["claimed"][i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           technique=c["technique"], level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason=CLAIM["not_applicable"].get(i, "no check yet")) for i in ids if i not in CLAIM["claimed"]],
         notes=CLAIM["notes"])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
