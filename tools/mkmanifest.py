#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the checks that exist and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())) and i in notes and "technique" in notes[i]:
        checks.append(dict(
            property=i,
            quick_cmd="python3 checks/%s.py --tier quick" % i.lower(),
            thorough_cmd="python3 checks/%s.py --tier thorough" % i.lower(),
            evidence_file="evidence/%s.json" % i,
            technique=notes[i]["technique"], level="exploration", level_note=notes[i]["note"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("reason", "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check builds muon from /repo's working tree into a scratch directory of its own (meson + ninja, offline) and runs the generated cases as an unprivileged user below that directory.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
