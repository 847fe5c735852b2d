#!/usr/bin/env python3
"""writes MANIFEST.json from the PLAN of lib/engines.py and the texts below"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, "..", "lib"))
import engines
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
from manifest_text import TEXT, NOTAPP
chk = []
for i in ids:
    if i in engines.PLAN:
        t, n = TEXT[i]
        chk.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                        technique=t, level=engines.LEVEL.get(i, "model_checking"), level_note=n))
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=chk,
         not_applicable=[dict(property=i, reason=NOTAPP.get(i, "not built yet: see DESIGN.md")) for i in ids if i not in engines.PLAN],
         notes="TLA+ (TLC); no hooks in /repo are needed: everything is observed through the public API and the compiled code.")
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
