#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/properties.py and the check registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, "engine")]
sys.dont_write_bytecode = True
from properties import PROPERTIES, NOT_APPLICABLE
import run
reg = run.load_props()
ids = [p["id"] for p in PROPERTIES]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = dict(NOT_APPLICABLE)
for p in ids:
    if p not in reg and p not in na:
        na[p] = "no check has been built for it yet"
m = {
    "version": 1,
    "setup_cmd": "python3 -B engine/extract.py",
    "hooks": {"guard": "none", "enable": "the checks read the unmodified source; no hook is needed", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json", "technique": "static analysis: " + reg[p][1], "level": "other",
                "level_note": reg[p][2]} for p in ids if p in reg],
    "not_applicable": [{"property": p, "reason": na[p]} for p in ids if p in na],
    "notes": "Every check extracts the MIR of /repo's current tree with a rustc_private driver and decides its rules on "
             "it; nothing of /repo is run. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
