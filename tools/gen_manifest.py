#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TODO = "no check is registered for it yet; the harness for this area is still being built"
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --warm",
    "hooks": {"guard": "RCPR_VERIF_MONITOR", "enable": "no hooks were needed in /repo; the checks compile /repo's own sources with sanitizers and interpose with the linker's --wrap", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "run.py builds /repo's working tree per variant into /verif/build (ignored by git) and runs the harness of the property's group; see DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": c.get("technique", "runtime monitoring under sanitizers with a reference model"),
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, TODO)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, ps)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
