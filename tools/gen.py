#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
import props
checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "./run.py --setup", "checks": [], "not_applicable": [], "notes": "One harness per property under checks/, over the choice-sequence PBT engine in lib/. Known findings: known_findings.txt."}
for x in P:
    if x["id"] in checks:
        m["checks"].append({"property": x["id"], "quick_cmd": "./run.py %s quick" % x["id"], "thorough_cmd": "./run.py %s thorough" % x["id"],
                            "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": getattr(props, "NA", {}).get(x["id"], "No check claimed yet: its harness is not built.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    j = json.loads(l)
    jsonschema.validate(j, sch)
    for fn in j["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn):
            print("missing anchor", j["id"], fn)
    n = j["statement"].count(". ") + 1
    if n > 3: print("too many sentences", j["id"], n)
print(len(P), "properties,", len(m["checks"]), "checks")
