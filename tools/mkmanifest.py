#!/usr/bin/env python3
"""MANIFEST.json from specs/specs.json and properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(R + "/specs/specs.json"))
na = json.load(open(R + "/specs/not_applicable.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, nal = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "deductive verification (Verus) of contracts on functions extracted from /repo on every run; bounded run-time evaluation of the same contracts for replay and for the code outside the verifier's reach"),
                           level=c.get("level", "proof"), level_note=c.get("note", "Proved for all inputs within machine range: the functions listed in the evidence. Bounded only: " + c.get("bounded", "")),
                           ))
        if c.get("theorems"):
            checks[-1]["theorems"] = c["theorems"]
    else:
        nal.append(dict(property=i, reason=na.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=nal,
         hooks=dict(guard="none", enable="no hooks: the functions are extracted from the unmodified sources", source_commits=[]),
         notes="Deciding back end: Verus on mechanically extracted functions; see DESIGN.md.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
