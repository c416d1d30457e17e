#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/harness/props.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C34": "python/appdash is Python 2 source (it does not parse under Python 3) over Twisted and the Python 2 protobuf runtime; "
             "this sandbox has no Python 2 interpreter, Twisted or protobuf, so its packets cannot be produced. "
             "The wire format it relies on is decided from the server's side by C13 (independent encoder)."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        c = conf[i]
        checks.append({"property": i, "quick_cmd": "python3 harness/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 harness/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 harness/run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API (and, for C32, C33, C35, C36 and C37, the real binary) built from /repo's working tree."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
