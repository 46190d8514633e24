#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed: the properties whose check exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib")]
src = open(os.path.join(V, "check")).read()
ns = {}
exec(src[src.index("AREAS"):src.index("prop = sys")], ns)
import importlib
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DGV = "TLA+ model checked with TLC; TLC-generated behaviours replayed into the real code; recorded executions validated against the specification by TLC"
DV = "TLA+ model checked with TLC; recorded executions of the real code validated against the specification by TLC"
NOTE = json.load(open(os.path.join(here, "notes.json")))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    ok = False
    for a, ps in ns["AREAS"].items():
        if i in ps and os.path.exists(os.path.join(V, "checks", a + ".py")):
            ok = hasattr(importlib.import_module(a), i)
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif ok:
        n = NOTE.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": n.get("technique", DGV), "level": "model_checking",
                       "level_note": n.get("note", "exhaustive within the stated bounds on the model; conformance by replay and trace validation")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is observed through the public API, the reader/writer passed in, and the built wego binary."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
