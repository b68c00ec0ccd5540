#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.json-like python tables."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import PROPS, HOOKS
props = json.load(open(os.path.join(V, "contracts", "props.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        files = sorted({m[1].split(":")[0] for m in p["mech"]})
        e = {"id": p["id"], "title": p["title"], "statement": p["stmt"],
             "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(e) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in props and not p.get("na"):
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                       "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": "contract-based deductive verification of the real Go code (go/ssa symbolic execution, SMT)",
                       "level": "proof", "level_note": p.get("note", "")})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "contracts for this property are not written yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
