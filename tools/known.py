#!/usr/bin/env python3
"""known.py add-fixed PROP COMMIT WHAT | add-known PROP ID WHAT INPUT -- edits known-findings.json (by hand only, never at check time)."""
import json, sys
p = "/verif/known-findings.json"
try:
    d = json.load(open(p))
except FileNotFoundError:
    d = []
if sys.argv[1] == "add-fixed":
    prop, commit, what = sys.argv[2:5]
    d.append({"property": prop, "status": "fixed", "id": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
else:
    prop, i, what, inp = sys.argv[2:6]
    d.append({"property": prop, "status": "known", "id": i, "what": what, "input": inp})
json.dump(d, open(p, "w"), indent=1)
