#!/usr/bin/env python3
"""design.py: writes DESIGN.md from tools/design.md, filling its lists from known-findings.json, git and the planted bugs."""
import json, os, re, subprocess, sys
V = "/verif"
head = open(V + "/tools/design.md").read()
kf = json.load(open(V + "/known-findings.json"))
by = {}
for f in kf:
    if f["status"] == "fixed": by.setdefault(f["id"], []).append(f["property"])
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
more = {"f5ce354": "C07", "4e04b3c": "C06", "379ee90": "C06", "3bfcfe9": "C07", "df4103f": "C06", "5bffd66": "C24", "3748f1d": "C24", "197c8db": "C12", "5cd91b8": "C12", "e5d4755": "C17", "d41cd53": "C17", "cb8290a": "C17", "f071e88": "C13", "4e03e79": "C13", "ac77fcc": "C13", "ecdf6a2": "C11"}
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = ", ".join(by.get(h, [])) or more.get(h, "?")
        fixed.append(f"* `{h}` ({p}) {s[5:]}")
known = [f"* {f['property']} `{f['id']}`: {f['what']} – {f['input']}" for f in kf if f["status"] == "known"]
rows = ["| change | property | needs |", "|---|---|---|"]
import glob
for d in sorted(glob.glob(V + "/seeded*/*"), key=os.path.basename):
    m = json.load(open(f"{d}/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
for a, b in (("@FIXED@", fixed), ("@KNOWN@", known), ("@SEEDED@", rows)):
    head = head.replace(a, "\n".join(b))
open(V + "/DESIGN.md", "w").write(head)
