#!/usr/bin/env python3
"""writes the "fixed" list of known_findings.json from the fix: commits of /repo"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split(" ", 1) for l in open(os.path.join(V, "tools", "fixed.txt")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [i for i, t in MAP if s.startswith(t)]
    if len(m) != 1:
        print("no single property for:", s, m)
    out.append("fixed: property=%s %s %s" % (m[0] if m else "S01", h, s))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
open(p, "a").write("\n")
