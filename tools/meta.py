#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, technique=technique, observe=observe, hook=hook))


MODEL = "PBT: generated tables and queries vs an independent reference evaluator, CLI and API, ASan/UBSan and plain"
NOTE = ("Random exploration with shrinking, no proof. Trusts the reference evaluator (vf/sqlmodel.py), the vendored ANTLR runtime "
        "shim and the CSV reader/writer stand-in for libcsv (shim/).")
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"] or ["fql command line: stdout, exit status, files written", "library API: rows, types and NULL flags of each step"],
                        "hook_needed": p["hook"]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "See DESIGN.md. Each check rebuilds the engine and its component harnesses from /repo's working tree.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
print(len(P), "properties")
