#!/usr/bin/env python3
"""writes the "findings" list of known_findings.json; cases are those of the property's generator"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.pbt import enc
from vf import sqlgen as S

F = []


def finding(prop, what, case):
    F.append({"property": prop, "what": what, "case": enc(case)})


def tab(name, cols, rows):
    return S.Table(name, name + ".csv", b",", [(c, "txt") for c in cols], rows).dump()


def c(n):
    return ["c", None, n, ""]


T1 = tab("t1", ["a", "b"], [[b"3", b"x"], [b"1", b"y"], [b"2", b"z"]])
finding("S11", "a subquery source with ORDER BY (select .. from (select top 2 .. order by ..) s) is not supported (refused when planned)",
        {"tables": [T1], "kind": "from", "view": "api", "opts": {},
         "q": {"cols": [[c("k0"), None]], "from": ["q", {"cols": [[c("a"), "k0"]], "from": ["t", "t1", None], "top": 2, "order": [[c("a"), False]]}, "s"]}})
finding("S11", "TOP n .. ORDER BY in an IN (subquery) is not supported (refused when planned)",
        {"tables": [T1], "kind": "in", "view": "api", "opts": {},
         "q": {"cols": [[c("a"), None]], "from": ["t", "t1", None],
               "where": ["insub", False, c("a"), {"cols": [[c("a"), None]], "from": ["t", "t1", None], "top": 2, "order": [[c("a"), False]]}]}})

p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["findings"] = F
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
open(p, "a").write("\n")
