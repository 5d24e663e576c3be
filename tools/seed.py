#!/usr/bin/env python3
"""seed.py SPEC.py... : make seeded/<id>/ from specs, check each demo both ways in a scratch copy
of /repo, and run the property's quick check against the change (VF_REPO).  Development aid only.

A spec file defines S = [dict(id, prop, edits=[(file, old, new)...], demo=shell text, needs, breaks)].
demo text is the body between sourcing lib.sh and finish."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedrepo"


def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")


def fresh():
    if not os.path.exists(R):
        sh(["git", "clone", "-q", "/repo", R])
    sh(["git", "fetch", "-q", "origin"], R)
    sh(["git", "reset", "-q", "--hard", "origin/HEAD"], R)


def main():
    check = "--nocheck" not in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["S"]:
            if only and s["id"] not in only:
                continue
            fresh()
            d = os.path.join(V, "seeded", s["id"])
            for fn, old, new in s["edits"]:
                p = os.path.join(R, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print("%s: %d matches in %s for %r" % (s["id"], t.count(old), fn, old[:60]))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                _, diff = sh(["git", "diff"], R)
                if os.path.exists(d):
                    shutil.rmtree(d)
                os.makedirs(d)
                for x in os.listdir(V + "/tools/demo"):
                    if s.get("c_demo") and x in ("csv.c", "csv.h", "antlr_compat.h", "lib.sh", "build_fql.sh"):
                        continue
                    shutil.copy(V + "/tools/demo/" + x, d + "/" + x)
                open(d + "/patch.diff", "w").write(diff)
                for n, t in s.get("files", {}).items():
                    open(d + "/" + n, "w").write(t)
                with open(d + "/demo.sh", "w") as o:
                    o.write("#!/bin/bash\n")
                    if s.get("c_demo"):
                        o.write(s["demo"])
                    else:
                        o.write('. "$(dirname "$0")/lib.sh"\n' + s["demo"].strip("\n") + "\nfinish\n")
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(d + "/meta.json", "w"), indent=1)
                rc1, out1 = sh(["bash", d + "/demo.sh"], R)
                sh(["git", "stash", "-q"], R)
                rc0, out0 = sh(["bash", d + "/demo.sh"], R)
                sh(["git", "stash", "pop", "-q"], R)
                ok = rc0 == 0 and rc1 not in (0, 99)
                print("%s: demo clean=%d patched=%d %s" % (s["id"], rc0, rc1, "ok" if ok else "BAD\n" + out0[-1500:] + "\n--\n" + out1[-1500:]))
                if ok and check:
                    env = dict(os.environ, VF_REPO=R)
                    rc, out = sh([sys.executable, V + "/check.py", s["prop"], "quick"], V, env)
                    print("   check %s rc=%d %s" % (s["prop"], rc, "caught" if rc == 1 else "MISSED"), out.strip().splitlines()[-1][:150] if out.strip() else "")
            sys.stdout.flush()


main()
