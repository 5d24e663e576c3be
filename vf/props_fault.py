"""S23: a fault while files are written leaves each of them as it was or as the statement makes it."""
import re

from . import build
from . import sqlmodel as M
from .engine import parse_api
from .pbt import Discard, Fail, Prop
from .sqlcheck import show

WORDS = [b"", b"a", b"oak", b"silver birch", b"x,y", b'say "hi"', b"q" * 30, b"longer text without end " * 3, b"7", b"zz"]
TEMP = re.compile(r"^(.*/)?((libcsv|fixed|read)_[A-Za-z0-9]{6}|.+_[A-Za-z0-9]{6})$")
ERRNOS = {"EACCES": 13, "EIO": 5, "ENOSPC": 28, "EMFILE": 24}
SIGS = {"HUP": 1, "INT": 2, "QUIT": 3, "TERM": 15}


class Atomic(Prop):
    """faults injected into the calls that make, write and replace files, against the fault-free runs of the same statements"""
    id = "S23"
    level = "exploration"
    quick_s = 26
    rule = "the fault hit: the run failed or was ended by it"

    def prepare(self, tier):
        return {"bin": build.engine(san=False, fault=True), "asan": build.engine(san=True, fault=True)}

    # --- cases
    def gen(self, src):
        tabs = {}
        for n in ["t1", "t2"][:src.int(1, 2)]:
            rows = src.weighted([(1, 0), (4, src.int(1, 6)), (4, src.int(7, 60)), (1, src.int(61, 150))])
            tabs[n] = [[b"%d" % src.int(0, 9), b"%d" % (i if src.bool(0.9) else 0), src.choice(WORDS)] for i in range(rows)]
        fx = None
        if src.bool(0.5):
            fx = {"w": src.choice([8, 20, 61]), "rows": []}
            for i in range(src.int(0, 40)):
                fx["rows"].append([b"%d" % i, src.choice(WORDS)[:fx["w"]]])
        steps = [self.stmt(src, tabs, fx, i) for i in range(src.weighted([(3, 1), (3, 2), (2, 3), (1, 4)]))]
        faults = []
        for _ in range(src.int(3, 7)):
            k = src.weighted([(4, "bytes"), (5, "op"), (3, "sig"), (2, "kill"), (1, "full")])
            f = {"k": k, "at": src.int(0, 999)}
            if k == "op":
                f["err"] = src.choice(sorted(ERRNOS))
            if k == "sig":
                f["sig"] = src.choice(sorted(SIGS))
            faults.append(f)
        o = {}
        if src.bool(0.2):
            o["P"] = src.choice([2, 3, 16])
        if src.bool(0.15):
            o["t"] = 1
        return {"tabs": tabs, "fx": fx, "steps": steps, "faults": faults, "buf": src.choice([16, 100, 512, 4096]), "opts": o,
                "ov": src.bool(0.6), "view": src.weighted([(4, "cli"), (1, "api")])}

    def stmt(self, src, tabs, fx, i):
        t = src.choice(sorted(tabs))
        o = [n for n in tabs if n != t]
        fixed = fx and src.bool(0.3)
        where = src.choice([b"", b"", b" where k > 3", b" where n >= 5", b" where s like '%a%'"])
        if fixed:
            t, where = "lay.fx", src.choice([b"", b" where id > 3", b" where s like '%a%'"])
        tb = t.encode()
        kind = src.weighted([(4, "update"), (3, "delete"), (5, "into"), (2, "print")])
        jt = o[0].encode() if o and not fixed and src.bool(0.4) else None
        if kind == "update":
            val = src.choice([b"'new'", b"'a long new value, with a comma'", b"s", b"''"])
            if fixed:
                return b"update f set s = " + src.choice([b"'new'", b"'q'", b"s"]) + b" from lay.fx f" + where
            if jt:
                return b"update a set s = " + src.choice([b"b.s", b"'joined'"]) + b" from " + tb + b" a join " + jt + b" b on a.n = b.n"
            return b"update " + tb + b" set s = " + val + (src.choice([b"", b", k = k + 1"])) + where
        if kind == "delete":
            if jt:
                return b"delete a from " + tb + b" a join " + jt + b" b on a.n = b.n where b.k > 2"
            if fixed:
                return b"delete f from lay.fx f" + where
            return b"delete from " + tb + (where or src.choice([b"", b" where s = 'a'"]))
        cols = src.choice([b"*", b"s, s x, s y", b"id, s"]) if fixed else src.choice([b"*", b"k, n, s", b"s, n + 1 m, s z"])
        frm = tb
        if jt:
            cols, frm = b"a.k, a.s, b.s t", tb + b" a join " + (jt if src.bool() else b"(select n, s from " + jt + b")") + b" b on a.n = b.n"
            where = src.choice([b"", b" where a.k > 2"])
        elif src.bool(0.2):
            frm = b"(select * from " + tb + b") q"
        order = src.choice([b"", b" order by 1", b" order by 2 desc"])
        if not jt and not fixed and src.bool(0.2):
            cols, order = b"k, count(*) c, max(s) m", b" order by 1"
            where += b" group by k"
        into = b""
        if kind == "into":
            into = b" into [" + src.choice([b"o.csv", b"o.csv", b"p.csv", b"t1.csv", b"sub/o.csv"]) + b"]"
        return b"select " + cols + into + b" from " + frm + where + order

    def files(self, case):
        f = {n + ".csv": M.write_csv(["k", "n", "s"], rows, b",") for n, rows in case["tabs"].items()}
        fx = case["fx"]
        if fx:
            f["fx"] = b"".join(a.rjust(4) + b.ljust(fx["w"]) for a, b in fx["rows"])
            f["sch/lay"] = b"id,4,c\ns,%d,c\n" % fx["w"]
        f["sch/other"] = b"zz,1,c\n"
        f["sub/x"] = b"x\n"
        return f

    # --- runs
    def go(self, ctx, case, files, steps, fault):
        ctx.box.fresh(files)
        o = case["opts"]
        spec = "buf=%d" % case["buf"] + ("," + fault if fault else "")
        sql = b"; ".join(steps)
        if case["view"] == "api":
            cmds = [b"schema_path=sch"] + ([b"overwrite=1"] if case["ov"] else []) + ([b"pipe_factor=%d" % o["P"]] if "P" in o else []) + \
                ([b"threading=1"] if "t" in o else []) + [b"exec=" + sql, b"flush"]
            r = ctx.eng.request("api!;" + spec, ctx.box.dir, cmds)
            rcs = [x[1] for x in parse_api(r.res.split(b"DONE")[0]) if x[0] == "RC"]
            ok = r.rc == 0 and rcs and min(rcs) >= 0
        else:
            args = ["--schema-path", "sch"] + (["-o"] if case["ov"] else []) + (["-P", str(o["P"])] if "P" in o else []) + (["-t"] if "t" in o else [])
            r = ctx.eng.request("cli!;" + spec, ctx.box.dir, args + ["-c", sql])
            ok = r.rc == 0
        return r, ok, ctx.box.listing()

    def run(self, ctx, case):
        files = self.files(case)
        steps = case["steps"]
        desc = "statements: %s\nfiles: %r\noptions: %r%s" % ("; ".join(map(show, steps)), files, case["opts"], " -o" if case["ov"] else "")
        states = [files]
        r = None
        for i in range(len(steps)):
            r, ok, ls = self.go(ctx, case, files, steps[:i + 1], None)
            if r.crashed():
                raise Fail("%s\n%s" % (r.crashed(), desc))
            if not ok:
                if i == 0:
                    raise Discard
                # what is refused without any fault tells nothing about faults
                steps = steps[:i]
                r, ok, ls = self.go(ctx, case, files, steps, None)
                if not ok:
                    raise Discard
                break
            states.append(ls)
        final, out = states[-1], r.out
        m = re.findall(rb"^(\d+) (\d+) (\d+)$", r.res, re.M)
        if not m:
            raise Fail("the run did not come to its end: %r\n%s" % (r.res[-200:], desc))
        ops, evs, nbytes = map(int, m[-1])
        new = set(re.findall(r"into \[(.*?)\]", "; ".join(map(show, steps))))
        hits, tags = 0, []
        for f in case["faults"]:
            k = f["k"]
            if k == "bytes":
                spec = "bytes=%d" % (f["at"] * nbytes // 1000)
            elif k == "op":
                spec = "op=%d:%d" % (f["at"] * ops // 1000, ERRNOS[f["err"]])
            elif k == "sig":
                spec = "ev=%d:%d" % (f["at"] * evs // 1000, SIGS[f["sig"]])
            elif k == "kill":
                spec = "ev=%d:9" % (f["at"] * evs // 1000)
            else:
                spec = "full"
            if k in ("sig", "kill") and ("t" in case["opts"] or not evs) or k == "op" and not ops or k == "bytes" and not nbytes:
                continue
            r, ok, ls = self.go(ctx, case, files, steps, spec)
            what = "fault %s (%s): " % (spec, {"bytes": "no space left after so many bytes", "op": "this call fails with " + f.get("err", ""),
                                              "sig": "signal " + f.get("sig", ""), "kill": "killed", "full": "stdout is /dev/full"}[k])
            tail = "\nexit %r, said %r\n%s" % (r.rc, r.msg()[-300:], desc)
            ended = k in ("sig", "kill") and r.rc == (137 if k == "kill" else 1)
            if r.crashed() and not (k == "kill" and r.rc == 137):
                raise Fail(what + r.crashed() + tail)
            if k in ("sig", "kill") and not ended:
                raise Fail(what + "the run was not ended" + tail)
            tmp = [n for n in ls if n not in final and n not in files and n not in new]
            if k == "kill":
                for n in list(tmp):
                    if TEMP.match(n):
                        tmp.remove(n)
                        del ls[n]
            if tmp:
                raise Fail(what + "left %r behind" % tmp + tail)
            if ok and not ended:
                if ls != final:
                    raise Fail(what + "the run succeeded, but " + diff(ls, final) + tail)
                if r.out != out and k != "full":
                    raise Fail(what + "the run succeeded, but printed %r, not %r" % (r.out[:300], out[:300]) + tail)
                if k == "full" and out and case["view"] == "cli":
                    raise Fail(what + "the output was lost, but the run succeeded" + tail)
                tags.append(k + ":survived")
                continue
            if not ended and not r.msg():
                raise Fail(what + "the run failed without a message" + tail)
            hits += 1
            tags.append(k + ":" + ("ended" if ended else "failed"))
            # every file as some number of whole statements left it; a target that does not exist yet may be empty
            for st in states:
                if {a: b for a, b in ls.items() if a in st or b or a not in new} == st:
                    break
            else:
                raise Fail(what + "the files are in a state no number of whole statements leads to: "
                           + " / ".join("%d statements: %s" % (i, diff(ls, st)) for i, st in enumerate(states)) + tail)
        if "t" in case["opts"]:
            tags.append("threads")
        return {"nontrivial": hits > 0, "tags": tags}

    def show(self, case):
        return {"statements": [show(s) for s in case["steps"]], "faults": [str(f) for f in case["faults"]], "rows": {k: len(v) for k, v in case["tabs"].items()}}


def diff(a, b):
    d = []
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            d.append("%s is %r, not %r" % (n, None if n not in a else a[n][-160:], None if n not in b else b[n][-160:]))
    return ", ".join(d) or "the same"


PROPS = [Atomic]
