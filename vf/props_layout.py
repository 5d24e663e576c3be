"""S21: the layout of a file (fixed width, delimited, with or without a header) survives a history of statements."""
import re

from . import sqlmodel as M
from .pbt import Discard, Fail
from .props_dml import affected
from .props_names import EngineProp
from .sqlcheck import show

VALS = [b"a", b"oak", b"elm", b"b", b"x y", b"zz9", b"Q", b"7", b"birch", b"12"]
NAMES = ["id", "s", "Name", "k2", "note", "c d", "v"]


class Layout(EngineProp):
    """histories of SELECT INTO, UPDATE, DELETE and SELECT in one batch over files of every layout"""
    id = "S21"
    rule = "a file made or changed by one statement was read or changed by a later one"

    def gen(self, src):
        base = {}
        for n, kind in (("a", "fixed"), ("b", "plain"), ("c", "csv")):
            if base and src.bool(0.4):
                continue
            cols = src.sample(NAMES, src.int(1 if kind == "fixed" else 2, 4))
            w = [src.int(1, 9) for _ in cols]
            rows = [[src.choice(VALS)[:w[i]] if kind == "fixed" else src.choice(VALS) for i in range(len(cols))] for _ in range(src.weighted([(1, 1), (5, src.int(1, 6)), (1, src.int(60, 90))]))]
            if kind == "fixed" and src.bool(0.1):
                rows = []
            rows = [[f.rstrip() or b"q" for f in r] for r in rows]
            base[n] = {"kind": kind, "cols": cols, "w": w, "rows": rows}
        # names -> columns, as far as the generator knows
        known = {n: list(zip(b["cols"], b["w"])) for n, b in base.items()}
        steps = []
        for i in range(src.int(2, 6)):
            f = src.choice(sorted(known))
            cols = [c for c, _ in known[f]]
            where = [src.choice(cols), src.choice(VALS)] if src.bool(0.5) else None
            k = src.weighted([(4, "into"), (4, "read"), (3, "update"), (2, "delete"), (1, "join")])
            st = {"k": k, "f": f, "where": where}
            if k in ("into", "read"):
                pick = src.sample(known[f], src.int(1, len(known[f]))) if src.bool(0.7) else None
                st["cols"] = [[c, src.choice(["n%d" % j, None, None])] for j, (c, _) in enumerate(pick)] if pick else None
                if src.bool(0.3):
                    st["order"] = [src.choice(cols), src.bool()]
                if src.bool(0.15):
                    st["top"] = src.int(0, 4)
            if k == "into":
                st["to"] = src.choice(["o1", "o2", "o2", "p.txt"] + sorted(base))
                out = [(a or c, dict(known[f])[c]) for c, a in st["cols"]] if pick else known[f]
                if st["to"] in base:
                    if not src.bool(0.3):
                        st["to"] = "o1"
                if st["to"] not in base:
                    known[st["to"]] = out
                else:
                    # its schema no longer describes it
                    known.pop(st["to"], None)
                    if not known:
                        known["o1"] = out
                        st["to"] = "o1"
            elif k == "update":
                st["set"] = [src.choice(cols), src.choice(VALS)]
            elif k == "join":
                g = src.choice(sorted(known))
                st["g"] = g
                st["on"] = [src.choice(cols), src.choice([c for c, _ in known[g]])]
                st["out"] = [["x", src.choice(cols)], ["y", src.choice([c for c, _ in known[g]])], ["x", src.choice(cols)]][:src.int(1, 3)]
            steps.append(st)
        o = {}
        if src.bool(0.25):
            o["h"] = 1
        if src.bool(0.25):
            o["H"] = 1
        if src.bool(0.15):
            o["t"] = 1
        if src.bool(0.15):
            o["P"] = src.choice([2, 16])
        return {"base": base, "steps": steps, "opts": o}

    def run(self, ctx, case):
        o = case["opts"]
        files, st = {}, {}
        for n, b in case["base"].items():
            if b["kind"] == "fixed":
                files[n] = b"".join(f.ljust(w) for r in b["rows"] for f, w in zip(r, b["w"]))
                files["sch/l" + n] = b"".join(b"%s,%d,c\n" % (c.encode(), w) for c, w in zip(b["cols"], b["w"]))
            elif b["kind"] == "plain":
                files[n] = b"".join(b",".join(r) + b"\n" for r in b["rows"])
                files["sch/l" + n] = b"".join(c.encode() + b",c\n" for c in b["cols"])
            else:
                files[n] = ",".join(b["cols"]).encode() + b"\n" + b"".join(b",".join(r) + b"\n" for r in b["rows"])
            st[n] = {"kind": b["kind"], "cols": b["cols"], "w": b["w"], "rows": [list(r) for r in b["rows"]], "head": b["kind"] == "csv", "orig": True}
            if b["kind"] != "csv" and len(b["cols"]) == 1 and b["kind"] == "plain":
                raise Discard
        files["sch/zz"] = b"zz,1,c\n"
        sqls, outs, aff = [], [], []
        later, made = False, set()
        col = lambda c, p="": b"" + (p.encode() + b"." if p else b"") + b"[" + c.encode() + b"]"

        def ref(n):
            s = st[n]
            return (b"l" + n.encode() + b"." if s["orig"] and s["kind"] != "csv" else b"") + b"[" + n.encode() + b"]"

        def val(s, c, r):
            v = r[s["cols"].index(c)]
            return v.ljust(s["w"][s["cols"].index(c)]) if s["kind"] == "fixed" else v

        def eq(a, b):
            return a.rstrip(b" ").lower() == b.rstrip(b" ").lower()

        for x in case["steps"]:
            f = x["f"]
            s = st.get(f)
            if s is None:
                continue
            if f in made:
                later = True
            # the file may have been replaced by one with other columns
            need = [x["where"][0]] if x.get("where") else []
            if x["k"] in ("into", "read"):
                need += [c for c, _ in x["cols"] or []] + ([x["order"][0]] if x.get("order") else [])
            elif x["k"] == "join":
                if x["g"] not in st:
                    continue
                need += [x["on"][0]] + [c for p, c in x["out"] if p == "x"]
                if any(c not in st[x["g"]]["cols"] for c in [x["on"][1]] + [c for p, c in x["out"] if p == "y"]):
                    continue
            elif x["k"] == "update":
                need.append(x["set"][0])
            if any(c not in s["cols"] for c in need):
                continue
            hit = [x["where"] is None or eq(val(s, x["where"][0], r), x["where"][1]) for r in s["rows"]]
            w = b"" if x["where"] is None else b" where " + col(x["where"][0]) + b" = " + M.q_str(x["where"][1])
            if x["where"] and re.match(rb"^\d", x["where"][1]):
                pass                # both sides are text
            k = x["k"]
            if k in ("into", "read"):
                rows = [r for r, h in zip(s["rows"], hit) if h]
                sel = x["cols"] or [[c, None] for c in s["cols"]]
                names = [a or c for c, a in sel]
                if len(set(n.lower() for n in names)) != len(names):
                    continue
                b = b""
                if x.get("order"):
                    c, desc = x["order"]
                    if c in [a for _, a in sel if a] or c not in [y for y, _ in sel] and c in names:
                        continue
                    key = lambda r: val(s, c, r).rstrip(b" ").lower()
                    if len(set(map(key, rows))) < len(rows):
                        rows0 = sorted(rows, key=key, reverse=desc)
                        if any(key(p) == key(q) and [val(s, y, p) for y, _ in sel] != [val(s, y, q) for y, _ in sel] for i, p in enumerate(rows0) for q in rows0[i + 1:]):
                            continue        # not determined
                    rows = sorted(rows, key=key, reverse=desc)
                    b = b" order by " + col(c) + (b" desc" if desc else b"")
                top = b""
                if x.get("top") is not None:
                    top = b"top %d " % x["top"]
                    rows = rows[:x["top"]]
                out = [[r[s["cols"].index(c)] for c, _ in sel] for r in rows]
                q = b"select " + top + (b", ".join(col(c) + (b" " + a.encode() if a else b"") for c, a in sel) if x["cols"] else b"*")
                ws = [s["w"][s["cols"].index(c)] for c, _ in sel]
                head = s["kind"] != "fixed" and (not o.get("h") if s["kind"] == "csv" else bool(o.get("H")))
                res = {"kind": s["kind"], "cols": names, "w": ws, "rows": out, "head": head, "orig": False}
                if k == "into":
                    q += b" into [" + x["to"].encode() + b"]"
                    if x["to"] == f and False:
                        continue
                    st[x["to"]] = res
                    made.add(x["to"])
                else:
                    outs.append((self.data(res), None))
                sqls.append(q + b" from " + (b"l" + f.encode() + b"." if s["orig"] and s["kind"] != "csv" else b"") + b"[" + f.encode() + b"]" + w + b)
                aff.append(len(out))
            elif k == "join":
                if x["g"] not in st:
                    continue
                t = st[x["g"]]
                if x["g"] in made:
                    later = True
                # two columns that compare as text
                out = [[val({"x": s, "y": t}[p], c, {"x": r, "y": u}[p]) for p, c in x["out"]] for r in s["rows"] for u in t["rows"]
                       if eq(val(s, x["on"][0], r), val(t, x["on"][1], u))]
                names = [c for _, c in x["out"]]
                ws = [{"x": s, "y": t}[p]["w"][{"x": s, "y": t}[p]["cols"].index(c)] for p, c in x["out"]]
                if s["kind"] != t["kind"]:
                    continue
                head = s["kind"] != "fixed" and (not o.get("h") if s["kind"] == "csv" else bool(o.get("H")))
                data = lambda rows: self.data({"kind": s["kind"], "cols": names, "w": ws, "rows": rows, "head": head})
                lines = None
                full = data(out)
                one = [data([r])[len(data([])):] for r in out]
                outs.append((full, (data([]), sorted(one))))
                sqls.append(b"select " + b", ".join(col(c, p) for p, c in x["out"]) + b" from " + ref(f) + b" x join " + ref(x["g"]) + b" y on "
                            + col(x["on"][0], "x") + b" = " + col(x["on"][1], "y"))
                aff.append(len(out))
            elif k == "update":
                c, v = x["set"]
                i = s["cols"].index(c)
                if s["kind"] == "fixed":
                    v = v[:s["w"][i]].rstrip() or b"q"
                sqls.append(b"update z set " + col(c) + b" = " + M.q_str(v) + b" from " + ref(f) + b" z" + w)
                for r, h in zip(s["rows"], hit):
                    if h:
                        r[i] = v
                made.add(f)
                aff.append(sum(hit))
            else:
                if x["where"] is None:
                    w = b" where " + col(s["cols"][0]) + b" <> 'nothing at all'"
                sqls.append(b"delete z from " + ref(f) + b" z" + w)
                s["rows"] = [r for r, h in zip(s["rows"], hit) if not h]
                made.add(f)
                aff.append(sum(hit))
        if not sqls:
            raise Discard
        ctx.box.fresh(files)
        args = ["-o", "--schema-path", "sch"] + (["-h"] if o.get("h") else []) + (["-H"] if o.get("H") else []) + (["-t"] if o.get("t") else []) + (["-P", str(o["P"])] if o.get("P") else [])
        sql = b"; ".join(sqls)
        r = ctx.eng.cli(ctx.box.dir, args + ["-c", sql])
        d = "\nstatements: %s\noptions: %s\nfiles: %r" % (show(sql), " ".join(args), files)
        if r.crashed():
            raise Fail(r.crashed() + d)
        if r.rc != 0:
            raise Fail("failed: " + r.msg()[-300:] + d)
        if affected(r.msg()) != aff:
            raise Fail("%r rows reported as affected, expected %r" % (affected(r.msg()), aff) + d)
        pos = 0
        for full, loose in outs:
            got = r.out[pos:pos + len(full)]
            pos += len(full)
            if got == full:
                continue
            if loose and got.startswith(loose[0]):
                rest, ok = got[len(loose[0]):], True
                todo = list(loose[1])
                while rest and ok:
                    m = [y for y in todo if rest.startswith(y)]
                    ok = bool(m)
                    if ok:
                        y = max(m, key=len)
                        todo.remove(y)
                        rest = rest[len(y):]
                if ok and not todo:
                    continue
                if s["kind"] == "fixed" or ok:
                    raise Fail("printed %r, expected %r in some order" % (got[:400], full[:400]) + d)
            raise Fail("printed %r, expected %r" % (got[:400], full[:400]) + d)
        if pos != len(r.out):
            raise Fail("more was printed: %r" % r.out[pos:][:300] + d)
        ls = ctx.box.listing()
        for n, s in st.items():
            want = self.data(s)
            if ls.get(n) != want:
                raise Fail("%s is %r, expected %r" % (n, None if n not in ls else ls[n][:400], want[:400]) + d)
        for n in files:
            if n.startswith("sch/") and ls.get(n) != files[n]:
                raise Fail("%s changed" % n + d)
        for n in ls:
            if n not in files and n not in st:
                raise Fail("%s was left behind" % n + d)
        return {"nontrivial": later, "tags": sorted({x["k"] for x in case["steps"]} | {b["kind"] for b in case["base"].values()} | {"-" + k for k in o})}

    def data(self, s):
        if s["kind"] == "fixed":
            return b"".join(f.ljust(w) for r in s["rows"] for f, w in zip(r, s["w"]))
        return (",".join(s["cols"]).encode() + b"\n" if s["head"] else b"") + b"".join(b",".join(r) + b"\n" for r in s["rows"])

    def show(self, case):
        return {"steps": [str(x) for x in case["steps"]], "base": {n: [b["kind"], b["cols"], len(b["rows"])] for n, b in case["base"].items()}, "opts": case["opts"]}


PROPS = [Layout]
