"""SELECT INTO: histories of statements that create, replace, read and change files."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from . import props_sql as P
from .pbt import Discard, Fail
from .props_dml import affected
from .sqlcheck import SqlProp, show

SUBS = {"S01": P.Scan(), "S02": P.Cond(), "S06": P.Group(), "S07": P.Order(), "S08": P.PlainUnion()}


class Into(SqlProp):
    """a history of statements over the files of one directory, each step compared with the model of that directory"""
    id = "S13"
    rule = "at least one file was created or replaced and read back or changed later, or a failing statement left all files alone"
    quick_s = 26

    def gen(self, src):
        k = src.choice(sorted(SUBS))
        case = SUBS[k].gen(src)
        for t in case["tables"]:
            if t["delim"] != b",":
                t["delim"], t["file"] = b",", t["name"] + ".csv"
        ts = [S.Table.load(d) for d in case["tables"]]
        keep = S.g_table(src, 9, kinds=["key", "txt"], max_rows=5, delims=False)
        # what the names mean at this point of the history: name -> columns
        known = {}
        steps = []
        targets = ["o.csv", "p.csv", "o.csv"] + [keep.file] + [t.file for t in ts]
        for i in range(src.int(1, 5)):
            kind = src.weighted([(5, "into"), (3 if known else 0, "read"), (2 if known else 0, "change"), (1, "bad")])
            if kind in ("into", "bad"):
                q = self.query(src, case, ts, known)
                if q is None:
                    raise Discard
                to = src.choice(targets)
                st = {"k": "into", "q": q, "to": to, "var": src.bool(0.15)}
                if kind == "bad":
                    st["bad"] = src.weighted([(1, "plan"), (3, "run")])
                    if not self.spoil(src, st, ts):
                        continue
                steps.append(st)
                if kind == "into":
                    names = [a or e[2] for e, a in q["cols"]]
                    if len(set(n.lower() for n in names)) == len(names) and not any(t.file == to for t in ts):
                        known[to] = names
            elif kind == "read":
                to = src.choice(sorted(known))
                cols = src.sample(known[to], src.int(1, len(known[to])))
                steps.append({"k": "read", "from": to, "cols": cols if src.bool(0.7) else known[to], "star": src.bool(0.2),
                              "top": src.int(0, 3) if src.bool(0.15) else None})
            else:
                to = src.choice(sorted(known))
                steps.append({"k": "change", "from": to, "set": src.choice(known[to]) if src.bool(0.6) else None,
                              "val": src.choice([b"new", b"7", b"a,b", b"x y"]), "where": src.choice(known[to]),
                              "pick": src.int(0, 30)})
        if not steps:
            raise Discard
        o = {"overwrite": int(src.bool(0.5))}
        if src.bool(0.15):
            o["pipe_factor"] = src.choice([1, 2, 16])
        if src.bool(0.15):
            o["threading"] = 1
        return {"tables": [t.dump() for t in ts] + [keep.dump()], "steps": steps, "opts": o, "one": src.bool(0.5)}

    def query(self, src, case, ts, known):
        q = case["q"]
        if ts and src.bool(0.35):
            t = src.choice(ts)
            q = {"cols": [[["c", None, c, k], None] for c, k in src.sample(t.cols, src.int(1, len(t.cols)))], "from": ["t", t.name, None]}
            if src.bool(0.3):
                q["top"] = src.int(0, 4)
            if src.bool(0.4):
                q["order"] = [[["al", 0], src.bool()]] if False else None
            q = {a: b for a, b in q.items() if b is not None}
        q = dict(q)
        cols = []
        for i, (e, a) in enumerate(q["cols"]):
            if e == ["*"]:
                t = ts[0]
                cols += [[["c", None, c, k], None] for c, k in t.cols]
            else:
                cols.append([e, a or (None if e[0] == "c" else "zq%d" % i)])
        q["cols"] = [[e, a] for e, a in cols]
        if len(q["cols"]) < 2 and not q.get("group") and not q.get("union") and not q.get("distinct"):
            q["cols"].append([["i", 7], "seven"])
        return q

    def spoil(self, src, st, ts):
        q = st["q"]
        if q.get("union") or q.get("group") or q.get("distinct") or q.get("having") or not q.get("from") or q["from"][0] != "t":
            return False
        if any(isinstance(e, list) and e and e[0] == "agg" for e, _ in q["cols"]):
            return False
        q.pop("top", None)
        if st["bad"] == "plan":
            q["cols"] = q["cols"] + [[["c", None, "nosuch", "txt"], None]]
            return True
        t = [t for t in ts if t.name == q["from"][1]][0]
        ic = [i for i, (c, k) in enumerate(t.cols) if k == "int"]
        rows = [r for r in t.rows if ic and len(r) > ic[0]]
        if not rows:
            return False
        i = src.choice(ic)
        r = src.choice(rows)
        try:
            v = int(r[i]) if len(r) > i else 0
        except ValueError:
            return False
        q["cols"] = q["cols"] + [[["b", "/", ["i", 1], ["b", "-", ["c", q["from"][2], t.cols[i][0], "int"], ["i", v]]], "bad"]]
        return True

    # --- the model of the directory
    def text(self, st, files):
        if st["k"] == "into":
            return M.r_select(st["q"], into=st["to"])
        src = b"[" + st["from"].encode() + b"]"
        col = lambda c: b"[" + c.encode() + b"]"
        if st["k"] == "read":
            c = b"*" if st["star"] else b", ".join(col(c) for c in st["cols"])
            return b"select " + (b"top %d " % st["top"] if st["top"] is not None else b"") + c + b" from " + src
        w = b" where " + col(st["where"]) + b" = " + M.q_str(st["value"])
        if st["set"] is None:
            return b"delete from " + src + w
        return b"update " + src + b" set " + col(st["set"]) + b" = " + M.q_str(st["val"]) + w

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        files = {t.file: (t.header(), [list(r) for r in t.rows]) for t in ts}
        start = S.files_of(ts)
        ov = case["opts"]["overwrite"]
        one = case["one"]
        ctx.box.fresh(start)
        plan = []          # per statement: (sql, expected stdout rows or None, affected, ok)
        touched, later = set(), False
        ok, planbad = True, False
        new = set()
        raw = dict(start)  # files no statement changed
        for st in case["steps"]:
            if not ok:
                break
            db = M.DB({t.name: files[t.file] for t in ts})
            if st["k"] == "into" and not set(re.findall(rb"\bt\d\b", M.r_select(st["q"]))) <= {t.name.encode() for t in ts}:
                continue            # its table has other columns by now
            if st["k"] == "into":
                to = st["to"]
                sql = self.text(st, files)
                if st["var"] and not (one and len(case["steps"]) > 1):      # (a batch is planned before it runs)
                    v = b"@f%d" % len(plan)
                    sql = b"declare " + v + b" varchar(20) = '" + to.encode() + b"'; " + sql.replace(b" into [" + to.encode() + b"]", b" into " + v, 1)
                exists = to in files
                try:
                    res = None if st.get("bad") == "plan" else db.select(st["q"])
                except M.OutOfModel:
                    raise Discard
                except M.QueryError:
                    res = None
                    if db.const_error(st["q"]):
                        raise Discard
                if (exists and not ov) or res is None:
                    # refused, or no result: every file stays as it is
                    if not (exists and not ov) and one and plan and st.get("bad") == "plan":
                        raise Discard       # one bad plan stops the whole batch before it starts
                    if one and plan and exists and not ov:
                        raise Discard
                    ok = False
                    planbad = st.get("bad") == "plan"
                    plan.append((sql, None, None, False))
                    continue
                if one and (to in [t.file for t in ts]) and len(case["steps"]) > 1:
                    raise Discard           # later statements were planned against the former columns
                types, rows, okeys = res
                if okeys and len(set(map(repr, okeys))) < len(set(map(repr, zip(okeys, rows)))):
                    raise Discard           # the order is not determined
                if res and db.const_error(st["q"]):
                    raise Discard
                names = [a or e[2] for e, a in st["q"]["cols"]]
                rows = [C.text_row(r) for r in rows]
                if len(names) == 1 and any(r[0] in (b"", None) for r in rows):
                    raise Discard
                files[to] = (names, rows)
                raw.pop(to, None)
                if to not in start:
                    new.add(to)
                touched.add(to)
                plan.append((sql, None, len(rows), True))
                # a table whose columns have changed is no longer known to the generator
                if to in [t.file for t in ts]:
                    ts = [t for t in ts if t.file != to]
                    if len(case["steps"]) > len(plan):
                        pass
            else:
                if st["from"] not in files or st["from"] in [t.file for t in ts]:
                    continue
                names, rows = files[st["from"]]
                want = [st["set"]] if st.get("set") else st.get("cols") or []
                if any(c not in names for c in want + ([st["where"]] if "where" in st else [])):
                    continue
                later = True
                if st["k"] == "read":
                    cs = names if st["star"] else st["cols"]
                    out = [[r[names.index(c)] if names.index(c) < len(r) else b"" for c in cs] for r in rows]
                    if st["top"] is not None:
                        out = out[:st["top"]]
                    plan.append((self.text(st, files), (cs, out), len(out), True))
                    continue
                wi = names.index(st["where"])
                vals = [r[wi] for r in rows if r[wi] and b"\n" not in r[wi]]
                if not vals:
                    continue
                st = dict(st, value=vals[st["pick"] % len(vals)])
                if re.match(rb"^\s*[-+0-9.]", st["value"]) and one:
                    continue        # a number here is one in the query that made the file
                if any(M.q_str(st["value"]) and not v for v in [st["value"].strip()]):
                    continue
                fold = lambda v: v.rstrip(b" \t\n\v\f\r").lower()
                hit = [fold(r[wi]) == fold(st["value"]) for r in rows]
                if st["set"] is None:
                    rows2 = [r for r, h in zip(rows, hit) if not h]
                else:
                    si = names.index(st["set"])
                    rows2 = [r[:si] + [st["val"]] + r[si + 1:] if h else r for r, h in zip(rows, hit)]
                files[st["from"]] = (names, rows2)
                plan.append((self.text(st, files), None, sum(hit), True))
        if not plan:
            raise Discard
        args = (["-o"] if ov else []) + C.opts_args(case["opts"])
        batches = [plan] if one else [[p] for p in plan]
        ctxs = "statements: %s\nfiles: %r%s%s" % ("; ".join(show(p[0]) for p in plan), start, "\nin one run" if one else "\none run each", "\noverwriting" if ov else "")
        for b in batches:
            r = ctx.eng.cli(ctx.box.dir, args + ["-c", b"; ".join(p[0] for p in b)])
            if r.crashed():
                raise Fail("%s\n%s" % (r.crashed(), ctxs))
            good = all(p[3] for p in b)
            if good and r.rc != 0:
                raise Fail("failed: %s\n%s" % (r.msg()[-300:], ctxs))
            if not good and r.rc == 0:
                raise Fail("a statement succeeded that should be refused or has no result\n%s" % ctxs)
            if good:
                a = affected(r.msg())
                if a != [p[2] for p in b]:
                    raise Fail("%r rows reported as affected, expected %r\n%s" % (a, [p[2] for p in b], ctxs))
            self.output(r.out, [p[1] for p in b if p[1] is not None], ctxs, good)
        ls = ctx.box.listing()
        fail_new = {s["to"] for s in case["steps"] if s["k"] == "into"} - set(files)
        for k, v in ls.items():
            if k in raw:
                if v != raw[k]:
                    raise Fail("the file %r changed to %r\n%s" % (k, v, ctxs))
            elif k in fail_new:
                if v != b"" or ok or planbad:
                    raise Fail("a statement without a result made %r: %r\n%s" % (k, v, ctxs))
            elif k not in files:
                raise Fail("the file %r was left behind\n%s" % (k, ctxs))
        for k, (names, rows) in files.items():
            if k not in ls:
                raise Fail("the file %r is gone\n%s" % (k, ctxs))
            if k in raw:
                continue
            try:
                recs = M.parse_csv(ls[k], b",")
            except ValueError as e:
                raise Fail("%s in %s: %r\n%s" % (e, k, ls[k], ctxs))
            pad = lambda r: C.trow(list(r) + [b""] * (len(names) - len(r)))
            want = [tuple(n.encode() for n in names)] + [pad(r) for r in rows]
            got = [pad(r) for r in recs]
            if got != want:
                i = [x == y for x, y in zip(got, want)].index(False) if got[:len(want)] != want[:len(got)] else min(len(got), len(want))
                raise Fail("%s has %d records, expected %d; the first difference is record %d: %r, expected %r\n%s" % (
                    k, len(got), len(want), i, got[i:i + 1], want[i:i + 1], ctxs))
        return {"nontrivial": bool(touched and later) or not ok,
                "tags": ["batch" if one else "single"] + (["overwrite"] if ov else []) + (["fails"] if not ok else []) + sorted({"+" + s["k"] for s in case["steps"]})}

    def output(self, out, want, ctxs, good):
        text = b""
        try:
            recs = M.parse_csv(out, b",")
        except ValueError as e:
            raise Fail("%s\noutput: %r\n%s" % (e, out[:600], ctxs))
        exp = []
        for names, rows in want:
            exp.append(tuple(n.encode() for n in names))
            exp += [C.trow(r) for r in rows]
        got = [C.trow(r) for r in recs]
        if not good:
            got = got[:len(exp)] if len(got) > len(exp) else got
            exp = exp[:len(got)]
        if got != exp:
            raise Fail("printed %r, expected %r\n%s" % (got[:10], exp[:10], ctxs))

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        return {"steps": [show(self.text(st, None)) if st["k"] != "change" else str(st) for st in case["steps"]],
                "files": {k: v.decode("utf8", "backslashreplace") for k, v in S.files_of(ts).items()},
                "opts": case["opts"], "one_run": case["one"]}


PROPS = [Into]
