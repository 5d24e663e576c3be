"""Tables read through a schema file: columns of fixed width, or delimited without a header."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from . import props_sql as P
from .engine import parse_api
from .pbt import Discard, Fail
from .props_dml import Change, affected
from .sqlcheck import SqlProp, show

SUBS = {"scan": (P.Scan(), 4), "cond": (P.Cond(), 2), "group": (P.Group(), 2), "order": (P.Order(), 3), "union": (P.PlainUnion(), 1),
        "join": (P.Join(), 3), "left": (P.LeftJoin(), 1), "change": (Change(), 5)}


class Laid:
    """a table laid out by a schema: the model's rows, the bytes of the file, and back"""

    def __init__(self, t, how):
        self.t, self.k = t, how["k"]
        cols, rows = [list(c) for c in t.cols], [list(r) for r in t.rows]
        n = len(cols)
        self.widths = [0] * n
        if self.k == "fixed":
            rows = [r + [b""] * (n - len(r)) for r in rows]
            for i, (c, kind) in enumerate(cols):
                for r in rows:
                    if kind in ("int", "flt"):
                        r[i] = r[i].strip() or b"0"
                w = max([len(r[i]) for r in rows] + [1]) + how["pad"][i % len(how["pad"])]
                self.widths[i] = w
                for r in rows:
                    r[i] = r[i].rjust(w) if kind in ("int", "flt") else r[i].ljust(w)
            if how["nl"]:
                cols.append(["nl", "nl"])
                self.widths.append(1)
                for r in rows:
                    r.append(b"\n")
        elif self.k == "plain":
            # the delimiter is found by the CSV reader in the first line
            rows = [[f.replace(b"|", b"!").replace(b"\t", b"!").replace(b";", b"!") for f in r] for r in rows]
            if rows:
                rows[0] += [b"0" if k in ("int", "flt") else b"q" for _, k in cols[len(rows[0]):]]
        self.cols, self.rows = cols, rows
        self.junk = how["junk"][:max(0, sum(self.widths) - 1)] if self.k == "fixed" else b""
        self.file = t.name + (".txt" if self.k != "csv" else ".csv")
        self.type = how["type"]

    def header(self):
        return [c for c, _ in self.cols]

    def encode(self, rows):
        if self.k == "fixed":
            return b"".join(f.ljust(w) for r in rows for f, w in zip(r, self.widths))
        if self.k == "plain":
            return M.write_csv(["x"], rows, b",")[2:]
        return M.write_csv(self.header(), rows, b",")

    def bytes(self):
        return self.encode(self.rows) + self.junk

    def decode(self, data):
        """-> rows; the header, if there is one, is checked"""
        if self.k == "fixed":
            n = sum(self.widths)
            if len(data) % n:
                raise Fail("the file of records of %d bytes now has %d bytes" % (n, len(data)))
            out = []
            for i in range(0, len(data), n):
                r, p = [], i
                for w in self.widths:
                    r.append(data[p:p + w])
                    p += w
                out.append(r)
            return out
        recs = M.parse_csv(data, b",") if data else []
        if self.k == "csv":
            if not recs or recs[0] != [c.encode() for c in self.header()]:
                raise Fail("the header became %r" % recs[:1])
            return recs[1:]
        return recs

    def schema(self):
        """text of the schema file"""
        q = lambda s: M.q_field(s.encode(), b",")
        if self.k == "fixed":
            return b"".join(b"%s,%d,%s\n" % (q(c), w, self.type) for (c, _), w in zip(self.cols, self.widths))
        return b"".join(q(c) + (b"," + self.type if self.type else b"") + b"\n" for c, _ in self.cols)


class Schemas(SqlProp):
    """statements over tables with schemas against the reference model"""
    id = "S17"
    rule = "a table with a schema contributed some rows to the result, or some but not all of its rows changed"
    quick_s = 26

    def gen(self, src):
        k = src.weighted([(w, n) for n, (_, w) in SUBS.items()])
        case = SUBS[k][0].gen(src)
        case["kind"] = k
        lay = []
        for i, t in enumerate(case["tables"]):
            lay.append({"k": src.weighted([(4, "fixed"), (3, "plain"), (1 if i == 0 else 4, "csv")]), "pad": [src.weighted([(3, 0), (2, 1), (2, 2), (1, 7)]) for _ in range(3)],
                        "nl": int(src.bool(0.6)), "junk": src.choice([b"", b"", b"x", b"xyz 12", b"\n"]), "type": src.choice([b"c", b"char", b"string"]) if src.bool(0.7) else b"",
                        "ref": src.weighted([(4, "same"), (1, "upper"), (1, "ext")]), "ext": src.choice(["", "", ".schema", ".sch"])})
            if lay[-1]["k"] == "fixed" and not lay[-1]["type"]:
                lay[-1]["type"] = b"c"
        case["lay"] = lay
        case["view"] = src.choice(["api", "api", "cli", "into"]) if k != "change" else case["view"]
        case["sdef"] = src.bool(0.4)
        if case["opts"].get("sep"):
            case["opts"].pop("sep")
        return case

    def run(self, ctx, case):
        for d in case["tables"]:
            if any(b"\n" in f or b"\r" in f for r in d["rows"] for f in r) or any("\n" in c[0] for c in d["cols"]):
                raise Discard
        ls = [Laid(S.Table.load(d), how) for d, how in zip(case["tables"], case["lay"])]
        q = case["q"]
        if not ls or any(l.k == "plain" and not l.rows for l in ls):
            raise Discard          # a delimited file needs a first record
        for l in ls:
            if l.k != "csv" and len(l.cols) == 1 and any(not r or not r[0] for r in l.rows):
                raise Discard
        change = case["kind"] == "change"
        db = M.DB({l.t.name: (l.header(), l.rows) for l in ls})
        want = None
        try:
            if change:
                want = db.change(q)
            else:
                types, rows, okeys = db.select(q)
        except M.OutOfModel:
            raise Discard
        except M.QueryError:
            if not change:
                raise Discard
        files, names = {}, {}
        sdef = None
        schemas = {"sch/other": b"zz,1,c\n"}
        single = len(ls) == 1 or not re.search(rb"\bt[2-9]\b", M.r_change(q) if change else M.r_select(q))
        for i, (l, how) in enumerate(zip(ls, case["lay"])):
            files[l.file] = l.bytes()
            if l.k == "csv":
                continue
            sn = "lay%d" % (i + 1)
            schemas["sch/" + sn + how["ext"]] = l.schema()
            ref = {"same": sn, "upper": sn.upper(), "ext": sn}[how["ref"]]
            ref = "[%s%s]" % (sn, how["ext"]) if how["ref"] == "ext" and how["ext"] else ref
            if i == 0 and case["sdef"] and single:
                sdef = ref.strip("[]")
            else:
                names[l.t.name] = ref + "." + l.t.name
        old = M.r_src

        def r_src(s):
            if s[0] == "t" and s[1] in names:
                return names[s[1]].encode() + (b" " + s[2].encode() if s[2] and s[2] != s[1] else b"")
            return old(s)
        M.r_src = r_src
        try:
            if change:
                q = dict(q, form=3)     # a FROM clause holds the schema's name
                if q.get("set") is not None:
                    q["form"] = 0
                sql = M.r_change(q)
            else:
                sql = M.r_select(q, into="out.txt") if case["view"] == "into" else M.r_select(q)
        finally:
            M.r_src = old
        o = dict(case["opts"])
        args = ["--schema-path", "sch"] + (["--schema", sdef] if sdef else [])
        ctx.box.fresh(dict(files, **schemas))
        sc = "statement: %s\noptions: %r\nfiles: %r\nschemas: %r" % (show(sql), args, files, schemas)
        r = ctx.eng.cli(ctx.box.dir, args + C.opts_args(o) + ["-c", sql]) if case["view"] != "api" else \
            ctx.eng.api(ctx.box.dir, C.opts_api(o) + [b"schema_path=sch"] + ([b"schema=" + sdef.encode()] if sdef else []) +
                        ([b"exec=" + sql] if change else [b"plans=" + sql, b"stepall"]))
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), sc))
        ev = parse_api(r.res) if case["view"] == "api" else []
        failed = r.rc != 0 if case["view"] != "api" else (not any(e[0] == "RC" for e in ev) or any(e[1] < 0 for e in ev if e[0] == "RC"))
        after = ctx.box.listing()
        t = ls[0]
        for k in schemas:
            files[k] = schemas[k]
        if not change:
            f = self.select(case, r, ev, failed, ls, types, rows, okeys, after, sc)
        else:
            f = self.changed(case, q, db, r, failed, ls, want, after, files, sc)
        for k, v in files.items():
            if k not in after:
                raise Fail("the file %r is gone\n%s" % (k, sc))
            if after[k] != v and k not in f[1]:
                raise Fail("the file %r changed to %r\n%s" % (k, after[k], sc))
        for k in after:
            if k not in files and k not in f[1]:
                raise Fail("the file %r was left behind\n%s" % (k, sc))
        used = any(l.k != "csv" and l.rows for l in ls)
        return {"nontrivial": bool(f[0]) and used, "tags": [case["kind"], case["view"]] + sorted({l.k for l in ls}) + (["default schema"] if sdef else [])}

    def select(self, case, r, ev, failed, ls, types, rows, okeys, after, sc):
        if failed:
            # a value wider than its column has no place in fixed output
            raise Fail("failed: %s, where the reference gives %d rows\n%s" % (r.msg()[-300:], len(rows), sc))
        q = case["q"]
        ordered = case["kind"] in ("scan", "cond", "union") or case["kind"] == "order"
        if okeys and len(set(map(repr, okeys))) < len(set(map(repr, zip(okeys, rows)))):
            ordered = False
        if case["view"] == "api":
            got = [C.nrow([None if f[1] else f[2] for f in e[1]], True) for e in ev if e[0] == "ROW"]
            want = [C.nrow(x, True) for x in rows]
        else:
            data = r.out
            if case["view"] == "into":
                if "out.txt" not in after:
                    raise Fail("out.txt was not written\n%s" % sc)
                data = after["out.txt"]
            src = q.get("from")
            first = [l for l in ls if src and src[0] == "t" and l.t.name == src[1]]
            k = first[0].k if first else "csv"
            text = [C.text_row(x) for x in rows]
            if k == "fixed":
                self.fixed(case, q, first[0], ls, data, text, ordered, sc)
                return bool(rows), {"out.txt"} if case["view"] == "into" else set()
            if any(len(x) == 1 and not x[0] for x in text):
                raise Discard
            try:
                recs = M.parse_csv(data, b",") if data else []
            except ValueError as e:
                raise Fail("%s: %r\n%s" % (e, data[:1000], sc))
            if k == "csv":
                recs = recs[1:]
            got = [C.trow(x) for x in recs]
            want = [C.trow(x) for x in text]
        if (got != want) if ordered else (sorted(got) != sorted(want)):
            a, b = C.diff(got, want)
            raise Fail("%d rows, expected %d\n unexpected: %r\n missing: %r\n%s" % (len(got), len(want), a[:5], b[:5], sc))
        return bool(rows), {"out.txt"} if case["view"] == "into" else set()

    def fixed(self, case, q, first, ls, data, text, ordered, sc):
        """output in fixed columns: a column keeps its width, anything else its own"""
        al = {l.t.name: l for l in ls}
        byal = {(s[2] or s[1]).lower(): al[s[1]] for s in [q["from"]] + [j[1] for j in q.get("joins") or []] if s[0] == "t"}
        ws = []
        for e, a in q["cols"]:
            if e == ["*"]:
                for s in byal.values():
                    ws += s.widths
            elif e[0] == "c":
                l = byal[e[1].lower()] if e[1] else [x for x in byal.values() if e[2] in x.header()][0]
                ws.append(l.widths[l.header().index(e[2])])
            else:
                ws.append(0)
        if q.get("union"):
            raise Discard
        want = [b"".join(f.ljust(w) for f, w in zip(r, ws)) for r in text]
        if any(b"-0.000000" in x for x in want):
            raise Discard
        if ordered:
            ok = data == b"".join(want)
        else:
            ok = len(data) == sum(map(len, want))
            if ok and data and len(set(map(len, want))) == 1:
                n = len(want[0])
                ok = sorted(data[i:i + n] for i in range(0, len(data), n or 1)) == sorted(want)
        if not ok:
            raise Fail("the fixed output is %r, expected %r (widths %r)\n%s" % (data[:1500], b"".join(want)[:1500], ws, sc))

    def changed(self, case, q, db, r, failed, ls, want, after, files, sc):
        t = ls[0]
        wide = False
        if want is not None and t.k == "fixed":
            # a value wider than its column is refused
            fit = lambda row: all(len(f if isinstance(f, bytes) else b"" if f is None else f) <= w for f, w in zip(row, t.widths))
            n = len(want)
            alts2 = []
            for i, alts in enumerate(want):
                if alts is None:
                    continue
                bad = [not fit(C.text_row(a)) for a in alts]
                if all(bad):
                    wide = True
                elif any(bad):
                    alts2.append(i)
            if wide:
                want = None
            elif alts2 and failed:
                want = None
        if failed and want is not None and db.may_fail:
            want = None
        if want is None:
            if not failed:
                raise Fail("the statement succeeded where the reference has no value\n%s" % sc)
            return True, ()
        if failed and db.const_error(q):
            raise Discard
        if failed:
            raise Fail("the statement failed: %s\n%s" % (r.msg()[-300:], sc))
        if t.file not in after:
            raise Fail("%s is gone\n%s" % (t.file, sc))
        try:
            recs = t.decode(after[t.file])
        except (Fail, ValueError) as e:
            raise Fail("%s\n now: %r\n%s" % (e, after[t.file], sc))
        n = len(t.cols)
        if t.k == "fixed":
            pad = lambda x: tuple(f.ljust(w) for f, w in zip(C.text_row(x), t.widths))
        else:
            pad = lambda x: C.trow(list(x) + [b""] * (n - len(x)))
        got = [pad(x) for x in recs]
        exp = [[pad(a) for a in alts] for alts in want if alts is not None]
        if len(got) != len(exp):
            raise Fail("%s has %d rows, expected %d\n now: %r\n%s" % (t.file, len(got), len(exp), after[t.file][:1000], sc))
        for i, (a, b) in enumerate(zip(got, exp)):
            if a not in b:
                raise Fail("row %d of %s is %r, expected %r\n%s" % (i, t.file, a, b[:4], sc))
        nsel = sum(1 for r0, w in zip(t.rows, want) if w is None or not (len(w) == 1 and w[0] is r0))
        if q.get("set") is not None or q.get("where") is not None or q.get("joins"):
            if affected(r.msg()) != [nsel]:
                raise Fail("%r rows reported as affected, %d were\n%s" % (affected(r.msg()), nsel, sc))
        return 0 < nsel < len(want), {t.file}

    def show(self, case):
        return {"sql": show(M.r_change(case["q"]) if case["kind"] == "change" else M.r_select(case["q"])), "layout": case["lay"], "view": case["view"],
                "tables": {d["name"]: [d["cols"], d["rows"]] for d in case["tables"]}}


PROPS = [Schemas]
