"""Control flow and variables: programs of several statements against an interpreter of the same programs."""
import copy

from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from . import props_sql as P
from .props_dml import Change, affected
from .pbt import Discard, Fail
from .sqlcheck import SqlProp, show

SUBS = {"scan": (P.Scan(), 3), "cond": (P.Cond(), 4), "like": (P.Like(), 1), "exprs": (P.Exprs(), 1), "group": (P.Group(), 2), "order": (P.Order(), 2),
        "union": (P.PlainUnion(), 2), "join": (P.Join(), 2), "left": (P.LeftJoin(), 2), "nested": (P.Nested(), 3), "change": (Change(), 5)}
FT = {"int": "I", "bigint": "I", "bit": "I", "float": "F", "varchar": "S", "char": "S", "text": "S"}
KIND = {"I": "num", "F": "flt", "S": "txt"}


def assign(ty, n, v):
    """what a variable of the type holds after the assignment of v"""
    if v is None:
        return None
    f = FT[ty]
    if f == "I":
        v = M.to_int(v)
        return int(v != 0) if ty == "bit" else v
    if f == "F":
        return M.to_float(v)
    v = M.fmt(v)
    if len(v) > 4096:
        raise M.OutOfModel          # a loop doubling it
    if n is None:
        return v
    if not v.isascii() and (len(v) > n or ty == "char"):
        raise M.OutOfModel          # bytes or characters: undocumented
    return v[:n].ljust(n) if ty == "char" else v[:n]


class VG(S.G):
    """expressions over variables"""

    def cols(self, kinds):
        v = super().cols(kinds)
        if "txt" in kinds:
            v = [x for x in v if x[2] in ("txt", "key")]
        return v


def to_vars(x):
    """["c", "@", name, kind] -> ["v", "@name"]"""
    if isinstance(x, list):
        if len(x) == 4 and x[0] == "c" and x[1] == "@":
            return ["v", "@" + x[2]]
        return [to_vars(y) for y in x]
    if isinstance(x, dict):
        return {k: to_vars(v) for k, v in x.items()}
    return x


def grouped(q):
    return bool(q.get("group") or q.get("having") is not None or any(M._has_agg(e) for e, _ in q["cols"]))


class Flow(SqlProp):
    """random programs of DECLARE, SET, IF, WHILE, BEGIN..END and statements"""
    id = "S19"
    rule = "a branch was decided or a loop body ran, and at least two statements had output or effects"
    quick_s = 26

    # ------------------------------------------------------------ generation
    def gen(self, src):
        k = src.weighted([(w, k) for k, (_, w) in sorted(SUBS.items())])
        case = SUBS[k][0].gen(src)
        self.src, self.case, self.k = src, case, k
        self.ts = [S.Table.load(d) for d in case["tables"]]
        self.n = 0
        self.left = src.int(3, 9)
        self.used = False
        imports = []
        scope = []
        if src.bool(0.15):
            self.n += 1
            v = src.choice([(None, b"ab"), (None, b"x y"), (None, b"7"), ("int", b"12"), ("float", b"2.5"), ("varchar", b"abcdef"), ("char", b"ab"), ("bit", b"1")])
            n = src.choice([2, 4, 8]) if v[0] in ("varchar", "char") else None
            imports.append([self.name(), v[0], n, v[1]])
            scope.append((imports[0][0], v[0] or "text", n))
        body = self.block(scope, src.int(1, 3), 5)
        if not self.used and not src.bool(0.2):
            body.append(self.query(scope))
        o = {a: b for a, b in C.g_opts(src).items() if a != "sep"}
        return {"tables": case["tables"], "imports": imports, "body": body, "opts": o, "sep": src.choice([b" ", b"\n", b";\n", b" "]),
                "caps": src.bool(0.2)}

    def name(self):
        self.n += 1
        return "%s%d" % (self.src.choice(["v", "x", "Val_", "i"]), self.n)

    def g(self, scope, d=1):
        g = VG(self.src, [("@", n, KIND[FT[t]]) for n, t, _ in scope], nulls=True, depth=d)
        g.risky = self.src.bool(0.08)
        return g

    def expr(self, scope, f, d=1):
        s = self.src
        g = self.g(scope, d)
        if s.bool(0.08) and self.ts:
            t = s.choice(self.ts)
            return ["ss", {"cols": [[["agg", "COUNT", None], None]], "from": ["t", t.name, None]}] if f == "I" else \
                   ["ss", {"cols": [[["c", None, t.cols[0][0], t.cols[0][1]], None]], "from": ["t", t.name, None], "top": 1}]
        return to_vars({"I": g.int, "F": g.flt, "S": g.str}[f]())

    def cond(self, scope):
        s = self.src
        if s.bool(0.15) and self.ts:
            t = s.choice(self.ts)
            q = {"cols": [[["agg", "COUNT", None], None]], "from": ["t", t.name, None]}
            return ["cmp", s.choice(["<", ">", ">=", "<>", "="]), ["ss", q], ["i", s.choice([0, 1, 3, len(t.rows)])]]
        return to_vars(self.g(scope, 1).cond(s.int(0, 2)))

    def decl(self, scope):
        s = self.src
        out = []
        for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])):
            ty = s.weighted([(4, "int"), (2, "float"), (3, "varchar"), (1, "char"), (1, "bit"), (1, "text"), (1, "bigint")])
            n = s.choice([1, 3, 6, 20]) if ty in ("varchar", "char") else None
            f = FT[ty] if s.bool(0.85) else s.choice("IFS")
            init = self.expr(scope, f) if s.bool(0.85) else None
            nm = self.name()
            out.append([nm, ty, n, init])
            scope.append((nm, ty, n))
        return ["decl", out]

    def block(self, scope, depth, n):
        s = self.src
        out = []
        for _ in range(s.int(1, n)):
            if self.left <= 0:
                break
            self.left -= 1
            k = s.weighted([(3 if len(scope) < 5 else 1, "decl"), (4 if scope else 0, "set"), (3, "sel"), (2, "query"),
                            (3 if depth else 0, "if"), (2 if depth else 0, "while"), (1 if depth else 0, "block")])
            if k == "decl":
                out.append(self.decl(scope))
            elif k == "set":
                nm, ty, _ = s.choice(scope)
                f = FT[ty]
                ops = {"I": ["=", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="], "F": ["=", "=", "+=", "-=", "*=", "/="], "S": ["=", "+="]}[f]
                op = s.choice(ops)
                e = self.expr(scope, f if s.bool(0.85) or op not in ("=", "+=") else s.choice("IFS"))
                if op in ("/=", "%=") and s.bool(0.9):
                    e = ["i", s.choice([1, 2, 3])] if f == "I" else ["f", s.choice(["0.5", "2.0"])]
                if op == "=" and s.bool(0.07):
                    e = ["null"]
                out.append(["set", nm, op, e])
            elif k == "sel":
                n2 = s.int(2, 3)
                out.append(["sel", {"cols": [[self.expr(scope, s.choice("IISF")), "c%d" % i] if not scope or s.bool(0.4) else
                                             [["v", "@" + s.choice(scope)[0]], "c%d" % i] for i in range(n2)]}, True])
            elif k == "query":
                out.append(self.query(scope))
            elif k == "if":
                c = self.cond(scope)
                a = self.block(list(scope), depth - 1, 3)
                b = self.block(list(scope), depth - 1, 3) if s.bool(0.6) else None
                out.append(["if", c, a, b, s.bool(0.6), s.bool(0.6)])
            elif k == "while":
                w = self.name()
                inner = list(scope)
                sc2 = scope + [(w, "int", None)]
                body = self.block(sc2, depth - 1, 3)
                step = ["set", w, "+=", ["i", 1]]
                body = [step] + body if s.bool(0.4) else body + [step]
                # the statements of later iterations see other values
                for nm, ty, n in s.sample(inner, min(len(inner), s.int(0, 2))):
                    body.insert(s.int(0, len(body)), ["set", nm, "+=", {"I": ["i", 1], "F": ["f", "0.5"], "S": ["s", b"a"]}[FT[ty]]])
                lim = ["cmp", "<", ["v", "@" + w], ["i", s.weighted([(4, 2), (2, 3), (1, 1), (1, 0)])]]
                if s.bool(0.2):
                    lim = ["and", lim, self.cond(scope)]
                out.append(["decl", [[w, "int", None, ["i", 0]]]])
                out.append(["while", lim, body])
            else:
                out.append(["block", self.block(list(scope), depth - 1, 3)])
        return out

    def query(self, scope):
        """a statement over the tables, some of its literals replaced by variables declared before it"""
        s = self.src
        self.used = True
        case = self.case
        if self.k == "change":
            if s.bool(0.6):
                q = copy.deepcopy(case["q"])
                decl = []
                self.vary(q, scope, decl)
                return ["with", decl, ["chg", q]]
            t = self.ts[0] if s.bool(0.7) else s.choice(self.ts)
            q = {"cols": [[["*"], None]] if len(t.cols) > 1 else [[["c", None, t.cols[0][0], t.cols[0][1]], None], [["i", 7], "seven"]], "from": ["t", t.name, None]}
            if s.bool(0.4):
                q["where"] = S.G(s, [(None, c, k) for c, k in t.cols], depth=1, nulls=True).cond(1)
        else:
            q = copy.deepcopy(case["q"])
        cols = []
        if len(q["cols"]) < 2 and not grouped(q) and not q.get("union") and not q.get("distinct") and q["cols"][0][0] != ["*"]:
            q["cols"] = q["cols"] + [[["i", 7], "seven"]]
        decl = []
        self.vary(q, scope, decl)
        return ["with", decl, ["sel", q, False]]

    def vary(self, q, scope, decl):
        s = self.src
        p = s.choice([0.0, 0.3, 0.8])
        if not p:
            return

        def var(ty, n, lit):
            if not s.bool(p):
                return None
            have = [d for d in decl if d[1] == ty and d[3] == lit]
            if have and s.bool(0.5):
                return ["v", "@" + have[0][0]]
            same = [x for x in scope if FT[x[1]] == FT[ty] and x[1] != "char"]
            if same and s.bool(0.25):
                return ["v", "@" + s.choice(same)[0]]
            nm = self.name()
            decl.append([nm, ty, n, lit])
            return ["v", "@" + nm]

        def lit(e):
            if e[0] == "i" and e[1] >= 0:
                return var("int", None, e)
            if e[0] == "f":
                return var("float", None, e)
            if e[0] == "s":
                return var("varchar", 200, e)

        def ex(e):
            if not isinstance(e, list) or not e:
                return e
            r = lit(e) if isinstance(e[0], str) else None
            if r:
                return r
            if e[0] in ("ss", "insub"):
                e = list(e)
                if e[0] == "insub":
                    e[2] = ex(e[2])
                sel(e[-1])
                return e
            if e[0] == "cast":
                return ["cast", ex(e[1])] + e[2:]
            if e[0] == "like":
                p2 = var("varchar", 200, ["s", e[3]]) if isinstance(e[3], bytes) else None
                return ["like", e[1], ex(e[2]), p2 or e[3]]
            return [ex(y) if isinstance(y, list) else y for y in e]

        def sel(q):
            if q.get("cols") is not None and not grouped(q):
                q["cols"] = [[ex(e), a] for e, a in q["cols"]]
            if q.get("set"):
                q["set"] = [[c, ex(e)] for c, e in q["set"]]
            if q.get("where") is not None:
                q["where"] = ex(q["where"])
            for i, j in enumerate(q.get("joins") or []):
                q["joins"][i] = [j[0], j[1], ex(j[2])] if j[2] is not None else j
            for x in [q.get("from")] + [j[1] for j in q.get("joins") or []]:
                if x and x[0] == "q":
                    sel(x[1])
            for u in q.get("union") or []:
                sel(u)
        sel(q)

    # ------------------------------------------------------------ text
    def text(self, body, sep):
        return sep.join(self.stmt(b, sep) for b in body)

    def blk(self, body, wrap, sep):
        simple = len(body) == 1 and body[0][0] in ("set", "sel", "decl")
        if simple and not wrap:
            return self.stmt(body[0], sep)
        return b"begin " + self.text(body, sep) + b" end"

    def ty(self, d):
        return d[1].encode() + (b"(%d)" % d[2] if d[2] is not None else b"")

    def stmt(self, b, sep):
        k = b[0]
        if k == "decl":
            return b"declare " + b", ".join(b"@" + d[0].encode() + b" " + self.ty(d) + (b" = " + M.r_expr(d[3]) if d[3] is not None else b"") for d in b[1])
        if k == "set":
            return b"set @" + b[1].encode() + b" " + b[2].encode() + b" " + M.r_expr(b[3], b[2] == "=")
        if k == "sel":
            return M.r_select(b[1])
        if k == "chg":
            return M.r_change(b[1])
        if k == "with":
            return (b"declare " + b", ".join(b"@" + d[0].encode() + b" " + self.ty(d) + b" = " + M.r_expr(d[3]) for d in b[1]) + sep if b[1] else b"") + self.stmt(b[2], sep)
        if k == "if":
            t = b"if " + M.r_cond(b[1]) + b" " + self.blk(b[2], b[4], sep)
            if b[3] is not None:
                t += b" else " + self.blk(b[3], b[5], sep)
            return t
        if k == "while":
            return b"while " + M.r_cond(b[1]) + b" begin " + self.text(b[2], sep) + b" end"
        return b"begin " + self.text(b[1], sep) + b" end"

    # ------------------------------------------------------------ the interpreter
    def interp(self, case, db):
        out = []            # ("sel", names, rows, ordered) / ("chg", table, rows, n)
        stat = {"branch": 0, "loop": 0}
        trace = self.trace = []     # the queries in the order of their execution: [operation, columns, typed rows, ordered]
        sc = M.Scope(db)

        class Stop(Exception):
            pass

        def setv(nm, ty, n, v):
            db.vars["@" + nm] = (FT[ty], assign(ty, n, v))
            types[nm] = (ty, n)

        types = {}
        for nm, ty, n, v in case["imports"]:
            setv(nm, ty or "text", n, v)

        def const(x):
            if db.const_error(x):
                raise Discard

        def run(body):
            for b in body:
                self.steps += 1
                if self.steps > 400:
                    raise Discard
                k = b[0]
                if k in ("decl", "with"):
                    for nm, ty, n, e in b[1]:
                        trace.append(["SET"])
                        db.vars.setdefault("@" + nm, (FT[ty], None))
                        setv(nm, ty, n, db.ev(e, sc, {}) if e is not None else None)
                    if k == "with":
                        run([b[2]])
                elif k == "set":
                    trace.append(["SET"])
                    ty, n = types[b[1]]
                    e = b[3] if b[2] == "=" else ["b", b[2][:-1], ["v", "@" + b[1]], b[3]]
                    setv(b[1], ty, n, db.ev(e, sc, {}))
                elif k == "sel":
                    q = b[1]
                    names = C.col_names(q, db)
                    trace.append(["SELECT", names])
                    ty, rows, okeys = db.select(q)
                    if q.get("top") is not None and (q.get("joins") or grouped(q)):
                        raise Discard
                    seq = not (q.get("joins") or grouped(q) or q.get("distinct") or q.get("order") or q.get("union") or not q.get("from"))
                    out.append(("sel", names, [C.trow(C.text_row(r)) for r in rows], seq, len(rows)))
                    trace[-1] += [rows, seq]
                elif k == "chg":
                    q = b[1]
                    trace.append(["UPDATE" if q.get("set") is not None else "DELETE"])
                    res = db.change(q)
                    nm = q["from"][1]
                    if db.may_fail or any(a is not None and len({repr(C.text_row(x)) for x in a}) > 1 for a in res):
                        raise Discard
                    hdr, rows = db.t[nm]
                    n = sum(1 for r0, w in zip(rows, res) if w is None or not (len(w) == 1 and w[0] is r0))
                    db.t[nm] = (hdr, [w[0] for w in res if w is not None])
                    if not (q.get("set") is not None or q.get("where") is not None or q.get("joins")):
                        n = None
                    out.append(("chg", nm, None, None, n))
                elif k == "if":
                    stat["branch"] += 1
                    trace.append(["IF"])
                    run(b[2] if db.cond(b[1], sc, {}) else b[3] or [])
                elif k == "while":
                    trace.append(["WHILE"])
                    while db.cond(b[1], sc, {}):
                        stat["loop"] += 1
                        run(b[2])
                        trace.append(["WHILE"])
                        self.steps += 1
                        if self.steps > 400:
                            raise Discard
                else:
                    run(b[1])

        self.steps = 0
        ok = True
        self.declare_all(case["body"], db)
        const(case["body"])
        try:
            run(case["body"])
        except M.OutOfModel:
            raise Discard
        except M.QueryError as e:
            ok = False
        return out, ok, stat

    def declare_all(self, body, db):
        """types of all variables, for the static parts of the model"""
        for b in body:
            if b[0] in ("decl", "with"):
                for nm, ty, n, e in b[1]:
                    db.vars.setdefault("@" + nm, (FT[ty], None))
            for x in b[1:]:
                if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str):
                    self.declare_all([y for y in x if isinstance(y, list) and y and isinstance(y[0], str)], db)

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        db = S.db_of(ts, vars={})
        db.t = {k: (h, [list(r) for r in rows]) for k, (h, rows) in db.t.items()}
        for t in ts:
            if t.delim != b",":
                raise Discard
        out, ok, stat = self.interp(case, db)
        sql = self.text(case["body"], case["sep"])
        head = b"".join(b"declare @" + n.encode() + b" " + self.ty([n, ty, k]) + b";\n" for n, ty, k, v in case["imports"] if ty)
        sql = head + sql
        files = S.files_of(ts)
        ctx.box.fresh(files)
        args = C.opts_args(case["opts"])
        for n, ty, k, v in case["imports"]:
            args += ["-D", n.encode() + b"=" + v]
        r = ctx.eng.cli(ctx.box.dir, args + ["-c", sql])
        ctxs = "program: %s\nfiles: %r\narguments: %r" % (show(sql), files, args)
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), ctxs))
        if ok and r.rc != 0:
            raise Fail("failed: %s\n%s" % (r.msg()[-300:], ctxs))
        if not ok and r.rc == 0:
            raise Fail("the program succeeded where one of its expressions has no value\n%s\noutput: %r" % (ctxs, r.out[-500:]))
        self.output(r.out, [o for o in out if o[0] == "sel"], ctxs, ok)
        a = affected(r.msg())
        want = [o[4] for o in out]
        if ok and (len(a) != len(want) or any(w is not None and w != x for w, x in zip(want, a))):
            raise Fail("%r rows reported, expected %r\n%s" % (a, want, ctxs))
        ls = ctx.box.listing()
        chg = {o[1] for o in out if o[0] == "chg"}
        for t in ts:
            if t.file not in ls:
                raise Fail("%s is gone\n%s" % (t.file, ctxs))
            if t.name not in chg:
                if ls[t.file] != files[t.file]:
                    raise Fail("%s became %r\n%s" % (t.file, ls[t.file], ctxs))
                continue
            recs = M.parse_csv(ls[t.file], t.delim)
            n = len(t.cols)
            pad = lambda x: C.trow([b"" if v is None else v for v in x] + [b""] * (n - len(x)))
            w = [tuple(c.encode() for c in t.header())] + [pad(x) for x in db.t[t.name][1]]
            g = [pad(x) for x in recs]
            if g != w:
                raise Fail("%s became %r, expected %r\n%s" % (t.file, g[:12], w[:12], ctxs))
        for k in ls:
            if k not in files:
                raise Fail("the file %r was left behind\n%s" % (k, ctxs))
        return {"nontrivial": bool((stat["branch"] or stat["loop"]) and len(out) > 1),
                "tags": (["fails"] if not ok else []) + (["loop"] if stat["loop"] > 1 else []) + (["branch"] if stat["branch"] else []) + (["change"] if chg else [])}

    def output(self, data, want, ctxs, ok):
        try:
            recs = M.parse_csv(data, b",")
        except ValueError as e:
            raise Fail("%s\noutput: %r\n%s" % (e, data[:600], ctxs))
        i = 0
        for j, (_, names, rows, ordered, _n) in enumerate(want):
            where = "statement with output no. %d" % (j + 1)
            h = recs[i] if i < len(recs) else None
            if h is None or len(h) != len(names) or any(n is not None and n.encode() != x for n, x in zip(names, h)):
                raise Fail("%s: the header is %r, expected %r\n%s\noutput: %r" % (where, h, names, ctxs, data[:1500]))
            got = [C.trow(x) for x in recs[i + 1:i + 1 + len(rows)]]
            got = [tuple(x) for x in got]
            exp = [tuple(x) for x in rows]
            if len(names) == 1:
                got = [x if x else (b"",) for x in got]
            if (got != exp) if ordered else (sorted(got) != sorted(exp)):
                raise Fail("%s printed %r, expected %r\n%s\noutput: %r" % (where, got[:12], exp[:12], ctxs, data[:1500]))
            i += 1 + len(rows)
        if ok and i != len(recs):
            raise Fail("more was printed: %r\n%s" % (recs[i:i + 10], ctxs))

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        return {"program": show(self.text(case["body"], case["sep"])), "imports": [[show(y) for y in x] for x in case["imports"]],
                "files": {k: v.decode("utf8", "backslashreplace") for k, v in S.files_of(ts).items()}, "opts": {k: show(v) for k, v in case["opts"].items()}}


PROPS = [Flow]
