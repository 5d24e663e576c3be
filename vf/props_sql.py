"""Query semantics against the reference model."""
from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from .pbt import Discard, Fail
from .sqlcheck import SqlProp, expect


def _src(t, alias=None):
    return ["t", t.name, alias]


# ------------------------------------------------------------------ single table
class Scan(SqlProp):
    """SELECT list / WHERE over one table"""
    id = "S01"
    ordered = True
    rule = "the query returned at least one row and, if it filters, dropped at least one"

    def gen(self, src):
        nulls = src.bool(0.25)
        t = S.g_table(src, 1, ragged=0.25 if nulls else 0, max_rows=src.choice([6, 12, 60, 60]))
        alias = src.choice([None, None, "x"])
        vis = S.vis_of([t], src.bool(), [alias or "t1"])
        g = S.G(src, vis, nulls=nulls, depth=1, fns=False)
        q = {"cols": [], "from": _src(t, alias)}
        if src.bool(0.15) and not nulls:
            q["cols"] = [[["*"], None]]
        else:
            for i in range(src.int(1, 4)):
                e = g.col(("txt", "key", "int", "flt")) if src.bool(0.6) else g.any()
                q["cols"].append([e, "c%d" % i if src.bool(0.3) else None])
        if src.bool(0.8):
            q["where"] = g.cond()
        if src.bool(0.15):
            q["top"] = src.int(0, 5)
        return {"tables": [t.dump()], "q": q, "view": C.g_view(src), "opts": C.g_opts(src)}

    def info(self, case, types, rows, ts):
        q = case["q"]
        n = len(ts[0].rows)
        tags = [case["view"]] + [k for k in ("where", "top") if k in q]
        return {"nontrivial": 0 < len(rows) and (q.get("where") is None or len(rows) < n), "tags": tags}


class Cond(SqlProp):
    """deep boolean conditions: NOT, AND, OR, brackets, IN, LIKE, IS NULL, IN (subquery)"""
    id = "S02"
    ordered = True
    rule = "the condition has at least three predicates or a negation, and splits the rows"
    views = ["api", "cli"]

    def gen(self, src):
        nulls = src.bool(0.2)
        kinds = [src.weighted([(3, "txt"), (3, "int"), (2, "key"), (1, "flt")]) for _ in range(src.int(2, 4))]
        t = S.g_table(src, 1, kinds=kinds, ragged=0.25 if nulls else 0, max_rows=src.choice([14, 14, 14, 60]), min_rows=4)
        t2 = S.g_table(src, 2, max_rows=5, min_rows=1)
        vis = S.vis_of([t], src.bool(), ["t1"])
        g = S.G(src, vis, nulls=nulls, depth=src.int(1, 4), tables=[t, t2], subq=True, fns=False)
        g.pool = t
        q = {"cols": [[["c", None, t.cols[0][0], ""], None]], "from": _src(t), "where": g.cond()}
        if len(t.cols) > 1:
            q["cols"].append([["c", None, t.cols[1][0], ""], None])
        for _ in range(4):          # prefer conditions that split the rows
            try:
                if 0 < len(S.db_of([t, t2]).select(q)[1]) < len(t.rows):
                    break
            except (M.QueryError, M.OutOfModel):
                pass
            q["where"] = g.cond()
        return {"tables": [t.dump(), t2.dump()], "q": q, "view": src.choice(self.views), "opts": C.g_opts(src)}

    def info(self, case, types, rows, ts):
        s = str(case["q"]["where"])
        n = len(ts[0].rows)
        npred = sum(s.count("'%s'" % k) for k in ("cmp", "like", "in", "insub", "isnull"))
        tags = [k for k in ("not", "and", "or", "like", "in", "insub", "isnull") if "'%s'" % k in s]
        return {"nontrivial": (npred >= 3 or "'not'" in s) and 0 < len(rows) < n, "tags": tags}


class Like(SqlProp):
    """LIKE against a reference matcher"""
    id = "S03"
    ordered = True
    rule = "the pattern has a wildcard or set and matches some but not all values"
    ALPHA = [b"a", b"b", b"A", b"B", b"c", b"z", b"1", b"5", b".", b"*", b"+", b"(", b")", b"|", b"\\", b"$", b"^", b"?", b"{", b"}", b"%", b"_", b"-", b" ", b"]", b"/", b"#", b"\n"]

    def gen(self, src):
        n = src.int(3, 12)
        al = src.sample(self.ALPHA, src.int(2, 6))
        vals = [b"".join(src.choice(al) for _ in range(src.count(0, 7, 0.8))) for _ in range(n)]
        t = S.Table("t1", "t1.csv", b",", [("id", "int"), ("v", "txt")], [[b"%d" % i, v] for i, v in enumerate(vals)])
        def g_pat():
            pat = b""
            for _ in range(src.count(1, 6, 0.75)):
                k = src.weighted([(4, "lit"), (3, "%"), (2, "_"), (2, "set")])
                if k == "lit":
                    c = src.choice(al)
                    pat += c if c not in (b"%", b"_", b"]") else b"a"
                elif k == "set":
                    body = b"^" if src.bool(0.3) else b""
                    for _ in range(src.int(1, 3)):
                        r = src.choice([b"a-c", b"0-9", b"x-z", None, None, None])
                        if r is None:
                            c = src.choice([x for x in al if x not in (b"]", b"^", b"-", b"\\")] or [b"a"])
                            body += c
                        else:
                            body += r
                    pat += b"[" + body + b"]"
                else:
                    pat += k.encode()
            return pat
        pat = g_pat()
        p = ["s", pat] if src.bool(0.75) else None
        q = {"cols": [[["c", None, "id", ""], None], [["c", None, "v", ""], None]], "from": _src(t)}
        neg = src.bool(0.25)
        if p is None:
            # a pattern computed per row
            t.cols.append(("p", "txt"))
            pats = [pat, b"%", pat + b"%", b"_%", g_pat(), g_pat()]
            for r in t.rows:
                r.append(src.choice(pats))
            q["where"] = ["like", neg, ["c", None, "v", ""], ["c", None, "p", ""]]
        else:
            q["where"] = ["like", neg, ["c", None, "v", ""], pat]
        return {"tables": [t.dump()], "q": q, "view": src.choice(["api", "cli"]), "opts": C.g_opts(src)}

    def info(self, case, types, rows, ts):
        p = str(case["q"]["where"])
        return {"nontrivial": any(x in p for x in "%_[") and 0 < len(rows) < len(ts[0].rows),
                "tags": (["set"] if "[" in p[2:-1] else []) + (["column-pattern"] if "'p'" in p else [])}


def must_fail(ctx, case):
    """None if the model gives an answer; otherwise checks that the engine gives none"""
    ts = [S.Table.load(d) for d in case["tables"]]
    q = case["q"]
    try:
        S.db_of(ts).select(q)
        return None
    except M.QueryError as e:
        files = S.files_of(ts)
        sql = M.r_select(q)
        view = case["view"]
        o = C.run(ctx, files, sql, view, case.get("opts"), into_sql=M.r_select(q, into="out.csv") if view == "into" else None)
        if not o.failed:
            raise Fail("the query gave %r, it has to fail (%s)\nquery: %s\nfiles: %r" % ((o.rows or [])[:4], e, C.show(sql), files))
        return {"nontrivial": True, "tags": ["must-fail", "fail:" + str(e)[:12], view]}
    except M.OutOfModel:
        raise Discard


class Exprs(SqlProp):
    """arithmetic, concatenation, CASE and conversions"""
    id = "S04"
    ordered = True
    rule = "an expression with at least two operators was evaluated on at least one row"

    def gen(self, src):
        nulls = src.bool(0.2)
        kinds = [src.choice(["int", "flt", "txt", "int"]) for _ in range(src.int(1, 4))]
        t = S.g_table(src, 1, kinds=kinds, ragged=0.25 if nulls else 0, max_rows=6, min_rows=1)
        vis = S.vis_of([t], src.bool(), ["t1"])
        g = S.G(src, vis, nulls=nulls, depth=4, fns=False)
        if src.bool(0.35):
            g.risky = True
            for r in t.rows:
                for i in range(len(r)):
                    if kinds[i] == "int" and src.bool(0.3):
                        r[i] = b"%d" % src.choice(S.BIG)
            cols = [[g.int(src.int(1, 3)), None]]
        else:
            cols = [[g.any(), "c%d" % i if src.bool(0.3) else None] for i in range(src.int(1, 3))]
        q = {"cols": cols, "from": _src(t)}
        return {"tables": [t.dump()], "q": q, "view": C.g_view(src), "opts": C.g_opts(src)}

    def run(self, ctx, case):
        r = must_fail(ctx, case)
        if r:
            return r
        return super().run(ctx, case)

    def info(self, case, types, rows, ts):
        s = str(case["q"]["cols"])
        n = s.count("'b'") + s.count("'u'") + s.count("'case'") + s.count("'cast'")
        return {"nontrivial": n >= 2 and bool(rows), "tags": ["type" + t for t in set(types)] + [k for k in ("case", "cast") if "'%s'" % k in s]}


class Funcs(SqlProp):
    """scalar functions over UTF-8 or byte strings"""
    id = "S05"
    ordered = True
    rule = "a function was applied to a non-empty value, or to one with multi-byte characters"
    CH = ["a", "b", "A", "é", "日", "😀", " ", "\t", "z", "%", "ß"]

    def gen(self, src):
        rows = []
        for _ in range(src.int(1, 6)):
            v = "".join(src.choice(self.CH) for _ in range(src.count(0, 9, 0.85))).encode()
            w = "".join(src.choice(self.CH[:5]) for _ in range(src.count(0, 3))).encode()
            rows.append([v, b"%d" % src.choice([0, 1, 2, 3, 5, 40]), w])
        t = S.Table("t1", "t1.csv", b",", [("v", "txt"), ("n", "int"), ("w", "txt")], rows)
        v, n, w = [["c", None, x, ""] for x in "vnw"]

        def strarg():
            return src.weighted([(5, v), (2, w), (1, ["s", "".join(src.choice(self.CH[:8]) for _ in range(src.count(0, 5))).encode()]),
                                 (1, ["b", "+", v, w])])

        def num(neg=False):
            return src.weighted([(3, ["i", src.int(0, 12)]), (2, n), (1, ["b", "+", n, ["i", 1]]), (1 if neg else 0, ["i", -src.int(0, 3)])])

        def call():
            f = src.choice(["LEN", "DATALENGTH", "LEFT", "RIGHT", "SUBSTRING", "REPLACE", "ISNULL", "cast"])
            if f in ("LEN", "DATALENGTH"):
                return ["fn", f, [strarg()]]
            if f in ("LEFT", "RIGHT"):
                return ["fn", f, [strarg(), num()]]
            if f == "SUBSTRING":
                return ["fn", f, [strarg(), num(True), num()]]
            if f == "REPLACE":
                nd = src.weighted([(2, w), (2, ["s", src.choice([b"a", b"A", b"b", "é".encode(), b" ", b"ab", b"aa", b"ba"])])])
                return ["fn", f, [strarg(), nd, strarg()]]
            if f == "ISNULL":
                return ["fn", f, [src.choice([v, ["null"], ["case", [[["cmp", "=", v, w], w]], None]]), strarg()]]
            return ["cast", strarg(), src.choice(["varchar", "char"]), src.choice([1, 2, 3, 10])]
        q = {"cols": [[call(), None] for _ in range(src.int(1, 3))], "from": _src(t)}
        if src.bool(0.2):
            q["cols"][0][0] = ["fn", "LEFT", [q["cols"][0][0], ["i", src.int(0, 9)]]]
        opts = C.g_opts(src)
        if src.bool(0.35):
            opts["char_as_byte"] = 1
        return {"tables": [t.dump()], "q": q, "view": src.choice(["api", "cli"]), "opts": opts}

    def info(self, case, types, rows, ts):
        fs = [e[0][1] if e[0][0] == "fn" else e[0][0] for e in case["q"]["cols"]]
        multi = any(not v.isascii() for r in ts[0].rows for v in r)
        return {"nontrivial": any(v for r in rows for v in r) or multi,
                "tags": fs + (["multibyte"] if multi else []) + (["bytes"] if self.cab(case) else [])}


# ------------------------------------------------------------------ grouping, ordering
def g_aggs(src, t, vis, g, n):
    out = []
    for _ in range(n):
        a = src.choice(["count", "COUNT", "sum", "min", "max", "avg"])
        if a.lower() == "count":
            out.append(["agg", a, None if src.bool(0.6) else ["c", vis[0][0], vis[0][1], ""]])
        elif a in ("min", "max") and src.bool(0.4):
            out.append(["agg", a, g.col(("txt", "key", "int", "flt"))])
        else:
            out.append(["agg", a, g.int(1) if src.bool(0.6) else g.flt(1)])
    return out


class Group(SqlProp):
    """GROUP BY / aggregates / HAVING / DISTINCT"""
    id = "S06"
    rule = "some group has at least two rows and there are at least two groups"

    def gen(self, src):
        kinds = [src.choice(["key", "int", "txt", "flt", "key"]) for _ in range(src.int(2, 4))]
        nulls = src.bool(0.2)
        t = S.g_table(src, 1, kinds=kinds, max_rows=src.choice([8, 20, 120]), min_rows=1, ragged=0.3 if nulls else 0)
        vis = S.vis_of([t], src.bool(), ["t1"])
        g = S.G(src, vis, depth=1, fns=False, nulls=nulls)
        mode = src.weighted([(5, "group"), (2, "distinct"), (2, "total")])
        q = {"from": _src(t)}
        if mode == "distinct":
            q["distinct"] = True
            q["cols"] = [[g.col(("key", "txt", "int", "flt")) if src.bool(0.7) else g.int(1), None] for _ in range(src.int(1, 3))]
        elif mode == "total":
            q["cols"] = [[a, None] for a in g_aggs(src, t, vis, g, src.int(1, 3))]
        else:
            ks = src.sample(vis, src.int(1, min(2, len(vis))))
            q["group"] = [["c", v[0], v[1], v[2]] for v in ks]
            aggs = g_aggs(src, t, vis, g, src.int(0, 3))
            q["cols"] = [[e, None] for e in q["group"]] + [[a, None] for a in aggs]
            q["cols"] = src.shuffle(q["cols"])
            if src.bool(0.4):
                ag = src.choice([["agg", "count", None], ["agg", "sum", g.int(1)], ["agg", "min", g.int(1)]])
                c = ["cmp", src.choice(["=", ">", "<", ">=", "<>"]), ag, ["i", src.choice([0, 1, 2, 3])]]
                if src.bool(0.3):
                    c = ["not", c]
                q["having"] = c
        if src.bool(0.4):
            q["where"] = g.cond(1)
        return {"tables": [t.dump()], "q": q, "view": C.g_view(src), "opts": C.g_opts(src)}

    def judge(self, case, o, types, rows, okeys, sql, files, names):
        # a group's key may be any of its members' spellings; compare keys folded
        q = case["q"]
        if o.failed:
            raise Fail("the query failed (%r: %s)\nquery: %s\nfiles: %r" % (o.rc, o.msg[-300:], C.show(sql), files))

        def f(r):
            out = []
            for v in r:
                out.append(M.fold(v) if isinstance(v, bytes) else v)
            return out
        o.rows = [f(r) for r in o.rows]
        rows2 = [f(r) for r in (rows if o.typed else [C.text_row(r) for r in rows])]
        if o.typed:
            g = [C.nrow(r, True) for r in o.rows]
            w = [C.nrow(r, True) for r in rows2]
        else:
            g = [tuple(_num6(v) for v in C.trow(r)) for r in o.rows]
            w = [tuple(_num6(v) for v in C.trow(r)) for r in rows2]
        if sorted(g) != sorted(w):
            a, b = C.diff(g, w)
            raise Fail("groups differ from the reference: %d, expected %d\n unexpected: %r\n missing: %r\nquery: %s\nfiles: %r" % (
                len(g), len(w), a[:5], b[:5], C.show(sql), files))

    def info(self, case, types, rows, ts):
        q = case["q"]
        tags = [k for k in ("group", "having", "distinct", "where") if q.get(k)] + [case["view"]]
        return {"nontrivial": len(rows) >= (1 if not (q.get("group") or q.get("distinct")) else 2) and len(ts[0].rows) > max(1, len(rows)), "tags": tags}


def _num6(v):
    return v


def _has_col(e):
    return isinstance(e, list) and bool(e) and (e[0] == "c" or any(_has_col(x) for x in e[1:]))


class Order(SqlProp):
    """ORDER BY: a permutation, sorted by every key; TOP takes a prefix"""
    id = "S07"
    rule = "at least three rows, with a duplicate in the first key or a descending key"

    def gen(self, src):
        kinds = [src.choice(["key", "int", "txt", "flt", "int"]) for _ in range(src.int(1, 4))]
        t = S.g_table(src, 1, kinds=kinds, max_rows=src.choice([6, 15, 80]), min_rows=2)
        vis = S.vis_of([t], src.bool(), ["t1"])
        g = S.G(src, vis, depth=1, fns=False)
        q = {"from": _src(t), "cols": [], "order": []}
        for i in range(src.int(1, 3)):
            e = g.col(("txt", "key", "int", "flt")) if src.bool(0.6) else g.any(1)
            q["cols"].append([e, None])
        for _ in range(src.int(1, 3)):
            k = src.weighted([(4, "col"), (3, "num"), (1, "sel")])
            if k == "sel":
                e = src.choice(q["cols"])[0]
            elif k == "num":
                e = g.int(1) if src.bool() else g.flt(1)
            else:
                e = g.col(("txt", "key", "int", "flt"))
            if not _has_col(e):
                e = g.col(("txt", "key", "int", "flt"))
            q["order"].append([e, src.bool(0.4)])
        # the same column twice in the select list makes a key by its name ambiguous
        seen = set()
        for c in q["cols"]:
            if c[0][0] == "c":
                if c[0][2].lower() in seen:
                    c[0] = ["b", "+", ["s", b""], c[0]]
                seen.add(c[0][2].lower()) if c[0][0] == "c" else None
        if src.bool(0.15):
            q["order"][0] = [["i", src.int(1, len(q["cols"]))], src.bool(0.4)]
        for i, c in enumerate(q["cols"]):
            if src.bool(0.4):
                c[1] = "al%d" % i if src.bool(0.7) else "AL%d" % i
                if src.bool(0.5) and _has_col(c[0]):
                    o = src.choice(q["order"])
                    if o[0][0] != "i":
                        o[0] = ["al", i, src.choice([c[1], c[1].lower()])]
        if src.bool(0.12):
            # an alias that hides a column, which is ordered by with its table's name
            n, k = src.choice(t.cols)
            c = src.choice(q["cols"])
            if not any(a and a.lower() == n.lower() or e[0] == "c" and e[2].lower() == n.lower() for e, a in q["cols"] if e is not c[0]):
                if src.bool(0.5):
                    c[0] = g.int(1) if src.bool() else ["b", "+", ["s", b"q"], g.col(("txt", "key", "int", "flt"))]
                for o in q["order"]:
                    if o[0][0] == "al":
                        o[0] = ["i", o[0][1] + 1]
                c[1] = n
                for o in q["order"]:
                    if o[0][0] == "c" and o[0][1] is None and o[0][2].lower() == n.lower():
                        o[0] = ["c", q["from"][2] or t.name] + o[0][2:]
                if src.bool(0.6) or not q["order"]:
                    q["order"].insert(src.below(len(q["order"]) + 1), [["c", q["from"][2] or t.name, n, k], src.bool(0.4)])
        if src.bool(0.3):
            q["where"] = g.cond(1)
        top = src.int(0, 6) if src.bool(0.25) else None
        return {"tables": [t.dump()], "q": q, "top": top, "view": C.g_view(src), "opts": C.g_opts(src)}

    def run(self, ctx, case):
        ts, db, (types, rows, okeys) = C.model_eval(case, sort=False)
        q = dict(case["q"])
        files = S.files_of(ts)
        if case.get("top") is not None:
            q["top"] = case["top"]
        sql = M.r_select(q)
        view = case["view"]
        names = C.col_names(q, db)
        if view not in ("api", "apistep") and len(names) == 1 and any(r[0] in (None, b"") for r in rows):
            view = "api"
        o = C.run(ctx, files, sql, view, case.get("opts"), into_sql=M.r_select(q, into="out.csv"), out_delim=self.out_delim(case, ts, view))
        ctxs = "query: %s\nfiles: %r" % (C.show(sql), files)
        if o.failed:
            raise Fail("the query failed (%r: %s)\n%s" % (o.rc, o.msg[-300:], ctxs))
        got = [C.nrow(r) for r in o.rows] if o.typed else [C.trow(r) for r in o.rows]
        want = [C.nrow(r) for r in rows] if o.typed else [C.trow(C.text_row(r)) for r in rows]
        keyrows = [[M.key(v) for v in ks] for ks in okeys]
        order = list(range(len(rows)))
        for i in reversed(range(len(q["order"]))):
            order.sort(key=lambda r: _ok(keyrows[r][i]), reverse=bool(q["order"][i][1]))
        # tie classes in sorted order
        classes = []
        for r in order:
            k = [_ok(v) for v in keyrows[r]]
            if classes and classes[-1][0] == k:
                classes[-1][1].append(r)
            else:
                classes.append((k, [r]))
        limit = len(rows) if case.get("top") is None else min(case["top"], len(rows))
        if len(got) != limit:
            raise Fail("%d rows, expected %d\n got: %r\n%s" % (len(got), limit, got[:10], ctxs))
        pos = 0
        for k, cl in classes:
            take = got[pos:pos + len(cl)]
            avail = [want[r] for r in cl]
            for x in take:
                if x not in avail:
                    raise Fail("row %r is out of order (position %d); the reference has there one of %r\n got: %r\n%s" % (x, pos, avail[:4], got[:12], ctxs))
                avail.remove(x)
            pos += len(cl)
            if pos >= limit:
                break
        multi = any(len(c[1]) > 1 for c in classes)
        return {"nontrivial": len(rows) >= 3 and (multi or any(d for _, d in q["order"])),
                "tags": [view] + ["keys%d" % len(q["order"])] + (["top"] if "top" in q else [])}


def _ok(v):
    return (0, v) if v is not None else (-1, 0)


# ------------------------------------------------------------------ several sources
class Union(SqlProp):
    """UNION ALL: all rows of each part, in order of parts"""
    id = "S08"
    ordered = True
    approx = True
    mix = True         # branches of different types
    rule = "at least two parts contributed a row"

    def gen(self, src):
        n = src.int(2, 4)
        w = src.int(1, 3)
        types = [src.choice("SSIF") for _ in range(w)]
        tabs, parts = [], []
        for i in range(n):
            star = self.mix and types.count("S") == w and src.bool(0.25)
            if src.bool(0.8) or star:
                t = S.g_table(src, i + 1, kinds=[src.choice(["txt", "key", "int", "flt"]) for _ in range(w)] if star else None, max_rows=src.choice([6, 6, 6, 60]))
                tabs.append(t)
                vis = S.vis_of([t], src.bool(), [t.name])
                frm = _src(t)
            else:
                t, vis, frm = None, [], None
            g = S.G(src, vis, depth=1, fns=False)
            mine = [src.choice("IF") if self.mix and k != "S" and src.bool(0.25) else k for k in types]
            g.fns = self.mix and src.bool(0.3)
            cols = [[{"S": g.str, "I": g.int, "F": g.flt}[k](), "n%d" % j if i == 0 else None] for j, k in enumerate(mine)]
            if star:
                cols = [[["*"], None]]
            g.fns = False
            p = {"cols": cols}
            if frm:
                p["from"] = frm
                if src.bool(0.2) and not star:
                    def one(k):
                        if k == "I":
                            return src.choice([["agg", "count", None], ["agg", "sum", g.int(1)], ["agg", "max", g.int(1)]])
                        if k == "F":
                            return ["agg", src.choice(["sum", "min", "avg"]), g.flt(1)]
                        return ["c"] + list(gk)
                    gk = src.choice(vis)
                    p["cols"] = [[one(k), "n%d" % j if i == 0 else None] for j, k in enumerate(mine)]
                    if any(_is_agg(c[0]) for c in p["cols"]) or src.bool():
                        p["group"] = [["c"] + list(gk)]
                    if p.get("group") and src.bool(0.4):
                        p["having"] = ["cmp", src.choice(["=", ">", "<="]), ["agg", "count", None], ["i", src.int(0, 3)]]
                if src.bool(0.4):
                    p["where"] = g.cond(1)
                if src.bool(0.25):
                    p["top"] = src.int(0, 4)
            parts.append(p)
        q = dict(parts[0])
        q["union"] = parts[1:]
        if src.bool(0.3):
            names = list(tabs[0].header()) if q["cols"][0][0] == ["*"] else [a for _, a in q["cols"]]
            names = [n.decode() if isinstance(n, bytes) else n for n in names]
            q["order"] = [[["i", j + 1] if src.bool(0.4) else ["al", j, names[j]], src.bool(0.4)]
                          for j in [src.below(w) for _ in range(src.int(1, 3))]]
        return {"tables": [t.dump() for t in tabs], "q": q, "view": C.g_view(src), "opts": C.g_opts(src)}

    def judge(self, case, o, types, rows, okeys, sql, files, names):
        q = case["q"]
        db = S.db_of([S.Table.load(d) for d in case["tables"]])
        each = [db.select({k: v for k, v in b.items() if k not in ("union", "order")})[0] for b in [q] + q["union"]]
        loose = [j for j, t in enumerate(types) if t == "F" and any(e[j] != "F" for e in each)]
        if not okeys and (o.typed or not loose):
            return expect(o, types, rows, sql, files, True, names, approx=True)
        ctxs = "query: %s\nfiles: %r" % (C.show(sql), files)
        if o.failed:
            raise Fail("the query failed (%r: %s) where the reference gives %d rows\n%s" % (o.rc, o.msg[-400:], len(rows), ctxs))
        if o.typed:
            got, want = [C.nrow(r, True) for r in o.rows], [C.nrow(r, True) for r in rows]
        else:
            def num(r):
                # an integer in a column of fractions may be printed either way
                return tuple(float("%f" % float(v)) + 0.0 if j in loose and v else v for j, v in enumerate(r))
            got, want = [num(C.trow(r)) for r in o.rows], [num(C.trow(C.text_row(r))) for r in rows]
        if len(got) != len(want):
            raise Fail("%d rows, expected %d\n got: %r\nwant: %r\n%s" % (len(got), len(want), got[:12], want[:12], ctxs))
        ks = [[_ok(M.key(v)) for v in k] for k in okeys] if okeys else list(range(len(rows)))
        i = 0
        while i < len(want):
            j = i
            while j < len(want) and ks[j] == ks[i]:
                j += 1
            if sorted(got[i:j], key=repr) != sorted(want[i:j], key=repr):
                raise Fail("rows %d to %d differ from the reference\n got: %r\nwant: %r\n%s" % (i + 1, j, got[i:j][:12], want[i:j][:12], ctxs))
            i = j

    def info(self, case, types, rows, ts):
        return {"nontrivial": len(rows) >= 2 and len(ts) >= 2,
                "tags": ["parts%d" % (1 + len(case["q"]["union"])), case["view"]] + (["ordered"] if case["q"].get("order") else [])}


class PlainUnion(Union):
    """every branch has the same types"""
    mix = False


def _is_agg(e):
    return e[0] == "agg"


def g_join_cond(src, lvis, rvis, allv, rich=True, nulls=False):
    """equality between a left and a right column, possibly with more conditions"""
    def pick(vis, kinds):
        c = [v for v in vis if v[2] in kinds]
        return ["c"] + list(src.choice(c)) if c else None
    kinds = src.choice([("key",), ("int", "num"), ("txt", "key"), ("int", "num")])
    a, b = pick(lvis, kinds), pick(rvis, kinds)
    if a is None or b is None:
        lt, rt = [v for v in lvis if v[2] != "num"], [v for v in rvis if v[2] != "num"]
        if not lt or not rt:
            return ["cmp", "=", ["i", 1], ["i", 1]] if rich else None
        a, b = ["c"] + list(src.choice(lt)), ["c"] + list(src.choice(rt))
        num = False
    else:
        num = "num" in kinds
    if num and src.bool(0.5):
        k = src.choice([0, 1, 2])
        if src.bool():
            a = ["b", "+", a, ["i", k]]
        else:
            b = ["b", "+", b, ["i", k]]
    eq = ["cmp", "=", a, b] if src.bool(0.7) else ["cmp", "=", b, a]
    if rich and src.bool(0.15):
        # columns of both sides in one operand: not a hash condition
        side = ("int",) if all(pick(v, ("int",)) for v in (lvis, rvis)) else ("txt", "key")
        x, y, z = pick(lvis, side), pick(rvis, side), pick(src.choice([lvis, rvis]), side)
        if x and y and z:
            if src.bool():
                x, y = y, x
            m = ["b", "+", x, y]
            if src.bool(0.3):
                m = ["case", [[["cmp", "=", x, z], y]], x] if src.bool() else ["case", [[["cmp", "<>", y, x], y]], z]
            eq = ["cmp", "=", m, z] if src.bool() else ["cmp", "=", z, m]
    if not rich or src.bool(0.5):
        return eq
    g = S.G(src, allv, depth=1, fns=False, nulls=nulls)
    k = src.weighted([(4, "and"), (2, "or"), (2, "not"), (2, "ne"), (1, "any")])
    if k == "and":
        return ["and", eq, g.cond(1)] if src.bool() else ["and", g.cond(1), eq]
    if k == "or":
        return ["or", eq, g.cond(0)]
    if k == "not" and not nulls:
        return ["not", eq]
    if k == "ne":
        return ["cmp", src.choice(["<>", "<", ">="]), a, b]
    return g.cond(1)


class Join(SqlProp):
    """INNER / CROSS joins of two or three sources, hash and cartesian"""
    id = "S09"
    rule = "the join returned rows and dropped at least one pair"

    def gen(self, src):
        n = src.weighted([(4, 2), (1, 3)])
        nulls = src.bool(0.2)
        tabs = []
        for i in range(n):
            kinds = [src.choice(["key", "int"])] + [src.choice(["key", "txt", "int"]) for _ in range(src.int(0, 2))]
            tabs.append(S.g_table(src, i + 1, kinds=kinds, max_rows=[src.choice([10, 10, 10, 10, 60]) if n == 2 else 10, 8, 4][i] * src.choice([1, 1, 4 if n == 2 and i else 1]), ragged=0.3 if nulls else 0))
        al = [src.choice([t.name, "x%d" % i]) for i, t in enumerate(tabs)]
        if src.bool(0.1):
            tabs[1] = tabs[0]      # self join
            al = ["p%d" % i for i in range(n)]
        vis = [S.vis_of([t], True, [a]) for t, a in zip(tabs, al)]
        q = {"from": _src(tabs[0], al[0]), "joins": []}
        seen = list(vis[0])
        for i in range(1, n):
            if src.bool(0.1):
                q["joins"].append([",", _src(tabs[i], al[i]), None])
            else:
                c = g_join_cond(src, seen, vis[i], seen + vis[i], nulls=nulls)
                q["joins"].append([src.choice(["join", "inner join"]), _src(tabs[i], al[i]), c])
            seen += vis[i]
        g = S.G(src, seen, depth=1, fns=False, nulls=nulls)
        q["cols"] = [[g.col(("key", "txt", "int", "flt")), None] for _ in range(src.int(1, 4))]
        if src.bool(0.3):
            q["where"] = g.cond(1)
        ded = {t.name: t for t in tabs}
        return {"tables": [t.dump() for t in ded.values()], "q": q, "view": C.g_view(src), "opts": C.g_opts(src, True)}

    def info(self, case, types, rows, ts):
        return {"nontrivial": bool(rows), "tags": ["sources%d" % (1 + len(case["q"]["joins"])), case["view"]] + (["cartesian"] if (case["opts"] or {}).get("cartesian") else [])}


class LeftJoin(SqlProp):
    """LEFT JOIN on an equality"""
    id = "S10"
    rule = "some left row had no partner and some had one"

    def gen(self, src):
        tabs = []
        nulls = src.bool(0.2)
        for i in range(2):
            kinds = [src.choice(["key", "int"])] + [src.choice(["key", "txt", "int"]) for _ in range(src.int(0, 2))]
            tabs.append(S.g_table(src, i + 1, kinds=kinds, max_rows=8 if i or src.bool(0.85) else 60, ragged=0.3 if nulls else 0))
        al = [src.choice([t.name, "x%d" % i]) for i, t in enumerate(tabs)]
        vis = [S.vis_of([t], True, [a]) for t, a in zip(tabs, al)]
        c = g_join_cond(src, vis[0], vis[1], vis[0] + vis[1], rich=False)
        if src.bool(0.4):
            e = S.G(src, vis[0] + vis[1], depth=1, fns=False, nulls=nulls).cond(1)
            c = ["and", c, e] if src.bool(0.7) else ["and", e, c]
        q = {"from": _src(tabs[0], al[0]), "joins": [["left join", _src(tabs[1], al[1]), c]]}
        if src.bool(0.3):
            t3 = S.g_table(src, 3, kinds=[src.choice(["key", "int"]) for _ in range(src.int(1, 2))], max_rows=5)
            tabs.append(t3)
            v3 = S.vis_of([t3], True, ["t3"])
            kind = src.choice(["left join", "join", ","])
            c3 = None
            if kind != ",":
                c3 = g_join_cond(src, vis[0] + vis[1], v3, vis[0] + vis[1] + v3, rich=False)
                if c3 is None:
                    raise Discard
                if src.bool(0.3):
                    c3 = ["and", c3, S.G(src, vis[0] + vis[1] + v3, depth=1, fns=False, nulls=True).cond(1)]
            if src.bool(0.3) and kind == "join":
                # inner join first
                q = {"from": _src(tabs[0], al[0]), "joins": []}
                c4 = g_join_cond(src, vis[0], v3, vis[0] + v3, rich=False)
                if c4 is None:
                    raise Discard
                q["joins"] = [["join", _src(t3), c4], ["left join", _src(tabs[1], al[1]), c]]
            else:
                q["joins"].append([kind, _src(t3), c3])
            vis[1] = vis[1] + v3
        g = S.G(src, vis[0] + vis[1], depth=1, fns=False)
        q["cols"] = [[["c"] + list(src.choice(vis[0])), None]] + [[["c"] + list(src.choice(vis[0] + vis[1])), None] for _ in range(src.int(1, 3))]
        q["cols"] = q["cols"][:4]
        if src.bool(0.3):
            rc = ["c"] + list(src.choice(vis[1]))
            q["where"] = ["isnull", src.bool(), rc]
        elif src.bool(0.2):
            q["where"] = S.G(src, vis[0], depth=1, fns=False, nulls=nulls).cond(1)
        return {"tables": [t.dump() for t in tabs], "q": q, "view": C.g_view(src), "opts": C.g_opts(src)}

    def info(self, case, types, rows, ts):
        return {"nontrivial": len(rows) >= 2, "tags": [case["view"], "sources%d" % (1 + len(case["q"]["joins"]))] + (["where"] if case["q"].get("where") else [])}


class Nested(SqlProp):
    """subqueries: as sources, in IN, as scalars"""
    id = "S11"
    rule = "the subquery supplied at least one row used by the outer query"

    def gen(self, src):
        t = S.g_table(src, 1, max_rows=src.choice([8, 8, 8, 60]), kinds=[src.choice(["key", "int", "txt"]) for _ in range(src.int(1, 3))], min_rows=1)
        t2 = S.g_table(src, 2, max_rows=6, min_rows=1)
        kind = src.weighted([(4, "from"), (3, "in"), (2, "scalar"), (2, "join")])
        q = {}
        if kind in ("from", "join"):
            vis = S.vis_of([t], src.bool(), ["t1"])
            g = S.G(src, vis, depth=1, fns=False)
            inner = {"from": _src(t), "cols": []}
            nk = []
            for i in range(src.int(1, 3)):
                k = src.choice(["col", "int", "str"])
                e = g.col(("key", "int", "txt")) if k == "col" else g.int(1) if k == "int" else g.str(1)
                inner["cols"].append([e, "k%d" % i])
                nk.append((("k%d" % i), e[3] if k == "col" else "num" if k == "int" else "txt"))
            if src.bool(0.5):
                inner["where"] = g.cond(1)
            form = src.weighted([(6, ""), (1, "distinct"), (2, "group")])    # ORDER BY: known finding
            if form == "distinct":
                inner["distinct"] = True
            elif form == "order":
                inner["order"] = [[g.col(("key", "int", "txt")), src.bool(0.4)]]
                if src.bool():
                    inner["top"] = src.int(0, 4)
            elif form == "group":
                gc = g.col(("key", "int", "txt"))
                inner["group"] = [gc]
                inner["cols"] = [[gc, "k0"]]
                nk = [("k0", gc[3])]
                if src.bool(0.7):
                    inner["cols"].append([src.choice([["agg", "count", None], ["agg", "max", g.int(1)]]), "k1"])
                    nk.append(("k1", "num"))
            if form == "" and src.bool(0.2):
                g2 = S.vis_of([t2], False)
                u = {"from": _src(t2), "cols": []}
                gg = S.G(src, g2, depth=0, fns=False)
                ok = True
                for n, k in nk:
                    u["cols"].append([gg.int(0) if k == "num" else gg.str(0), None])
                inner["union"] = [u]
                nk = [(n, k if k == "num" else "txt") for n, k in nk]
            ovis = [("s", n, k) for n, k in nk]
            q = {"from": ["q", inner, "s"]}
            if kind == "join":
                v2 = S.vis_of([t2], True, ["t2"])
                if src.bool():
                    q["joins"] = [["join", _src(t2), g_join_cond(src, ovis, v2, ovis + v2, False)]]
                else:
                    q["from"] = _src(t2)
                    q["joins"] = [["join", ["q", inner, "s"], g_join_cond(src, v2, ovis, ovis + v2, False)]]
                if q["joins"][0][2] is None:
                    raise Discard
                ovis = ovis + v2
            g = S.G(src, ovis, depth=1, fns=False)
            q["cols"] = [[g.col(("key", "int", "txt", "flt", "num")) if src.bool(0.7) else g.int(1), None] for _ in range(src.int(1, 3))]
            if src.bool(0.5):
                q["where"] = g.cond(1)
        elif kind == "in":
            vis = S.vis_of([t], src.bool(), ["t1"])
            g = S.G(src, vis, depth=1, fns=False)
            c = src.choice(t2.cols)
            e = ["c", None, c[0], c[1]]
            if c[1] == "int" and src.bool():
                e = ["b", "+", e, ["i", src.choice([0, 1])]]
            sub = {"from": _src(t2), "cols": [[e, None]]}
            if src.bool(0.5):
                sub["where"] = S.G(src, S.vis_of([t2], False), depth=1, fns=False).cond(1)
            a = g.int(1) if c[1] == "int" and src.bool() else g.str(1)
            if c[1] == "int" and a[0] not in ("b",) and g.cols(("int",)):
                a = g.col(("int",))
            q = {"from": _src(t), "cols": [[g.col(("key", "int", "txt")), None]], "where": ["insub", src.bool(0.3), a, sub]}
            if src.bool(0.4):
                q["where"] = [src.choice(["and", "or"]), q["where"], g.cond(1)]
        else:
            vis = S.vis_of([t], src.bool(), ["t1"])
            g = S.G(src, vis, depth=1, fns=False)
            g2 = S.G(src, S.vis_of([t2], False), depth=1, fns=False)
            sub = {"from": _src(t2), "cols": [[src.choice([["agg", "count", None], ["agg", "max", g2.int(1)], ["agg", "min", g2.int(1)]]), None]]}
            if src.bool(0.4):
                c = src.choice(t2.cols)
                sub["cols"] = [[["c", None, c[0], c[1]], None]]
                if src.bool(0.6):
                    sub["where"] = ["cmp", src.choice(["=", "=", "<", ">"]), ["c", None, c[0], c[1]], ["s", src.choice([r[[x[0] for x in t2.cols].index(c[0])] for r in t2.rows])]]
                if src.bool(0.3):
                    sub["top"] = src.int(0, 2)
                if src.bool(0.4):
                    c = src.choice(t2.cols)
                    sub["order"] = [[["c", None, c[0], c[1]], src.bool(0.4)]]
            ss = ["ss", sub]
            q = {"from": _src(t), "cols": [[g.col(("key", "int", "txt")), None]]}
            if src.bool():
                q["cols"].append([ss, None])
            else:
                a = g.col(("int",)) if g.cols(("int",)) and src.bool() else g.int(1)
                q["where"] = ["cmp", src.choice(["=", "<", ">="]), a, ss]
        return {"tables": [t.dump(), t2.dump()], "q": q, "kind": kind, "view": C.g_view(src), "opts": C.g_opts(src)}

    def run(self, ctx, case):
        if case["kind"] == "scalar":
            r = must_fail(ctx, case)
            if r:
                return r
        return super().run(ctx, case)

    def info(self, case, types, rows, ts):
        return {"nontrivial": bool(rows), "tags": [case["kind"], case["view"]]}


PROPS = [Scan, Cond, Like, Exprs, Funcs, Group, Order, Union, Join, LeftJoin, Nested]
