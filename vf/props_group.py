"""S22: GROUP BY arbitrary expressions, and expressions over keys and aggregates."""
import copy

from . import sqlcheck as C
from . import sqlgen as S
from . import sqlmodel as M
from .pbt import Discard, Fail


def _has_col(e):
    return isinstance(e, list) and bool(e) and (e[0] == "c" or any(_has_col(x) for x in e))


def canon(e, sc):
    """two expressions with the same canonical form are the same expression"""
    if isinstance(e, list):
        if e and e[0] == "c" and len(e) == 4:
            al, i, _ = sc.find(e)
            return ("c", al, i)
        if e and e[0] == "f" and len(e) == 2:
            return ("f", float(e[1]))
        if e and e[0] == "case":
            return ("case", canon(e[1], sc), canon(e[2], sc), len(e) > 3)
        if e and e[0] == "fn":
            return ("fn", e[1].upper(), tuple(canon(x, sc) for x in e[2]))
        if e and e[0] == "cast":
            return ("cast", canon(e[1], sc), e[2].lower(), e[3])
        return tuple(canon(x, sc) for x in e)
    return e


EXPR = ("c", "i", "f", "s", "null", "u", "b", "case", "fn", "cast", "agg", "v")


def abstract(e, keys, aggs, sc):
    """replace what the group determines: keys by @k, aggregates by @a (maximal subexpressions first)"""
    if not isinstance(e, list):
        return e
    if e and isinstance(e[0], str) and e[0] in EXPR:
        if e[0] not in ("i", "f", "s", "null"):
            k = canon(e, sc)
            if k in keys:
                return ["v", keys[k]]
        if e[0] == "agg":
            n = "@a%d" % len(aggs)
            aggs[n] = e
            return ["v", n]
    return [abstract(x, keys, aggs, sc) for x in e]


def ill_typed(e, db, sc):
    """refused whatever the rows are: LIKE takes text only, - numbers only, % whole numbers only"""
    if not isinstance(e, list):
        return False
    if e and e[0] == "like" and db.type(e[2], sc) != "S":
        return True
    if e and e[0] in ("u", "b") and db.type(e, sc) not in {"+": "SIF", "-": "IF", "*": "IF", "/": "IF"}.get(e[1], "I"):
        return True
    return any(ill_typed(x, db, sc) for x in e)


def subst(e, m):
    """pseudo columns of the generator -> the expressions they stand for"""
    if not isinstance(e, list):
        return e
    if e and e[0] == "c" and len(e) == 4 and e[2] in m:
        return copy.deepcopy(m[e[2]])
    return [subst(x, m) for x in e]


def mutate(src, e, vis):
    """an expression that differs from e in one place"""
    e = copy.deepcopy(e)
    spots = []

    def searched(x):
        if isinstance(x, list):
            if x and x[0] == "case":
                del x[3:]
            for y in x:
                searched(y)
    searched(e)

    def walk(x):
        if not isinstance(x, list):
            return
        if x and isinstance(x[0], str):
            spots.append(x)
        for y in x:
            walk(y)
    walk(e)
    for _ in range(6):
        x = src.choice(spots)
        k = x[0]
        if k == "i":
            w = src.int(0, 9)
            if w < 4:
                x[1] = x[1] + src.choice([1, 32, 2])
            elif w < 6:
                x[1] = x[1] + src.choice([1 << 8, 1 << 16, 1 << 32, 1 << 48])
            elif w == 6:
                x[:] = ["f", "%d.0" % x[1]]
            else:
                x[1] = src.choice([abs(v) for v in S.INTS])
        elif k == "f":
            x[1] = src.choice(S.FLTS).lstrip("-")
        elif k == "s":
            x[1] = x[1].swapcase() if src.bool() else x[1] + b" " if src.bool() else src.choice(S.TXT)
        elif k == "b":
            if x[1] in "+-*":
                x[1] = src.choice([o for o in "+-*" if o != x[1]])
                if src.bool(0.3):
                    x[2], x[3] = x[3], x[2]
            else:
                x[3] = ["i", src.choice([1, 2, 4, 9])]
        elif k == "c" and len(x) == 4:
            o = [v for v in vis if v[1] != x[2] or v[0] != x[1]]
            if not o:
                continue
            v = src.choice(o)
            x[1:] = [v[0], v[1], v[2]]
        elif k == "fn":
            n = x[1].upper()
            if n in ("LEFT", "RIGHT"):
                x[1] = {"LEFT": "right", "RIGHT": "left"}[n]
            elif n in ("LEN", "DATALENGTH"):
                x[1] = {"LEN": "datalength", "DATALENGTH": "len"}[n]
            else:
                continue
        elif k == "cast":
            if x[2] in ("varchar", "char"):
                if src.bool():
                    x[3] += 1
                else:
                    x[2] = {"varchar": "char", "char": "varchar"}[x[2]]
            else:
                x[2], x[3] = src.choice([("int", None), ("float", None), ("varchar", 3)])
        elif k == "cmp":
            x[1] = src.choice([o for o in ("=", "<>", "<", "<=", ">", ">=") if o != x[1]])
        elif k in ("like", "in", "isnull"):
            if k == "like" and src.bool():
                x[3] = S.g_like(src)
            elif k == "in" and src.bool() and len(x[3]) > 1:
                x[3].pop()
            else:
                x[1] = not x[1]
        elif k == "case":
            if x[2] is not None and src.bool():
                x[2] = None
            elif len(x[1]) > 1:
                x[1].reverse()
            else:
                continue
        elif k in ("and", "or"):
            x[0] = "or" if k == "and" else "and"
        elif k == "not":
            x[0] = "par"
        elif k == "u":
            x[1] = "~" if x[1] == "-" else "-"
        else:
            continue
        return e
    raise Discard


def g_key(src, g):
    k = src.weighted([(4, "col"), (3, "str"), (3, "int"), (1, "flt"), (2, "case"), (1, "icase")])
    if k == "col":
        return g.col(("txt", "key", "int", "flt"))
    e = {"str": g.str, "int": g.int, "flt": g.flt, "case": lambda: g.case(g.str, 1), "icase": lambda: g.case(g.int, 1)}[k]()
    return e


KIND = {"S": "txt", "I": "num", "F": "fnum"}


class Over(S.G):
    """expressions over keys and aggregates, which have types"""
    def cols(self, kinds):
        if "flt" in kinds and "txt" not in kinds:
            kinds = tuple(kinds) + ("fnum",)
        return [v for v in self.vis if v[2] in kinds]


class _Down:
    """reverses an order"""
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return o.v < self.v

    def __eq__(self, o):
        return o.v == self.v


class GroupExpr(C.SqlProp):
    id = "S22"
    rule = "two groups or more, one of them with several rows, by a key that is not a plain column, or a near miss of a key"

    def gen(self, src):
        kinds = [src.choice(["key", "int", "txt", "flt", "key"]) for _ in range(src.int(2, 4))]
        nulls = src.bool(0.2)
        t = S.g_table(src, 1, kinds=kinds, max_rows=src.choice([8, 14, 40]), min_rows=1, ragged=0.3 if nulls else 0)
        tabs = [t]
        q = {"from": ["t", "t1", "t1"]}
        qual = src.bool()
        if src.bool(0.15) and not nulls:
            t2 = S.g_table(src, 2, kinds=["key", src.choice(["int", "txt"])], max_rows=4)
            tabs.append(t2)
            l = [c for c, k in t.cols if k == "key"]
            if not l:
                raise Discard
            q["joins"] = [["join", ["t", "t2", "t2"], ["cmp", "=", ["c", "t1", src.choice(l), "key"], ["c", "t2", t2.cols[0][0], "key"]]]]
            qual = True
        vis = S.vis_of(tabs, qual, [x.name for x in tabs])
        g = S.G(src, vis, depth=1, nulls=nulls)
        g.pool = t
        db = S.db_of(tabs)
        sc = db.scope(q)
        keys = []
        if src.bool(0.85):
            for _ in range(src.weighted([(4, 1), (3, 2), (1, 3)])):
                e = g_key(src, g)
                if _has_col(e) and canon(e, sc) not in [canon(x, sc) for x in keys]:
                    keys.append(e)
            if not keys:
                raise Discard
            q["group"] = keys
        if src.bool(0.35):
            q["where"] = g.cond(1)
        # what may be said about a group
        m, pv = {}, []
        for i, e in enumerate(keys):
            m["@k%d" % i] = e
            pv.append((None, "@k%d" % i, e[3] if e[0] == "c" else KIND[db.type(e, sc)]))
        for i in range(src.int(0 if keys else 1, 2)):
            f = src.choice(["count", "sum", "min", "max", "avg"])
            if f == "count":
                a = ["agg", f, None]
            elif f in ("min", "max") and src.bool():
                a = ["agg", f, g.str(1)]
            else:
                a = ["agg", f, g.int(1) if src.bool(0.6) else g.flt(1)]
            m["@g%d" % i] = a
            pv.append((None, "@g%d" % i, KIND[db.type(a, sc)]))
        p = Over(src, pv, depth=src.choice([0, 1, 1, 2]), nulls=nulls)

        def over():
            e = p.any() if src.bool(0.7) else p.col(("txt", "key", "int", "flt", "num", "fnum"))
            return subst(e, m)
        q["cols"] = [[copy.deepcopy(e), None] for e in keys if src.bool(0.7)]
        for _ in range(src.int(1, 3)):
            q["cols"].append([over(), None])
        if not keys and not any(M._has_agg(e) for e, _ in q["cols"]):
            q["cols"].append([copy.deepcopy(m["@g0"]), None])
        q["cols"] = src.shuffle(q["cols"])
        if src.bool(0.3):
            c = p.cond(1)
            q["having"] = subst(c, m)
        if src.bool(0.3):
            q["order"] = []
            for _ in range(src.int(1, 2)):
                e = over()
                if _has_col(e) and e[0] != "c" or e[0] == "agg":
                    q["order"].append([e, src.bool(0.4)])
            if not q["order"]:
                del q["order"]
        miss = None
        if keys and src.bool(0.3):
            miss = mutate(src, src.choice(keys), vis)
            w = src.weighted([(4, "col"), (1, "having"), (1, "order")])
            if w == "having":
                q["having"] = ["isnull", src.bool(), miss]
            elif w == "order" and miss[0] not in ("c", "i") and _has_col(miss):
                q["order"] = [[miss, False]]
            else:
                q["cols"].append([miss, None])
        return {"tables": [x.dump() for x in tabs], "q": q, "miss": miss is not None, "view": C.g_view(src), "opts": C.g_opts(src)}

    # -- the oracle
    def groups(self, db, q, sc):
        envs = db.envs(q, sc, db.src_rows(q["from"]))
        ks = q.get("group") or []
        kt = [db.type(e, sc) for e in ks]
        groups = {}
        for env in envs:
            k, vals = [], []
            for e, t in zip(ks, kt):
                v = M.conv(db.ev(e, sc, env), t)
                if t == "F" and v is not None:
                    v = M.to_float(M.fmt(v)) + 0.0
                vals.append(v)
                k.append(M.key(v))
            groups.setdefault(tuple(k), []).append((env, vals))
        if not ks and not groups:
            groups[()] = []
        return kt, list(groups.values())

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        db = S.db_of(ts)
        q = case["q"]
        sc = db.scope(q)
        try:
            if db.const_error(q):
                raise Discard
            kt, groups = self.groups(db, q, sc)
            keys = {canon(e, sc): "@k%d" % i for i, e in enumerate(q.get("group") or [])}
            aggs = {}
            cols = [abstract(e, keys, aggs, sc) for e, _ in q["cols"]]
            having = abstract(q["having"], keys, aggs, sc) if q.get("having") is not None else None
            order = [[abstract(e, keys, aggs, sc), d] for e, d in q.get("order") or []]
            at = {n: db.type(a, sc) for n, a in aggs.items()}
            db.vars = dict([("@k%d" % i, (t, None)) for i, t in enumerate(kt)] + [(n, (t, None)) for n, t in at.items()])
            types = [db.type(e, sc) for e in cols]
            if ill_typed([cols, having, order], db, sc):
                raise Discard
            left = any(_has_col(x) for x in [cols, having or [], order])
            want = []         # per group: what its row may be, with its sort keys; [] for a group that HAVING drops
            vary = None
            for g in groups:
                av = {}
                for n, a in aggs.items():
                    v = db.agg(a, sc, [env for env, _ in g])
                    if at[n] == "F" and v is not None:
                        v = M.to_float(M.fmt(v)) + 0.0
                    av[n] = (at[n], v)
                alts, kept = [], []
                for env, kv in g or [({}, [])]:
                    if left and not env:
                        raise Discard
                    db.vars = dict([("@k%d" % i, (t, v)) for i, (t, v) in enumerate(zip(kt, kv))], **av)
                    keep = having is None or db.cond(having, sc, env)
                    row = [M.conv(db.ev(e, sc, env), t) for e, t in zip(cols, types)]
                    ok = [db.ev(e, sc, env) for e, _ in order]
                    kept.append(keep)
                    if (row, ok) not in alts:
                        alts.append((row, ok))
                if left:
                    # with the keys of the first row
                    for env, _ in g:
                        db.vars = dict([("@k%d" % i, (t, v)) for i, (t, v) in enumerate(zip(kt, g[0][1]))], **av)
                        x = [M.key(M.conv(db.ev(e, sc, env), t)) for e, t in zip(cols, types)] + [M.key(db.ev(e, sc, env)) for e, _ in order]
                        x.append(having is None or db.cond(having, sc, env))
                        if env is g[0][0]:
                            x0 = x
                        elif x != x0 and vary is None:
                            vary = (x0, x)
                if len(set(kept)) > 1 and not left:
                    raise Discard      # depends on the spelling of the key
                want.append((kept[0], alts))
        except (M.QueryError, M.OutOfModel):
            raise Discard
        files = S.files_of(ts)
        sql = M.r_select(q)
        view = case.get("view", "api")
        if view not in ("api", "apistep") and len(cols) == 1:
            view = "api"
        opts = case.get("opts") or {}
        o = C.run(ctx, files, sql, view, opts, into_sql=M.r_select(q, into="out.csv") if view == "into" else None, out_delim=opts.get("sep", b","))
        where = "\nquery: %s\nfiles: %r" % (C.show(sql), files)
        exprkey = any(e[0] != "c" for e in q.get("group") or [])
        tags = [t for t, c in (("miss", case.get("miss")), ("left", left), ("refused", o.failed), ("exprkey", exprkey), ("having", having), ("order", order), ("agg", aggs), ("total", not kt)) if c] + [view]
        if o.failed:
            if not left:
                raise Fail("the query failed (%r: %s) though everything in it is determined by the group%s" % (o.rc, o.msg[-300:], where))
            return {"nontrivial": True, "tags": tags}
        if left and vary:
            raise Fail("accepted, but an expression in it is not determined by the group: %r and %r%s" % (vary[0], vary[1], where))
        want = [a for k, a in want if k]
        n = (lambda r: C.nrow(r, True)) if o.typed else C.trow
        f = (lambda r: C.nrow(r, True)) if o.typed else (lambda r: C.trow(C.text_row(r)))
        got = [n(r) for r in o.rows]
        alts = [[f(r) for r, _ in a] for a in want]
        if len(got) != len(alts):
            raise Fail("%d groups, expected %d\n got: %r\nwant: %r%s" % (len(got), len(alts), got[:8], [a[0] for a in alts[:8]], where))
        # a perfect matching of the rows and the groups
        can = [[j for j, a in enumerate(alts) if r in a] for r in got]
        owner = {}

        def place(i, seen):
            for j in can[i]:
                if j not in seen:
                    seen.add(j)
                    if j not in owner or place(owner[j], seen):
                        owner[j] = i
                        return True
            return False
        for i, r in enumerate(got):
            if not place(i, set()):
                raise Fail("a row that is not that of a group of the reference: %r\n got: %r\nwant: %r%s" % (r, got[:8], [a[0] for a in alts[:8]], where))
        if order:
            prev = None
            for i, r in enumerate(got):
                poss = []
                for j in can[i]:
                    for row, ok in want[j]:
                        if f(row) == r:
                            ks = []
                            for (e, d), v in zip(order, ok):
                                t = db.type(e, sc)
                                v = M.key(v) if v is not None else (b"" if t == "S" else 0)
                                if isinstance(v, float):
                                    v = round(v, 6)
                                ks.append(_Down(v) if d else v)
                            poss.append(ks)
                good = [p for p in poss if prev is None or not p < prev]
                if not good:
                    raise Fail("the rows are not in the order asked for: %r after %r%s" % (r, got[i - 1], where))
                best = good[0]
                for p in good[1:]:
                    if p < best:
                        best = p
                prev = best
        big = any(len(g) > 1 for g in groups)
        return {"nontrivial": (exprkey or bool(aggs)) and big and (len(groups) > 1 or not kt), "tags": tags}


PROPS = [GroupExpr]
