"""Statements that change files: UPDATE, DELETE, SELECT INTO."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from .pbt import Discard, Fail
from .sqlcheck import SqlProp, show
from .props_sql import _src, _has_col, g_join_cond


def affected(msg):
    m = re.findall(r"(\d+) rows? affected", msg)
    return [int(x) for x in m]


class Change(SqlProp):
    """UPDATE and DELETE rewrite the file of the target table and nothing else"""
    id = "S12"
    rule = "some but not all rows changed, or a failing statement left the file alone"
    views = ["cli", "cli", "api"]

    def gen(self, src):
        nulls = src.bool(0.15)
        nj = src.weighted([(5, 0), (4, 1), (1, 2)])
        big = src.bool(0.15)
        kinds = [src.choice(["key", "int"])] + [src.choice(["key", "txt", "int", "flt"]) for _ in range(src.int(1, 3))]
        t = S.g_table(src, 1, kinds=kinds, max_rows=60 if big else 10, min_rows=1, ragged=0.2 if nulls else 0)
        tabs = [t]
        alias = src.choice([None, None, "x"])
        al = [alias or "t1"]
        vis = S.vis_of([t], bool(nj) or src.bool(), al)
        q = {"from": _src(t, alias), "form": src.int(0, 2)}
        allv = list(vis)
        left = False
        for i in range(nj):
            k2 = [src.choice(["key", "int"])] + [src.choice(["key", "txt", "int"]) for _ in range(src.int(0, 2))]
            t2 = S.g_table(src, i + 2, kinds=k2, max_rows=24 if big else 8)
            v2 = S.vis_of([t2], True, [t2.name])
            kind = src.weighted([(5, "join"), (3, "left join"), (1, ",")])
            c = None if kind == "," else g_join_cond(src, allv, v2, allv + v2, rich=kind == "join" and src.bool(0.3), nulls=nulls or left)
            if c is None and kind != ",":
                raise Discard
            if kind == "left join" and src.bool(0.4):
                e = S.G(src, allv + v2, depth=1, fns=False, nulls=True).cond(1)
                c = ["and", c, e] if src.bool(0.7) else ["and", e, c]
            left = left or kind == "left join"
            q.setdefault("joins", []).append([kind, _src(t2), c])
            tabs.append(t2)
            allv += v2
        g = S.G(src, allv if not left else vis, depth=src.int(0, 2), fns=False, nulls=nulls)
        g.pool = t
        if src.bool(0.75) or (nj == 0 and src.bool(0.7)):
            q["where"] = g.cond()
            if left and src.bool(0.5):
                q["where"] = ["isnull", src.bool(), ["c"] + list(src.choice(allv[len(vis):]))]
        if src.bool(0.5):
            q["set"] = []
            g2 = S.G(src, allv, depth=1, fns=False, nulls=nulls or left)
            g2.risky = src.bool(0.15) and not left and not nulls
            for c in src.sample(t.header(), src.int(1, min(3, len(t.cols)))):
                k = src.weighted([(3, "lit"), (3, "col"), (3, "expr")])
                e = ["s", src.choice(S.TXT)] if k == "lit" else ["c"] + list(src.choice(allv)) if k == "col" else g2.any(1)
                q["set"].append([c, e])
        opts = C.g_opts(src, True)
        if opts.get("cartesian") and left:
            opts.pop("cartesian")
        return {"tables": [x.dump() for x in tabs], "q": q, "view": src.choice(self.views), "opts": opts}

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        db = S.db_of(ts)
        q = case["q"]
        try:
            want = db.change(q)
        except M.OutOfModel:
            raise Discard
        except M.QueryError:
            want = None
        files = S.files_of(ts)
        sql = M.r_change(q)
        opts = case.get("opts") or {}
        ctx.box.fresh(files)
        ctxs = "statement: %s\nfiles: %r" % (show(sql), files)
        if case["view"] == "api":
            r = ctx.eng.api(ctx.box.dir, C.opts_api(opts) + [b"exec=" + sql])
            failed = not any(x[0] == "RC" for x in C.parse_api(r.res)) or any(x[1] < 0 for x in C.parse_api(r.res) if x[0] == "RC")
        else:
            r = ctx.eng.cli(ctx.box.dir, C.opts_args(opts) + ["-c", sql])
            failed = r.rc != 0
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), ctxs))
        ls = ctx.box.listing()
        t = ts[0]
        for k in ls:
            if k not in files:
                raise Fail("the statement left the file %r behind\n%s" % (k, ctxs))
        if failed and want is not None and db.may_fail:
            want = None
        for k, v in files.items():
            if k not in ls:
                raise Fail("the statement removed %r\n%s" % (k, ctxs))
            if ls[k] != v and (k != t.file or want is None):
                raise Fail("the statement changed %r%s\n now: %r\n%s" % (k, " though it has no result" if want is None else "", ls[k], ctxs))
        if want is None:
            if not failed:
                raise Fail("the statement succeeded where the reference has no value\n%s" % ctxs)
            return {"nontrivial": True, "tags": ["fails", "untouched"]}
        if failed and db.const_error(q):
            raise Discard
        if failed:
            raise Fail("the statement failed: %s\n%s" % (r.msg()[-300:], ctxs))
        if r.out.strip() and case["view"] == "cli":
            raise Fail("the statement printed %r\n%s" % (r.out[:200], ctxs))
        try:
            recs = M.parse_csv(ls[t.file], t.delim)
        except ValueError as e:
            raise Fail("%s\n now: %r\n%s" % (e, ls[t.file], ctxs))
        if not recs or recs[0] != [c.encode() for c in t.header()]:
            raise Fail("the header of %s became %r\n now: %r\n%s" % (t.file, recs[:1], ls[t.file], ctxs))
        n = len(t.cols)
        pad = lambda r: C.trow(list(r) + [b""] * (n - len(r)))
        got = [pad(x) for x in recs[1:]]
        exp = [[pad(a) for a in alts] for alts in want if alts is not None]
        if len(got) != len(exp):
            raise Fail("%s has %d rows, expected %d\n now: %r\nwant: %r\n%s" % (t.file, len(got), len(exp), got[:12], exp[:12], ctxs))
        for i, (a, b) in enumerate(zip(got, exp)):
            if a not in b:
                raise Fail("row %d of %s is %r, expected %r\n%s" % (i, t.file, a, b[:4], ctxs))
        nchg = sum(1 for i, w in enumerate(want) if w is None or w != [t.rows[i]])
        nsel = sum(1 for r0, w in zip(t.rows, want) if w is None or not (len(w) == 1 and w[0] is r0))
        if q.get("set") is not None or q.get("where") is not None or q.get("joins"):
            a = affected(r.msg())
            if a != [nsel]:
                raise Fail("%r rows reported as affected, %d were\n%s" % (a, nsel, ctxs))
        return {"nontrivial": 0 < nsel < len(want), "tags": ["update" if q.get("set") is not None else "delete", "joins%d" % len(q.get("joins") or [])] + (["threads"] if opts.get("threading") else [])}

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        return {"sql": show(M.r_change(case["q"])), "files": {k: v.decode("utf8", "backslashreplace") for k, v in S.files_of(ts).items()},
                "view": case["view"], "opts": {k: show(v) for k, v in (case.get("opts") or {}).items()}}


PROPS = [Change]
