"""Runs queries through the engine under several delivery paths and compares with the model."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from .engine import parse_api
from .pbt import Ctx, Discard, Fail, Prop

# delivery paths of a result
VIEWS = ["api", "cli", "into", "apistep"]


class Outcome:
    def __init__(self):
        self.rows = None      # typed (api) or text
        self.typed = False
        self.header = None
        self.failed = False
        self.msg = ""
        self.new_files = {}
        self.rc = None


def opts_args(opts):
    """{"threading":1, "cartesian":1, "pipe_factor":n, "in_delim":..., ...} -> CLI args"""
    a = []
    o = opts or {}
    if o.get("threading"):
        a.append("-t")
    if o.get("cartesian"):
        a.append("-C")
    if o.get("char_as_byte"):
        a.append("-b")
    if o.get("pipe_factor") is not None:
        a += ["-P", str(o["pipe_factor"])]
    if o.get("stable"):
        a.append("--stable")
    if o.get("crlf"):
        a.append("--crlf")
    return a


def opts_api(opts):
    o = opts or {}
    return ["%s=%s" % (k, o[k]) for k in ("threading", "cartesian", "char_as_byte", "pipe_factor", "stable") if o.get(k) is not None]


def run(ctx, files, sql, view="api", opts=None, out_delim=b",", into_sql=None, timeout_ms=None, keep=False):
    """-> Outcome; raises Fail on a crash, hang or sanitizer report"""
    o = Outcome()
    if not keep:
        ctx.box.fresh(files)
    if view in ("api", "apistep"):
        cmds = opts_api(opts) + [b"plans=" + sql, b"stepall"]
        r = ctx.eng.api(ctx.box.dir, cmds, timeout_ms=timeout_ms)
        if r.crashed():
            raise Fail("%s\nquery: %s" % (r.crashed(), show(sql)))
        ev = parse_api(r.res)
        rcs = [x[1] for x in ev if x[0] == "RC"]
        o.typed = True
        o.failed = any(c < 0 for c in rcs) or not rcs
        o.rows = [[None if f[1] else f[2] for f in x[1]] for x in ev if x[0] == "ROW"]
        o.types = [[f[0] for f in x[1]] for x in ev if x[0] == "ROW"]
        o.msg, o.rc = r.msg(), rcs
        return o
    q = into_sql if view == "into" else sql
    r = ctx.eng.cli(ctx.box.dir, opts_args(opts) + ["-S", out_delim, "-c", q], timeout_ms=timeout_ms)
    if r.crashed():
        raise Fail("%s\nquery: %s" % (r.crashed(), show(q)))
    o.failed = r.rc != 0
    o.rc = r.rc
    o.msg = r.msg()
    o.raw = r.out
    data = r.out
    if view == "into":
        ls = ctx.box.listing()
        data = ls.get("out.csv")
        o.new_files = {k: v for k, v in ls.items() if k not in files}
        if not o.failed and data is None:
            raise Fail("the query succeeded but out.csv was not written\nquery: %s" % show(q))
    if o.failed:
        return o
    try:
        recs = M.parse_csv(data, out_delim)
    except ValueError as e:
        raise Fail("%s\nquery: %s\noutput: %r" % (e, show(q), data[:1500]))
    o.raw = data
    if recs:
        o.header, o.rows = recs[0], recs[1:]
    else:
        o.header, o.rows = None, []
    return o


def show(sql):
    return sql.decode("utf8", "backslashreplace") if isinstance(sql, bytes) else sql


def text_row(row):
    return [b"" if v is None else M.fmt(v) for v in row]


def norm(v):
    if v is None:
        return ("N",)
    if isinstance(v, float):
        return ("F", 0.0 if v == 0 else v)
    if isinstance(v, int):
        return ("I", v)
    return ("S", v)


def nrow(row, approx=False):
    if approx:
        return tuple(("F", float("%f" % v) + 0.0) if isinstance(v, float) else norm(v) for v in row)
    return tuple(norm(v) for v in row)


def trow(row):
    """text row; -0.000000 and 0.000000 are the same number"""
    return tuple(b"0.000000" if v == b"-0.000000" else v for v in row)


def expect(o, types, rows, sql, files, ordered, names=None, extra="", approx=False):
    """compare an outcome with model rows; ordered: compare as a sequence"""
    ctxs = "query: %s\nfiles: %r%s" % (show(sql), files, extra)
    if o.failed:
        raise Fail("the query failed (%r: %s) where the reference gives %d rows\n%s" % (o.rc, o.msg[-400:], len(rows), ctxs))
    if o.typed:
        g = [nrow(r, approx) for r in o.rows]
        w = [nrow(r, approx) for r in rows]
    else:
        g = [trow(r) for r in o.rows]
        w = [trow(text_row(r)) for r in rows]
        if names is not None and o.header is not None:
            for i, n in enumerate(names):
                if n is not None and (i >= len(o.header) or o.header[i] != n.encode()):
                    raise Fail("header is %r, expected %r\n%s" % (o.header, names, ctxs))
            if len(o.header) != len(names):
                raise Fail("header has %d columns, expected %d: %r\n%s" % (len(o.header), len(names), o.header, ctxs))
    if ordered:
        if g != w:
            raise Fail("result differs from the reference\n got: %r\nwant: %r\n%s" % (g[:12], w[:12], ctxs))
    elif sorted(g) != sorted(w):
        extra_rows, missing = diff(g, w)
        raise Fail("result differs from the reference (as a multiset): %d rows, expected %d\n unexpected: %r\n missing: %r\n%s" % (
            len(g), len(w), extra_rows[:6], missing[:6], ctxs))


def diff(g, w):
    from collections import Counter
    a, b = Counter(g), Counter(w)
    return list((a - b).elements()), list((b - a).elements())


def col_names(q, db):
    """expected header entries; None where nothing is promised"""
    sc = db.scope(q)
    out = []
    for e, a in q["cols"]:
        if e == ["*"]:
            out += [x[2] for x in sc.star()]
        elif a:
            out.append(a)
        elif e[0] == "c":
            out.append(e[2])
        else:
            out.append(None)
    return out


def g_opts(src, join=False):
    """engine options that must never change a result"""
    o = {}
    if src.bool(0.15):
        o["pipe_factor"] = src.choice([1, 2, 3, 16, 128])
    if src.bool(0.15):
        o["threading"] = 1
    if src.bool(0.2):
        o["sep"] = src.choice([b"|", b";", b"\t"])
    if join and src.bool(0.2):
        o["cartesian"] = 1
    return o


def g_view(src, views=VIEWS):
    return src.choice(views)


def model_eval(case, sort=True, **kw):
    ts = [S.Table.load(d) for d in case["tables"]]
    db = S.db_of(ts, **kw)
    try:
        return ts, db, db.select(case["q"], sort)
    except (M.QueryError, M.OutOfModel):
        raise Discard


def has_blank_row(rows, typed):
    return not typed and any(len(r) == 1 and r[0] in (None, b"") for r in rows)


class SqlProp(Prop):
    """case: {"tables", "q", "view", "opts"}; result compared with the model"""
    level = "exploration"
    ordered = False
    approx = False      # floats that passed through six decimals of text
    views = VIEWS
    quick_s = 26

    def prepare(self, tier):
        from . import build
        return {"bin": build.engine(san=False), "asan": build.engine(san=True)}

    def cab(self, case):
        return bool((case.get("opts") or {}).get("char_as_byte"))

    def run(self, ctx, case):
        ts, db, (types, rows, okeys) = model_eval(case, char_as_byte=self.cab(case))
        q = case["q"]
        files = S.files_of(ts)
        sql = M.r_select(q)
        view = case.get("view", "api")
        names = col_names(q, db)
        if view not in ("api", "apistep") and (len(names) == 1):
            # one empty field per line is not distinguishable from a blank line
            if any(r[0] in (None, b"") for r in rows):
                view = "api"
        o = run(ctx, files, sql, view, case.get("opts"), into_sql=M.r_select(q, into="out.csv") if view == "into" else None,
                out_delim=self.out_delim(case, ts, view))
        if o.failed and db.const_error(q):
            raise Discard
        self.judge(case, o, types, rows, okeys, sql, files, names)
        return self.info(case, types, rows, ts)

    def out_delim(self, case, ts, view):
        return (case.get("opts") or {}).get("sep", b",")

    def judge(self, case, o, types, rows, okeys, sql, files, names):
        expect(o, types, rows, sql, files, self.ordered, names, approx=self.approx)

    def info(self, case, types, rows, ts):
        return {"nontrivial": bool(rows), "tags": [case.get("view", "api")]}

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        return {"sql": show(M.r_select(case["q"])), "files": {k: v.decode("utf8", "backslashreplace") for k, v in S.files_of(ts).items()},
                "view": case.get("view"), "opts": {k: show(v) for k, v in (case.get("opts") or {}).items()}}
