"""Standard input as a table: __stdin holds what a file of the same content holds."""
import os
import threading

from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from . import props_sql as P
from .engine import parse_api
from .props_dml import Change
from .pbt import Discard, Fail
from .sqlcheck import SqlProp, show

SUBS = {"scan": (P.Scan(), 2), "cond": (P.Cond(), 1), "group": (P.Group(), 2), "order": (P.Order(), 2), "union": (P.Union(), 2), "join": (P.Join(), 5),
        "left": (P.LeftJoin(), 4), "nested": (P.Nested(), 4), "change": (Change(), 4)}


def uses(x, out):
    """every place where a table is named"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "from" and v and v[0] == "t":
                out.append(v)
            elif k == "joins":
                for j in v or []:
                    if j[1][0] == "t":
                        out.append(j[1])
                    uses(j, out)
            else:
                uses(v, out)
    elif isinstance(x, list):
        for y in x:
            uses(y, out)
    return out


class Feed:
    """the engine with a table on its standard input"""

    def __init__(self, eng, box, file, how, chunk, query):
        self.eng, self.box, self.file, self.how, self.chunk, self.query = eng, box, file, how, chunk, query

    def __getattr__(self, k):
        return getattr(self.eng, k)

    def path(self):
        p = os.path.join(self.box.dir, self.file)
        if self.how != "pipe":
            return p, None
        data = open(p, "rb").read()
        f = os.path.join(self.box.aux, "fifo")
        if os.path.exists(f):
            os.unlink(f)
        os.mkfifo(f)
        os.chmod(f, 0o666)

        def feed():
            try:
                fd = os.open(f, os.O_WRONLY)        # waits for the engine
                i = 0
                while i < len(data):
                    i += os.write(fd, data[i:i + self.chunk])
                os.close(fd)
            except OSError:
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()

        def end():
            os.close(os.open(f, os.O_RDONLY | os.O_NONBLOCK))
            t.join(10)
        return f, end

    def ask(self, mode, cwd, args, timeout_ms):
        for m in (mode + "!", mode + "L"):
            p, end = self.path()
            try:
                r = self.eng._request(m, cwd, args, p, timeout_ms)
            finally:
                if end:
                    end()
            if b"syntax error" not in r.err:
                break
        return r

    def cli(self, cwd, args, stdin="", timeout_ms=None):
        if self.query == "file":
            i = args.index("-c")
            q = args[i + 1]
            f = self.box.aux_file("q.sql", q if isinstance(q, bytes) else q.encode())
            args = list(args[:i]) + list(args[i + 2:]) + [f]
        return self.ask("cli", cwd, args, timeout_ms)

    def api(self, cwd, args, stdin="", timeout_ms=None):
        return self.ask("api", cwd, ["allow_stdin=1"] + list(args), timeout_ms)


class Wrap:
    def __init__(self, ctx, eng):
        self.ctx, self.eng = ctx, eng

    def __getattr__(self, k):
        return getattr(self.ctx, k)


class Stdin(SqlProp):
    """a query that takes one of its tables from standard input"""
    id = "S20"
    rule = "the table on standard input has rows and is joined, nested, grouped, sorted or updated from"
    quick_s = 26

    def gen(self, src):
        k = src.weighted([(w, k) for k, (_, w) in sorted(SUBS.items())])
        case = SUBS[k][0].gen(src)
        case["k"] = k
        q = case["q"]
        names = [u[1] for u in uses(q, [])]
        once = [u for u in uses(q, []) if names.count(u[1]) == 1 and not (k == "change" and u is q["from"])]
        if not once:
            raise Discard
        u = src.choice(once)
        case["spell"] = src.choice(["__stdin", "__STDIN", "__Stdin"])
        case["mode"] = src.weighted([(20, "ok"), (1, "twice"), (1, "denied")])
        old = u[1]
        case["old"] = old
        t = next(d for d in case["tables"] if d["name"] == old)
        if k != "order" and k != "change" and src.bool(0.12) and t["rows"]:
            # more than a pipe holds
            n = len(t["rows"])
            m = src.choice([60, 300, 1500])
            if k in ("scan", "cond", "union", "group") and len(case["tables"]) <= 2:
                t["rows"] = [t["rows"][(i * 7 + i // 11) % n] for i in range(m)]
        t["name"], t["file"] = case["spell"], "zz_in.dat"
        u[2] = u[2] or old
        u[1] = case["spell"]
        if case["mode"] == "twice":
            q.setdefault("joins", [])
        case["feed"] = src.weighted([(2, "file"), (1, "pipe")])
        case["chunk"] = src.choice([1 << 20, 4096, 61, 7])
        case["query"] = src.choice(["c", "c", "file"])
        return case

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        t = next(x for x in ts if x.file == "zz_in.dat")
        q = case["q"]
        if case["mode"] != "ok":
            return self.refused(ctx, case, ts, q)
        sub = SUBS[case["k"]][0]
        eng = Feed(ctx.eng, ctx.box, "zz_in.dat", case["feed"], case["chunk"], case["query"])
        try:
            info = sub.run(Wrap(ctx, eng), case)
        except Fail as e:
            raise Fail("%s\nstandard input: %r (%s, query by %s)" % (e, t.bytes()[:2000], case["feed"], case["query"]))
        left = ctx.box.listing()
        if left.get("zz_in.dat") != t.bytes():
            raise Fail("the file on standard input became %r" % left.get("zz_in.dat"))
        extra = [x for x in left if x not in S.files_of(ts) and x != "out.csv"]
        if extra:
            raise Fail("left behind: %r" % extra)
        return {"nontrivial": bool(t.rows and (case["k"] not in ("scan", "cond"))), "tags": [case["k"], case["feed"]] + (["big"] if len(t.rows) > 50 else []) + [x for x in info.get("tags", []) if x == "threads"]}

    def refused(self, ctx, case, ts, q):
        """standard input is one table, and none where the query comes from there"""
        files = S.files_of(ts)
        ctx.box.fresh(files)
        p = os.path.join(ctx.box.dir, "zz_in.dat")
        if case["mode"] == "denied":
            sql = M.r_change(q) if case["k"] == "change" else M.r_select(q)
            r = ctx.eng.cli(ctx.box.dir, [], ctx.box.aux_file("q.sql", sql))
        else:
            n = case["spell"].encode()
            sql = b"select 1 a from " + n + b" a join " + n + b" b on a." + ts[0].cols[0][0].encode() + b" = 'x'" if case["chunk"] > 61 else \
                  b"select 1 a from " + n + b" a; select 2 b from " + n + b" b"
            r = ctx.eng.cli(ctx.box.dir, ["-c", sql], p)
        if r.crashed():
            raise Fail("%s\nquery: %s" % (r.crashed(), show(sql)))
        if r.rc == 0:
            raise Fail("__stdin is read, though it %s\nquery: %s\noutput: %r" % ("is what the query was read from" if case["mode"] == "denied" else "can be read once only", show(sql), r.out[:500]))
        ls = ctx.box.listing()
        if ls != files:
            raise Fail("a refused query changed files: %r\nquery: %s" % (ls, show(sql)))
        return {"nontrivial": False, "tags": [case["mode"]]}

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        sql = M.r_change(case["q"]) if case["k"] == "change" else M.r_select(case["q"])
        return {"sql": show(sql), "files": {k: v.decode("utf8", "backslashreplace")[:3000] for k, v in S.files_of(ts).items()},
                "view": case.get("view"), "mode": case["mode"], "feed": case["feed"], "query": case["query"], "opts": {k: show(v) for k, v in (case.get("opts") or {}).items()}}


PROPS = [Stdin]
