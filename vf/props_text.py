"""S24: any text whatever as a query, any bytes whatever as a table."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from . import props_sql as P
from . import props_dml as D
from . import props_group as G
from .props_names import EngineProp
from .sqlcheck import opts_args
from .pbt import Discard, Fail

TOK = re.compile(rb"'[^']*'|\[[^\]]*\]|[@A-Za-z_\x80-\xff][\w@\x80-\xff]*|\d+\.?\d*|<>|>=|<=|!=|\s+|.", re.S)
WORDS = [w.encode() for w in """select from where group by order having top distinct into join left on in like between and or not null is
case when then else end as union all update set delete declare @x int = 1 ; while if begin ( ) , * . + - / % & | ^ ~ count( sum( 'x' [] t1 id 0 -1 1e5
0x1F N'x' ' " -- /* */ cast( convert( exists desc asc cross outer full right inner pivot with over partition insert values create drop table truncate exec go
break continue print return left( len( substring( replace( datepart( getdate() isnull( coalesce( nullif( t1.* * * @y varchar( char( float bit datetime
99999999999999999999 1e999 2147483648 9223372036854775807 -9223372036854775808 0.5 . .. ... t1. .id [t1].[id] $ # @ @@ @@rowcount { } \\ ` ! != !> <> == += -= *= /= %=
offset fetch next rows only percent ties any some contains escape collate default identity output except intersect option merge using matched apply for xml
xor between. __rec __rownum __cr __lf __stdin avg( min( max( round( floor( ceiling( abs( sign( power( upper( lower( ltrim( rtrim( reverse( replicate( space( stuff(
patindex( charindex( day( month( year( string datalength( ascii( nchar( user try_cast( iif( 1=1 1=2""".split()]
SCRIPTS = [
    b"declare @i int = 0; while @i < 3 begin select * from t1; set @i += 1; end",
    b"declare @s varchar(10) = 'a', @f float; set @f = 1.5; if @f > 1 select @s; else select @f;",
    b"if exists (select 1 from t1) begin select 2; end else begin select 3; end",
    b"declare @t varchar(20) = 't1'; select * from @t; update @t set {c} = 1; delete from @t where {c} = 2",
    b"select * into out.csv from t1; update [out.csv] set {c} = 'x'; delete [out.csv]",
    b"select case when {c} in (select {c} from t1) then 1 else 0 end, cast({c} as varchar(3)) from t1 a left join t1 b on a.{c} = b.{c}",
    b"select s.x, count(*), sum(cast(s.x as int)) from (select top 3 {c} as x from t1 order by 1 union all select len({c}) from t1) s group by s.x having count(*) > 1 order by 2 desc",
    b"while 1 = 1 begin break; end; select left({c}, 2) + substring({c}, 1, 2), replace({c}, 'a', 'b') from t1 where {c} like '%[a-c]_' and {c} not between 1 and 2 or not {c} is null",
    b"select 1 -- a comment\n, /* another */ 2; ; select distinct top (2) * from [t1] where ({c} & 1 | 2 ^ 3) % 4 = ~0",
]
SUBS = [P.Scan, P.Cond, P.Group, P.Order, P.Union, P.Join, P.LeftJoin, P.Nested, D.Change, G.PROPS[0]]
TEMP = re.compile(r"(^|/)(read_|libcsv_|fixed_)\w{6}$")


def writes(t):
    return re.search(rb"update|delete|into|insert|create|drop|truncate|merge|exec", t, re.I)


class AnyText(EngineProp):
    id = "S24"
    rule = "a mutated text that was accepted or that got as far as naming an existing table"

    def __init__(self):
        self.subs = [c() for c in SUBS]

    def gen(self, src):
        if src.bool(0.7):
            case = src.choice(self.subs).gen(src)
            ts = [S.Table.load(d) for d in case["tables"]]
            files = S.files_of(ts)
            q = case["q"]
            sql = M.r_change(q) if "set" in q or "form" in q else M.r_select(q)
        else:
            t = S.g_table(src, 1, kinds=[src.choice(["key", "txt", "int", "flt"]) for _ in range(src.int(1, 3))], max_rows=6, min_rows=0, ragged=0.1)
            files = S.files_of([t])
            c = src.choice(t.header())
            c = c if isinstance(c, bytes) else c.encode()
            sql = src.choice(SCRIPTS).replace(b"{c}", b"[" + c + b"]")
        toks = TOK.findall(sql)
        for _ in range(src.count(0, 6, 0.7)):
            if not toks:
                break
            i = src.below(len(toks))
            k = src.weighted([(4, "del"), (3, "dup"), (4, "swap"), (6, "new"), (3, "ins"), (2, "cut"), (2, "move"), (2, "chars"), (1, "trunc"), (1, "nest")])
            j = min(len(toks), i + src.int(1, 6))
            if k == "del":
                del toks[i]
            elif k == "dup":
                toks.insert(i, toks[i])
            elif k == "swap":
                m = src.below(len(toks))
                toks[i], toks[m] = toks[m], toks[i]
            elif k == "new":
                toks[i] = src.choice(WORDS)
            elif k == "ins":
                toks[i:i] = [b" ", src.choice(WORDS), b" "]
            elif k == "cut":
                del toks[i:j]
            elif k == "move":
                m = src.below(len(toks))
                toks[m:m] = [b" "] + toks[i:j] + [b" "]
            elif k == "nest":
                toks[i:j] = [src.choice([b"(", b"((", b"case when 1=1 then (", b"(select ", b"not (", b"-("])] + toks[i:j] + [src.choice([b")", b"))", b") end", b" from t1)"])]
            elif k == "chars":
                b = bytearray(toks[i])
                p = src.below(len(b) + 1)
                b[p:p + src.int(0, 1)] = bytes([src.choice([39, 93, 91, 40, 41, 0x80, 0xff, 1, 9, 10, 13, 92, 37, 34, 0xc3, 64, 46, 48, 59]) if src.bool(0.7) else src.int(1, 255)])
                toks[i] = bytes(b)
            else:
                del toks[j:]
        if files and src.bool(0.15):
            n = src.choice(sorted(files))
            b = bytearray(files[n])
            for _ in range(src.count(1, 6)):
                p = src.below(len(b) + 1)
                b[p:p + src.int(0, 2)] = src.choice([b"\0", b'"', b",", b"\n", b"\r", b"\xff", b'""', b"\r\n\r\n", b"|", b"\t", bytes([src.below(256)])])
            files[n] = bytes(b)
        sql = b"".join(toks).replace(b"\0", b" ")
        o = {}
        if src.bool(0.1):
            o["threading"] = 1
        if src.bool(0.2):
            o["cartesian"] = 1
        extra = src.weighted([(12, []), (1, ["-h"]), (1, ["-H"]), (1, ["-s", ";"]), (1, ["-S", "|"]), (1, ["-A"]), (1, ["--strict"]), (1, ["-p"]), (1, ["-v"]), (1, ["-q"])])
        return {"files": files, "sql": sql, "opts": o, "extra": extra, "feed": src.weighted([(4, "c"), (1, "stdin"), (1, "file")])}

    def go(self, ctx, case, more=()):
        sql = case["sql"]
        ctx.box.fresh(case["files"])
        args = opts_args(case["opts"]) + case["extra"] + list(more)
        stdin = ""
        if case["feed"] == "c":
            args += ["-c", sql]
        elif case["feed"] == "stdin":
            stdin = ctx.box.aux_file("q.sql", sql)
        else:
            args += [ctx.box.aux_file("q.sql", sql)]
        return ctx.eng.cli(ctx.box.dir, args, stdin=stdin)

    def run(self, ctx, case):
        sql = case["sql"]
        t = "\nquery: %s" % sql.decode("utf8", "backslashreplace")
        r = self.go(ctx, case)
        if r.timeout and re.search(rb"while", sql, re.I):
            raise Discard                     # a loop may well be endless
        if r.crashed():
            raise Fail(r.crashed() + t)
        if r.rc not in (0, 1):
            raise Fail("exit code %s%s" % (r.rc, t))
        if r.rc == 1 and not r.err.strip() and sql.strip():
            raise Fail("fails without a message" + t)
        after = ctx.box.listing()
        for k, v in case["files"].items():
            if k not in after:
                raise Fail("file %s is gone%s" % (k, t))
            if after[k] != v and not writes(sql):
                raise Fail("file %s changed%s" % (k, t))
        for k in after:
            if k not in case["files"] and (not re.search(rb"into", sql, re.I) or TEMP.search(k)):
                raise Fail("a file %r appeared%s" % (k, t))
        rc, tables = r.rc, b"rror" not in r.err
        for more in (["--parse-only"], ["-d"]):
            r = self.go(ctx, case, more)
            if r.crashed() and not r.timeout:
                raise Fail("with %s: %s%s" % (more[0], r.crashed(), t))
            if ctx.box.listing() != case["files"]:
                raise Fail("%s changed the directory%s" % (more[0], t))
            if rc == 0 and r.rc != 0:
                raise Fail("a query that runs is refused with %s: %s%s" % (more[0], r.msg(), t))
        return {"nontrivial": rc == 0, "tags": ["accepted" if rc == 0 else "refused"]}

    def show(self, case):
        return {"sql": case["sql"].decode("utf8", "backslashreplace"), "files": {k: v.decode("utf8", "backslashreplace") for k, v in case["files"].items()},
                "args": opts_args(case["opts"]) + case["extra"], "feed": case["feed"]}


PROPS = [AnyText]
