"""S25: how a query is written, how its tables are stored and how results are presented."""
import re

from . import sqlgen as S
from . import sqlmodel as M
from . import props_sql as P
from . import props_dml as D
from . import props_flow as F
from .engine import Result
from .pbt import Fail
from .sqlcheck import SqlProp, show
from .props_stdin import Wrap

TOK = re.compile(rb"N?'(?:[^']|'')*'|\[[^\]]*\]|@\w+|[A-Za-z_]\w*|\d+\.?\d*|<>|>=|<=|!=|[-+*/%&|^]=|\s+|.", re.S)
KEYS = set(b"""select from where group by order having top distinct into join left inner on in like between and or not null is case when then
else end as union all update set delete cast exists desc asc cross outer varchar char int float bit declare if while begin break continue print""".split())
FNS = set(b"count sum min max avg len datalength substring replace right isnull left".split())
SUBS = {"scan": (P.Scan(), 3), "cond": (P.Cond(), 3), "like": (P.Like(), 1), "exprs": (P.Exprs(), 3), "funcs": (P.Funcs(), 2), "group": (P.Group(), 2),
        "order": (P.Order(), 2), "union": (P.Union(), 2), "join": (P.Join(), 2), "left": (P.LeftJoin(), 2), "nested": (P.Nested(), 3), "change": (D.Change(), 2), "flow": (F.Flow(), 3)}
GAPS = [b" ", b"\n", b"\t", b"  ", b"\r\n", b"\n\n\t ", b" /* 'a */ ", b" -- it's; select\n", b"/**/", b" /* select\n[ */\n", b" --\n"]


def respell(sql, seed, level):
    """the same query in other words: letter case, blanks, comments, brackets"""
    x = seed & 0xffffffff or 1

    def rnd(n):
        nonlocal x
        x ^= x << 13 & 0xffffffff
        x ^= x >> 17
        x ^= x << 5 & 0xffffffff
        return x % n
    out = []
    toks = TOK.findall(sql)
    for i, t in enumerate(toks):
        w = t.lower()
        if t.isspace():
            g = GAPS[rnd(len(GAPS))]
            if out and out[-1].endswith(b"/"):
                g = b" " + g        # // is a token of its own
            out.append(g if rnd(100) < level else t)
            continue
        if re.match(rb"[A-Za-z_]", t) and not t.endswith(b"'"):
            if w in KEYS or w in FNS:
                k = rnd(4)
                t = w if k == 0 else w.upper() if k == 1 else w.capitalize() if k == 2 else bytes(c ^ 32 if c > 64 and rnd(2) else c for c in w)
            elif rnd(100) < level and re.fullmatch(rb"\w+", t) and not w.startswith(b"__") and toks[i + 1:i + 2] != [b"("] and toks[i + 1:i + 3] != [b" ", b"="]:
                t = b"[" + t + b"]"
        elif t[:1] == b"@" and rnd(100) < level:
            t = bytes(c ^ 32 if 64 < (c & 0xdf) < 91 and rnd(2) else c for c in t)
        elif t in (b",", b"(", b")", b"=", b"<>", b"<=", b">=", b"<", b">", b"+", b"%", b"|", b"&", b"^") and rnd(100) < level // 2:
            if t != b"(" or not (out and re.match(rb"\w", out[-1]) and out[-1].lower() not in KEYS):
                t = GAPS[rnd(len(GAPS))] + t
            t += GAPS[rnd(len(GAPS))]
        out.append(t)
    end = [b"", b"", b";", b" ;", b"\n", b" -- the end", b"\n/* end */", b";\n-- x\n", b" /**/;"][rnd(9)]
    start = [b"", b"", b" ", b"\n", b"-- first\n", b"/* a\nb */", b"\t"][rnd(7)]
    return start + b"".join(out) + end


def q_any(v, delim, how):
    need = delim in v or b'"' in v or b"\n" in v or b"\r" in v or v[:1] == b" " or v[-1:] == b" "
    if need or how == 2 or how == 1 and len(v) % 2:
        return b'"' + v.replace(b'"', b'""') + b'"'
    return v


class Eng:
    """hands on what the check asks for in another form"""

    def __init__(self, eng, box, case):
        self.eng, self.box, self.case = eng, box, case

    def cli(self, cwd, args, stdin="", timeout_ms=None):
        c = self.case
        i = args.index("-c")
        q = args[i + 1]
        q = respell(q if isinstance(q, bytes) else q.encode(), c["seed"], c["level"])
        rest = list(args[:i]) + list(args[i + 2:])
        if c["in"]:
            rest += ["-s", c["in"]]

        def go(more, q=q):
            a, si = rest + more, ""
            if c["feed"] == "c":
                a = a + ["-c", q]
            elif c["feed"] == "file":
                a = a + [self.box.aux_file("q.sql", q)]
            else:
                si = self.box.aux_file("q.sql", q)
            return self.eng.cli(cwd, a, stdin=si, timeout_ms=timeout_ms)
        r = go(c["extra"])
        if r.rc != 0 or c["check"] is None or b"into" in q.lower():
            return r
        self.alt(c["check"], r, go, q, args[args.index("-S") + 1] if "-S" in args else b",")
        return r

    def alt(self, kind, r, go, q, sep):
        sep = sep if isinstance(sep, bytes) else sep.encode()
        t = "\nquery: %s" % show(q)

        def fail(m, got):
            raise Fail("%s\n output: %r\nwithout: %r%s" % (m, got[:600], r.out[:600], t))
        r2 = go({"noheader": ["-h"], "crlf": ["-W"], "all": ["--out-std", "ALL"], "api": ["-A"], "quiet": ["-q"], "noisy": ["-v"], "plan": ["-p"]}[kind])
        if r2.crashed():
            raise Fail("with %s: %s%s" % (kind, r2.crashed(), t))
        if r2.rc != 0:
            fail("fails with %s: %s" % (kind, r2.msg()[-300:]), r2.out)
        recs = M.parse_csv(r.out, sep)
        if kind in ("quiet", "noisy"):
            if r2.out != r.out:
                fail("the output differs with %s" % kind, r2.out)
            if kind == "quiet" and b"affected" in r2.err:
                fail("-q is not quiet: %r" % r2.err[:300], r2.out)
        elif kind == "noheader":
            n = len(r.out) - len(r2.out)
            if not r.out.endswith(r2.out) or len(M.parse_csv(r.out[:n], sep)) != (1 if r.out else 0) or M.parse_csv(r2.out, sep) != recs[1:]:
                fail("-h does not leave out just the header", r2.out)
        elif kind == "crlf":
            if M.parse_csv(r2.out, sep) != recs or r2.out.count(b"\r\n") < len(recs) or re.search(rb'^[^"\r]*\n', r2.out) and recs and recs[0]:
                fail("-W does not just end records by CR LF", r2.out)
        elif kind == "all":
            got = M.parse_csv(r2.out, sep)
            # NULL may stay without
            flat = [f for x in recs for f in x]
            n = r2.out.count(b'"') - 2 * sum(f.count(b'"') for f in flat)
            if got != recs or not 2 * sum(f != b"" for f in flat) <= n <= 2 * len(flat):
                fail("--out-std ALL does not just quote everything", r2.out)
        elif kind == "api":
            want = b"".join(b",".join(x) + b"\n" for x in recs[1:])
            if want != r2.out and not numeric_same(recs[1:], r2.out):
                fail("-A prints other values", r2.out)
        elif kind == "plan":
            if not r2.out.endswith(r.out) and r2.out != r.out:
                fail("-p changes the result", r2.out)

    def api(self, cwd, args, stdin="", timeout_ms=None):
        c = self.case
        args = list(args)
        if c["in"]:
            args.insert(0, b"in_delim=" + c["in"].encode())
        for i, a in enumerate(args):
            if isinstance(a, bytes) and a.startswith(b"plans="):
                args[i] = b"plans=" + respell(a[6:], c["seed"], c["level"])
        return self.eng.api(cwd, args, stdin=stdin, timeout_ms=timeout_ms)


def numeric_same(recs, out):
    lines = out.split(b"\n")[:-1]
    if any(b"," in f or b"\n" in f for r in recs for f in r):
        return True        # not to be told apart
    if len(lines) != len(recs):
        return False
    for l, r in zip(lines, recs):
        fs = l.split(b",")
        if len(fs) != len(r):
            return False
        for a, b in zip(fs, r):
            if a != b:
                try:
                    if float(a) != float(b):
                        return False
                except ValueError:
                    return False
    return True


class Box:
    def __init__(self, box, case):
        self.box, self.case = box, case

    def __getattr__(self, k):
        return getattr(self.box, k)

    def fresh(self, files):
        c = self.case
        if not c["store"]:
            return self.box.fresh(files)
        out = {}
        for n, d in files.items():
            delim = {"psv": b"|", "tsv": b"\t"}.get(n.rsplit(".", 1)[-1], b",")
            recs = M.parse_csv(d, delim)
            nd = c["in"].encode() if c["in"] else delim
            eol = b"\r\n" if c["crlf"] else b"\n"
            lines = []
            for r in recs:
                if r == [b""]:
                    lines.append(b'""')
                else:
                    lines.append(nd.join(q_any(v, nd, c["quote"]) for v in r))
            out[n] = eol.join(lines) + (b"" if c["noeol"] and lines and lines[-1] else eol)
        return self.box.fresh(out)


class Ctx2:
    def __init__(self, ctx, eng, box):
        self.ctx, self.eng, self.box = ctx, eng, box

    def __getattr__(self, k):
        return getattr(self.ctx, k)


class Spell(SqlProp):
    id = "S25"
    rule = "the query gives rows, and it or its tables are written in another form or its result is presented in another form"
    quick_s = 26

    def gen(self, src):
        k = src.weighted([(w, k) for k, (_, w) in sorted(SUBS.items())])
        case = SUBS[k][0].gen(src)
        case["k"] = k
        case["seed"] = src.int(0, 1 << 30)
        case["level"] = src.choice([0, 20, 50, 90])
        case["store"] = k not in ("change", "flow") and src.bool(0.6)
        case["in"] = src.choice([";", "~", "\t", "::", ","]) if case["store"] and src.bool(0.25) else None
        case["quote"] = src.int(0, 2)
        case["crlf"], case["noeol"] = src.bool(0.4), src.bool(0.3)
        case["feed"] = src.choice(["c", "file", "stdin"])
        case["extra"] = src.choice([[], [], ["-q"], ["-v"]]) if k not in ("change", "flow") else []
        case["check"] = src.choice([None, "noheader", "crlf", "all", "api", "quiet", "noisy", "plan"]) if k not in ("change", "flow") else None
        if case["check"]:
            case["view"] = "cli"
        return case

    def run(self, ctx, case):
        sub = SUBS[case["k"]][0]
        box = Box(ctx.box, case)
        try:
            info = sub.run(Ctx2(ctx, Eng(ctx.eng, ctx.box, case), box), case)
        except Fail as e:
            if "\nquery: " in str(e) and case["level"] == 0 and not case["store"]:
                raise
            sql = self.text(case)
            raise Fail("%s\nwritten as: %s (%s)\nstored: %s" % (e, show(respell(sql, case["seed"], case["level"])), case["feed"],
                       "quote=%s crlf=%s in=%r no last line end=%s" % (case["quote"], case["crlf"], case["in"], case["noeol"]) if case["store"] else "as is"))
        return {"nontrivial": bool(info.get("nontrivial")) and bool(case["level"] or case["store"] or case["check"]),
                "tags": [case["k"], case["feed"]] + ([case["check"]] if case["check"] else []) + (["stored"] if case["store"] else [])}

    def text(self, case):
        if case["k"] == "flow":
            t = SUBS["flow"][0].text(case["body"], case["sep"])
            return t if isinstance(t, bytes) else t.encode()
        return M.r_change(case["q"]) if case["k"] == "change" else M.r_select(case["q"])

    def show(self, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        sql = self.text(case)
        return {"sql": show(respell(sql, case["seed"], case["level"])), "files": {k: v.decode("utf8", "backslashreplace")[:3000] for k, v in S.files_of(ts).items()},
                "view": case.get("view"), "feed": case["feed"], "check": case["check"], "stored": {k: case[k] for k in ("store", "in", "quote", "crlf", "noeol")}}


PROPS = [Spell]
