"""Generators of tables, expressions and queries for the SQL subset of sqlmodel."""
from . import sqlmodel as M

TXT = [b"a", b"b", b"A", b"ab", b"", b"x", b"abc", b"Ab ", b"B", b"zz", b"a,b", b'q"q', b"it's", b"1", b"02", b"0x1", b"foo bar",
       "é".encode(), "naïve".encode(), "日本".encode(), b"100%", b"a_b", b"[a]", b"a.b", b"-", b"a\tb", b"NULL", b"null", b"a|b", b"z" * 40]
KEYS = [b"k1", b"K1", b"k2", b"k3", b"k1 ", b"k", b"kk1", b"1", b"01"]
INTS = [0, 1, 2, 3, -1, 5, 7, 10, 32, 65, 97, 100, -50, 8224, 1000000, 33, -97]
BIG = [2 ** 63 - 1, 2 ** 63 - 2, 2 ** 62, 3037000499, 3037000500, 2 ** 32, 2 ** 31, 4611686018427387905, 9223372036854775, -2 ** 63, -2 ** 63 + 1, -2 ** 62, 0]
S_SMALL = [0, 1, 2, 3, 5, 7, 10, 8, 4]
FLTS = ["0.5", "1.5", "-2.25", "3.0", "10.125", "0.0", "100.75", "-0.5", "65.0", "2.5"]
COLN = ["a", "b", "c", "id", "Val", "name", "x y", "n1"]


def g_val(src, kind):
    if kind == "int":
        if src.bool(0.08):
            return b"%d" % src.int(-10 ** 6, 10 ** 6)
        v = src.choice(INTS)
        if src.bool(0.04):
            return b" %d" % v
        if src.bool(0.03):
            return b"+%d" % abs(v)
        if src.bool(0.03):
            return b"00%d" % abs(v)
        if src.bool(0.03):
            return b""
        return b"%d" % v
    if kind == "flt":
        if src.bool(0.1):
            return b"%d" % src.choice(INTS)
        if src.bool(0.05):
            return b"%d.%03d" % (src.int(0, 999), src.int(0, 999))
        if src.bool(0.03):
            return b"1e2"
        return src.choice(FLTS).encode()
    if kind == "key":
        return src.choice(KEYS)
    if src.bool(0.1):
        n = src.count(1, 12)
        return bytes(src.choice(b"abAB xyz019._%") for _ in range(n))
    return src.choice(TXT)


class Table:
    def __init__(self, name, file, delim, cols, rows):
        self.name, self.file, self.delim, self.cols, self.rows = name, file, delim, cols, rows

    def header(self):
        return [c for c, _ in self.cols]

    def dump(self):
        return {"name": self.name, "file": self.file, "delim": self.delim,
                "cols": [list(c) for c in self.cols], "rows": self.rows}

    @staticmethod
    def load(d):
        return Table(d["name"], d["file"], d["delim"], d["cols"], d["rows"])

    def bytes(self):
        return M.write_csv(self.header(), self.rows, self.delim)


def safe_rows(rows, delim):
    """values that the CSV reader hands over unchanged: no leading/trailing-blank games"""
    return rows


def g_table(src, i, kinds=None, max_rows=8, ragged=0.0, min_rows=0, nolines=True, delims=True, rows=None):
    ncol = len(kinds) if kinds else src.int(1, 4)
    names = src.sample(COLN, ncol)
    if kinds is None:
        kinds = [src.weighted([(3, "txt"), (3, "int"), (2, "key"), (2, "flt")]) for _ in range(ncol)]
    delim = src.weighted([(5, b","), (1, b"|"), (1, b"\t")]) if delims else b","
    nr = rows if rows is not None else src.count(min_rows, int(max_rows * src.size) + min_rows, 0.82)
    out = []
    for _ in range(nr):
        r = [g_val(src, k) for k in kinds]
        if ragged and ncol > 1 and src.bool(ragged):
            r = r[:src.int(1, ncol - 1)]
        out.append(r)
    if max_rows >= 60 and out and src.size > 0.5 and src.bool(0.2):
        # more rows than there are records in flight
        n = src.int(50, 2 * max_rows)
        out = [out[(i * 7 + i // 11) % len(out)] if i % 5 else out[i % len(out)] for i in range(n)]
    if ncol == 1:
        delim = b","      # nothing in the header tells otherwise
    ext = {b",": "csv", b"|": "psv", b"\t": "tsv"}[delim]
    return Table("t%d" % i, "t%d.%s" % (i, ext), delim, list(zip(names, kinds)), out)


def files_of(tables):
    return {t.file: t.bytes() for t in tables}


def db_of(tables, **kw):
    return M.DB({t.name: (t.header(), t.rows) for t in tables}, **kw)


class G:
    """expressions over visible columns: vis = [(alias or None, col, kind)]"""

    def __init__(self, src, vis, nulls=False, depth=3, tables=None, subq=False, fns=True):
        self.s, self.vis, self.nulls, self.d, self.tables, self.subq, self.fns = src, vis, nulls, depth, tables or [], subq, fns
        self.pool = None        # table whose values make good literals
        self.risky = False      # operands that overflow, divide by zero or are not numbers

    def cols(self, kinds):
        return [v for v in self.vis if v[2] in kinds]

    def col(self, kinds):
        v = self.s.choice(self.cols(kinds))
        return ["c", v[0], v[1], v[2]]

    # an expression of static type I
    def int(self, d=None):
        s = self.s
        d = self.d if d is None else d
        opts = [(3, "lit")]
        if self.cols(("int", "num")):
            opts += [(5, "col")]
        if d > 0:
            opts += [(4, "bin"), (1, "neg"), (1, "case")]
            if self.fns:
                opts += [(1, "len")]
            opts += [(1, "bit")]
        k = s.weighted(opts)
        if k == "lit":
            if self.risky and s.bool(0.4):
                n = s.choice(BIG)
                return ["i", n] if n >= 0 else ["b", "-", ["u", "-", ["i", -n - 1]], ["i", 1]]
            return ["i", abs(s.choice(INTS))]
        if k == "col":
            c = self.col(("int", "num"))
            if self.risky and s.bool(0.04) and self.cols(("txt", "key")):
                c = self.col(("txt", "key"))
            return ["b", "+", c, ["i", s.choice([0, 1, 3])]] if s.bool() else ["cast", c, "int", None]
        if k == "bin":
            op = s.choice(["+", "-", "*", "+", "-", "/", "%"])
            a = self.int(d - 1)
            b = ["i", s.choice([1, 2, 3, 7])] if op in "/%" and not (self.risky and s.bool()) else self.int(d - 1)
            return ["b", op, a, b]
        if k == "bit":
            return ["b", s.choice(["&", "|", "^"]), self.int(d - 1), self.int(d - 1)]
        if k == "neg":
            return ["u", s.choice(["-", "-", "~"]), self.int(d - 1)]
        if k == "len":
            return ["fn", s.choice(["len", "LEN", "datalength"]), [self.str(d - 1)]]
        return self.case(self.int, d)

    def flt(self, d=None):
        s = self.s
        d = self.d if d is None else d
        opts = [(3, "lit")]
        if self.cols(("flt",)):
            opts += [(5, "col")]
        if d > 0:
            opts += [(3, "bin"), (1, "neg"), (1, "mix"), (1, "case")]
        k = s.weighted(opts)
        if k == "lit":
            return ["f", s.choice(FLTS).lstrip("-")]
        if k == "col":
            c = self.col(("flt", "int") if s.bool(0.2) else ("flt",))
            return ["b", "*", c, ["f", "1.5"]] if s.bool() else ["cast", c, "float", None]
        if k == "bin":
            op = s.choice(["+", "-", "*", "/"])
            return ["b", op, self.flt(d - 1), ["f", s.choice(["2.0", "0.5", "4.0"])] if op == "/" else self.flt(d - 1)]
        if k == "mix":
            a, b = self.int(d - 1), self.flt(d - 1)
            if s.bool():
                a, b = b, a
            return ["b", s.choice(["+", "-", "*"]), a, b]
        if k == "neg":
            return ["u", "-", self.flt(d - 1)]
        return self.case(self.flt, d)

    def str(self, d=None):
        s = self.s
        d = self.d if d is None else d
        opts = [(3, "lit")]
        if self.cols(("txt", "key", "int", "flt")):
            opts += [(6, "col")]
        if d > 0:
            opts += [(3, "cat"), (1, "case")]
            if self.fns:
                opts += [(3, "fn"), (1, "cast")]
        k = s.weighted(opts)
        if k == "lit":
            return ["s", s.choice(TXT)]
        if k == "col":
            return self.col(("txt", "key", "int", "flt"))
        if k == "cat":
            return ["b", "+", self.str(d - 1), self.str(d - 1)]
        if k == "cast":
            return ["cast", self.any(d - 1), s.choice(["varchar", "char"]), s.choice([1, 3, 8])]
        if k == "fn":
            f = s.choice(["left", "right", "substring", "replace", "isnull"])
            if f in ("left", "right"):
                return ["fn", f, [self.str(d - 1), ["i", s.choice([0, 1, 2, 3, 50])]]]
            if f == "substring":
                return ["fn", f, [self.str(d - 1), ["i", s.choice([1, 2, 3, 0, 9])], ["i", s.choice([0, 1, 2, 50])]]]
            if f == "isnull":
                return ["fn", f, [self.str(d - 1), self.str(d - 1)]]
            return ["fn", f, [self.str(d - 1), ["s", s.choice([b"a", b"b", b"ab", b"A", b"x", b",", b" "])], self.str(0)]]
        return self.case(self.str, d)

    def case(self, f, d):
        s = self.s
        n = s.int(1, 2)
        risky, self.risky = self.risky, False     # branches that are not taken must not matter
        if s.bool(0.3):
            ws = self.whens(f, d, n)
        else:
            ws = [[self.cond(d - 1), f(d - 1)] for _ in range(n)]
        out = ["case", ws, f(d - 1) if not self.nulls or s.bool(0.7) else None]
        if ws and ws[0][0][-1] == "when":
            for w in ws:
                w[0].pop()
            out.append("simple")
        self.risky = risky
        return out

    def whens(self, f, d, n):
        """CASE x WHEN v"""
        s = self.s
        d = min(d, 1)
        x = s.weighted([(3, "S"), (3, "I"), (1, "F")])
        if x == "S":
            e = self.col(("txt", "key", "int", "flt")) if s.bool(0.4) and self.cols(("txt", "key", "int", "flt")) else self.str(d)
            vs = [self.slit(e) if s.bool(0.7) else self.str(0) for _ in range(n)]
        elif x == "I":
            e = self.col(("int", "num")) if s.bool(0.4) and self.cols(("int", "num")) else self.int(d)
            vs = [["i", abs(s.choice(S_SMALL))] if s.bool(0.7) else self.int(0) for _ in range(n)]
        else:
            e = self.flt(d)
            vs = [["f", s.choice(FLTS).lstrip("-")] if s.bool(0.7) else self.int(0) for _ in range(n)]
        return [[["cmp", "=", e, v, "when"], f(d - 1)] for v in vs]

    def any(self, d=None):
        return self.s.weighted([(3, self.str), (3, self.int), (2, self.flt)])(d)

    def slit(self, col=None):
        """a text literal, often a value of the table"""
        s = self.s
        if self.pool and self.pool.rows and s.bool(0.7):
            v = s.choice(self.pool.rows)
            names = [c for c, _ in self.pool.cols]
            i = names.index(col[2]) if col is not None and col[0] == "c" and col[2] in names else s.below(len(names))
            if i < len(v):
                return ["s", v[i]]
        return ["s", s.choice(TXT + KEYS)]

    # conditions
    def cond(self, d=None):
        s = self.s
        d = self.d if d is None else d
        opts = [(6, "pred")]
        if d > 0:
            opts += [(2, "and"), (2, "or"), (0 if self.nulls else 2, "not"), (1, "par")]
        k = s.weighted(opts)
        if k == "pred":
            return self.pred(d)
        if k == "not":
            return ["not", self.cond(d - 1)]
        if k == "par":
            return ["par", self.cond(d - 1)]
        return [k, self.cond(d - 1), self.cond(d - 1)]

    def neg(self):
        return (not self.nulls) and self.s.bool(0.3)

    def pred(self, d):
        s = self.s
        opts = [(6, "cmp"), (2, "like"), (2, "in"), (1, "isnull")]
        if self.subq and self.tables and d > 0:
            opts += [(1, "insub")]
        k = s.weighted(opts)
        dd = min(d, 1)
        if k == "cmp":
            op = s.choice(["=", "<>", "<", "<=", ">", ">=", "!="])
            t = s.choice("SISF")
            if t == "S":
                a, b = self.str(dd), self.str(dd)
                if self.pool and s.bool(0.6) and self.cols(("txt", "key", "int", "flt")):
                    a = self.col(("txt", "key", "int", "flt"))
                if s.bool(0.5):
                    b = self.slit(a)
            elif t == "I":
                a, b = self.int(dd), self.int(dd)
                if self.cols(("int", "num")) and s.bool(0.6):
                    a = self.col(("int", "num"))
                    b = ["i", s.choice(INTS)] if s.bool(0.7) else self.int(dd)
            else:
                a, b = self.flt(dd), s.choice([self.flt, self.int])(dd)
                if self.cols(("flt",)) and s.bool(0.6):
                    a = self.col(("flt",))
                    b = ["f", s.choice(FLTS).lstrip("-")]
            if s.bool(0.3):
                a, b = b, a
            return ["cmp", op, a, b]
        if k == "like":
            return ["like", self.neg(), self.str(dd), g_like(s)]
        if k == "in":
            t = s.choice("SIF")
            n = s.int(1, 3)
            if t == "S":
                a = self.col(("txt", "key", "int", "flt")) if self.pool and s.bool(0.6) and self.cols(("txt", "key", "int", "flt")) else self.str(dd)
                return ["in", self.neg(), a, [self.slit(a) for _ in range(n)]]
            if t == "F":      # whole numbers and fractions in one list
                a = self.int(dd) if s.bool(0.6) else self.flt(dd)
                if self.cols(("int", "num", "flt")) and s.bool(0.4):
                    a = self.col(("int", "num", "flt"))
                k, n = s.int(0, n), n + 1
                return ["in", self.neg(), a, [["i", s.choice(INTS)] if i != k and s.bool() else
                                              ["f", s.choice(["0.5", "1.5", "2.5", "1.0", "2.0", "3.0", "0.25", "9.75", "10.5"])]
                                              for i in range(n)]]
            a = self.int(dd)
            if self.cols(("int", "num")) and s.bool(0.6):
                a = self.col(("int", "num"))
            return ["in", self.neg(), a, [["i", s.choice(INTS)] if s.bool(0.8) else self.int(0) for _ in range(n)]]
        if k == "isnull":
            return ["isnull", s.bool(0.5), self.str(dd) if not self.nulls else self.any(dd)]
        # IN (subquery)
        t = s.choice(self.tables)
        kinds = [kk for _, kk in t.cols]
        c = s.choice(t.cols)
        sub = {"cols": [[["c", None, c[0], c[1]], None]], "from": ["t", t.name, None]}
        if s.bool(0.4):
            sub["where"] = G(s, [(None, n, kk) for n, kk in t.cols], depth=1, fns=self.fns, nulls=self.nulls).cond(0)
        if c[1] in ("int", "flt") and s.bool(0.5):
            e = sub["cols"][0][0]
            sub["cols"][0][0] = ["b", "+", e, ["i", 0]] if c[1] == "int" else ["cast", e, "float", None]
            a = self.int(0) if c[1] == "int" else self.flt(0)
        else:
            a = self.str(0)
        return ["insub", self.neg(), a, sub]


def g_like(s):
    n = s.count(0, 5, 0.7)
    out = b""
    for _ in range(n):
        out += s.weighted([(4, b"%"), (2, b"_"), (3, s.choice([b"a", b"b", b"A", b"x", b"z", b"1", b".", b"*", b"+", b"(", b"|", b"\\", b"$", b"^", b"?", b"{", b")", b" "])),
                           (1, b"[a-c]"), (1, b"[ab]"), (1, b"[^a]"), (1, b"[0-9]")])
    return out


def vis_of(tables, qualify=True, aliases=None):
    out = []
    for i, t in enumerate(tables):
        al = (aliases[i] if aliases else t.name) if qualify else None
        for c, k in t.cols:
            out.append((al, c, k))
    return out
