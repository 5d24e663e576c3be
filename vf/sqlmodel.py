"""Reference semantics of the SQL subset, over lists (JSON-able ASTs).

Values: None (NULL), int, float, bytes.  Types: 'S', 'I', 'F'.
Expressions
  ["c", alias, column, kind]   column reference; kind is what the generator knows about it
  ["i", n] ["f", text] ["s", bytes] ["null"]
  ["u", op, e]  ["b", op, e, e]
  ["case", [[cond, e]...], else or None]        with a fourth element: written CASE x WHEN v; every cond is ["cmp", "=", x, v]
  ["fn", NAME, [e...]]  ["cast", e, type, n or None]
  ["agg", NAME, e or None]
  ["ss", select]               scalar subquery
Conditions
  ["cmp", op, e, e] ["like", neg, e, pattern bytes] ["in", neg, e, [e...]]
  ["insub", neg, e, select] ["isnull", neg, e]
  ["and", c, c] ["or", c, c] ["not", c] ["par", c]
Select
  {"distinct","top","cols":[[e, alias or None]...] , "from": src or None, "joins": [[kind, src, cond or None]...],
   "where","group":[e...],"having","order":[[e, desc]...],"union":[select...]}
  src = ["t", file name, alias] or ["q", select, alias]
"""
import re
import struct


class QueryError(Exception):
    """the engine has to refuse or abort this query"""


class OutOfModel(Exception):
    """the model makes no statement about this"""


LMAX = 2 ** 63 - 1
LMIN = -2 ** 63
SPACE = b" \t\n\v\f\r"


# ---------------------------------------------------------------- values
def fmt(v):
    """text form of a non-NULL value"""
    if isinstance(v, bytes):
        return v
    if isinstance(v, bool):
        raise AssertionError
    if isinstance(v, int):
        return b"%d" % v
    return b"%f" % v


_int_re = re.compile(rb"^[ \t\n\v\f\r]*[+-]?[0-9]+$")
_flt_re = re.compile(rb"^[ \t\n\v\f\r]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$")


def to_int(v):
    if v is None or isinstance(v, int):
        return v
    if isinstance(v, float):
        if not -2.0 ** 63 <= v < 2.0 ** 63:
            raise QueryError("out of range: %r" % v)
        return int(v)
    if v == b"":
        return 0
    if re.match(rb"^0x[0-9a-fA-F]+$", v):
        n = int(v, 16)
    elif not _int_re.match(v):
        raise QueryError("not an int: %r" % v)
    else:
        n = int(v)
    if not LMIN <= n <= LMAX:
        raise QueryError("out of range: %r" % v)
    return n


def to_float(v):
    if v is None or isinstance(v, float):
        return v
    if isinstance(v, int):
        return float(v)
    if v == b"":
        return 0.0
    if not _flt_re.match(v):
        if re.match(rb"^[ \t\n\v\f\r]*[+-]?(0[xX]|[iI]|[nN])", v):
            raise OutOfModel        # strtod knows more notations
        raise QueryError("not a float: %r" % v)
    return float(v)


def conv(v, t):
    if v is None:
        return None
    return {"I": to_int, "F": to_float, "S": fmt}[t](v)


def unify(a, b):
    if a == b:
        return a
    if a == "S":
        return b
    if b == "S":
        return a
    return "F"


def fold(b):
    """comparison key of a string: case-insensitive (ASCII), trailing blanks ignored"""
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b.rstrip(SPACE))


def key(v):
    return fold(v) if isinstance(v, bytes) else v


def utf8_chars(b):
    """list of byte sequences, or QueryError"""
    out = []
    i = 0
    while i < len(b):
        c = b[i]
        n = 1 if c < 0x80 else 2 if c & 0xE0 == 0xC0 else 3 if c & 0xF0 == 0xE0 else 4 if c & 0xF8 == 0xF0 else 0
        if n == 0 or i + n > len(b):
            raise QueryError("invalid utf-8")
        out.append(b[i:i + n])
        i += n
    return out


def chk(n):
    if not LMIN <= n <= LMAX:
        raise QueryError("overflow")
    return n


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def like_match(s, pat):
    """reference LIKE: case-insensitive; % any run, _ one byte, [..] one byte of a set"""
    toks = []
    i = 0
    while i < len(pat):
        c = pat[i:i + 1]
        if c == b"%":
            toks.append(("%", None))
        elif c == b"_":
            toks.append(("_", None))
        elif c == b"[":
            if b"]" not in pat[i + 2:]:
                raise OutOfModel            # no such pattern is defined
            j = pat.index(b"]", i + 1)
            body = pat[i + 1:j]
            toks.append(("set", _cset(body)))
            i = j
        else:
            toks.append(("c", c.lower()[0]))
        i += 1
    s = s.lower()
    # dynamic programming over token positions
    cur = {0}

    def close(st):
        out = set(st)
        work = list(st)
        while work:
            p = work.pop()
            if p < len(toks) and toks[p][0] == "%" and p + 1 not in out:
                out.add(p + 1)
                work.append(p + 1)
        return out
    cur = close(cur)
    for ch in s:
        nx = set()
        for p in cur:
            if p == len(toks):
                continue
            k, a = toks[p]
            if k == "%":
                nx.add(p)
            elif k == "_":
                nx.add(p + 1)
            elif k == "c":
                if a == ch:
                    nx.add(p + 1)
            elif ch in a:
                nx.add(p + 1)
        cur = close(nx)
        if not cur:
            return False
    return len(toks) in cur


def _cset(body):
    neg = body[:1] == b"^"
    if neg:
        body = body[1:]
    out = set()
    i = 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1:i + 2] == b"-":
            for c in range(body[i], body[i + 2] + 1):
                out |= {c, ord(bytes([c]).lower()), ord(bytes([c]).upper())}
            i += 3
        else:
            c = body[i]
            out |= {ord(bytes([c]).lower()), ord(bytes([c]).upper())}
            i += 1
    if neg:
        return set(range(256)) - out
    return out


# ---------------------------------------------------------------- rendering
def q_str(b):
    return b"'" + b.replace(b"'", b"''") + b"'"


def r_expr(e, top=False):
    k = e[0]
    if k == "c":
        name = b"[" + e[2].encode() + b"]" if not re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", e[2]) else e[2].encode()
        return name if e[1] is None else e[1].encode() + b"." + name
    if k == "i":
        return b"%d" % e[1] if e[1] >= 0 else b"(%d)" % e[1]
    if k == "f":
        return e[1].encode()
    if k == "s":
        return q_str(e[1])
    if k == "null":
        return b"NULL"
    if k == "u":
        return b"(" + e[1].encode() + r_expr(e[2]) + b")"
    if k == "b":
        t = r_expr(e[2]) + b" " + e[1].encode() + b" " + r_expr(e[3])
        return t if top else b"(" + t + b")"
    if k == "case":
        t = b"case"
        simple = len(e) > 3
        if simple:
            t += b" " + r_expr(e[1][0][0][2])
        for c, v in e[1]:
            t += b" when " + (r_expr(c[3]) if simple else r_cond(c)) + b" then " + r_expr(v)
        if e[2] is not None:
            t += b" else " + r_expr(e[2])
        return t + b" end"
    if k == "fn":
        return e[1].encode() + b"(" + b", ".join(r_expr(a, True) for a in e[2]) + b")"
    if k == "cast":
        t = e[2].encode()
        if e[3] is not None:
            t += b"(%d)" % e[3]
        return b"cast(" + r_expr(e[1], True) + b" as " + t + b")"
    if k == "agg":
        return e[1].encode() + b"(" + (b"*" if e[2] is None else r_expr(e[2], True)) + b")"
    if k == "ss":
        return b"(" + r_select(e[1]) + b")"
    if k == "v":
        return e[1].encode()
    if k == "al":
        n = e[2].encode()
        return n if re.fullmatch(rb"\w+", n) else b"[" + n + b"]"
    raise AssertionError(e)


def r_cond(c, ctx=0):
    """ctx: 0 top, 1 inside OR, 2 inside AND, 3 under NOT"""
    k = c[0]
    n = b"not " if k in ("like", "in", "insub", "isnull") and c[1] else b""
    if k == "cmp":
        return r_expr(c[2], True) + b" " + c[1].encode() + b" " + r_expr(c[3], True)
    if k == "like":
        p = c[3]
        return r_expr(c[2]) + b" " + n + b"like " + (q_str(p) if isinstance(p, bytes) else r_expr(p))
    if k == "in":
        return r_expr(c[2]) + b" " + n + b"in (" + b", ".join(r_expr(x, True) for x in c[3]) + b")"
    if k == "insub":
        return r_expr(c[2]) + b" " + n + b"in (" + r_select(c[3]) + b")"
    if k == "isnull":
        return r_expr(c[2]) + b" is " + n + b"null"
    if k == "and":
        t = r_cond(c[1], 2) + b" and " + r_cond(c[2], 2)
        return b"(" + t + b")" if ctx >= 3 else t
    if k == "or":
        t = r_cond(c[1], 1) + b" or " + r_cond(c[2], 1)
        return b"(" + t + b")" if ctx >= 2 else t
    if k == "not":
        return b"not " + r_cond(c[1], 3)
    if k == "par":
        return b"(" + r_cond(c[1]) + b")"
    raise AssertionError(c)


def r_src(s):
    if s[0] == "t":
        n = s[1].encode()
        t = n if re.match(rb"^[A-Za-z_][A-Za-z0-9_]*$", n) else b"[" + n + b"]"
        return t + (b" " + s[2].encode() if s[2] and s[2] != s[1] else b"")
    return b"(" + r_select(s[1]) + b") " + s[2].encode()


def r_col(e, a):
    """an entry of the select list, its alias in one of the spellings"""
    if e == ["*"]:
        return b"*"
    t = r_expr(e, True)
    if not a:
        return t
    a = a.encode()
    n = (len(t) + 3 * len(a)) % 11
    if n != 2 and n != 3 and not re.fullmatch(rb"\w+", a):
        a = b"[" + a + b"]"
        n = 0 if n == 4 else n
    if n < 2 and not t.startswith(b"@"):
        return a + b" = " + t
    if n == 2:
        return t + b" as '" + a + b"'"
    if n == 3:
        return t + b" '" + a + b"'"
    if n == 4:
        return b"[" + a + b"] = " + t
    if n == 5:
        return t + b" " + a
    return t + b" as " + a


def r_select(q, into=None):
    t = b"select "
    if q.get("distinct"):
        t += b"distinct "
    if q.get("top") is not None:
        t += b"top %d " % q["top"]
    t += b", ".join(r_col(e, a) for e, a in q["cols"])
    if into:
        t += b" into [" + into.encode() + b"]"
    if q.get("from"):
        t += b" from " + r_src(q["from"])
        for kind, s, c in q.get("joins") or []:
            t += b" " + kind.encode() + b" " + r_src(s)
            if c is not None:
                t += b" on " + r_cond(c)
    if q.get("where") is not None:
        t += b" where " + r_cond(q["where"])
    if q.get("group"):
        t += b" group by " + b", ".join(r_expr(e, True) for e in q["group"])
    if q.get("having") is not None:
        t += b" having " + r_cond(q["having"])
    for u in q.get("union") or []:
        t += b" union all " + r_select(u)
    if q.get("order"):
        t += b" order by " + b", ".join(r_expr(e, True) + (b" desc" if d else b"") for e, d in q["order"])
    return t


# ---------------------------------------------------------------- evaluation


def r_change(q):
    """text of an UPDATE or DELETE statement; q["form"] picks the spelling"""
    tgt = q["from"][2] or q["from"][1]
    frm = b" from " + r_src(q["from"])
    for kind, s, c in q.get("joins") or []:
        frm += b", " + r_src(s) if kind == "," else b" %s %s" % (kind.encode(), r_src(s))
        if c is not None:
            frm += b" on " + r_cond(c)
    plain = not q.get("joins") and not q["from"][2]
    if q.get("set") is None:
        if plain and q.get("form") == 1:
            out = b"delete " + tgt.encode()
        elif plain and q.get("form") == 2:
            out = b"DELETE FROM " + tgt.encode()
        else:
            out = b"delete " + tgt.encode() + frm
    else:
        out = b"update " + tgt.encode() + b" set " + b", ".join(b"%s = %s" % (r_expr(["c", None, c, ""]), r_expr(e)) for c, e in q["set"])
        if not (plain and q.get("form")):
            out += frm
    if q.get("where") is not None:
        out += b" where " + r_cond(q["where"])
    return out


class DB:
    """tables: {file stem or alias name: (header [str], rows [[bytes|None]...])}"""

    def __init__(self, tables, char_as_byte=False, vars=None):
        self.t = tables
        self.cab = char_as_byte
        self.vars = vars or {}

    # -- static types
    def type(self, e, sc):
        k = e[0]
        if k == "c":
            return sc.coltype(e)
        if k == "i":
            return "I"
        if k == "f":
            return "F"
        if k in ("s", "null"):
            return "S"
        if k == "v":
            return self.vars[e[1]][0]
        if k == "u":
            return self.type(e[2], sc)
        if k == "b":
            return unify(self.type(e[2], sc), self.type(e[3], sc))
        if k == "case":
            vs = [v for _, v in e[1]] + ([e[2]] if e[2] is not None else [])
            t = self.type(vs[0], sc)
            for v in vs[1:]:
                t = unify(t, self.type(v, sc))
            return t
        if k == "fn":
            if e[1].upper() in ("LEN", "DATALENGTH"):
                return "I"
            if e[1].upper() == "ISNULL":
                return self.type(e[2][0], sc)
            return "S"
        if k == "cast":
            return {"int": "I", "bit": "I", "float": "F"}.get(e[2].lower(), "S")
        if k == "agg":
            return "I" if e[1].upper() == "COUNT" else self.type(e[2], sc)
        if k == "ss":
            s = self.scope(e[1])
            return self.type(e[1]["cols"][0][0], s)
        raise AssertionError(e)

    # -- scopes
    def scope(self, q):
        sc = Scope(self)
        if q.get("from"):
            sc.add(q["from"])
            for _, s, _c in q.get("joins") or []:
                sc.add(s)
        return sc

    def src_rows(self, s):
        if s[0] == "t":
            return self.t[s[1]][1]
        types, rows = self.select(s[1])[:2]
        out = []
        for r in rows:
            if None in r:
                raise OutOfModel      # whether NULL survives is not stated: it becomes an empty string
            out.append([fmt(v) for v in r])
        return out

    # -- scalar evaluation: env = {alias: row or None}; grp = list of envs for aggregates
    def ev(self, e, sc, env, grp=None):
        k = e[0]
        if k == "c":
            return sc.get(e, env)
        if k == "i":
            return e[1]
        if k == "f":
            return float(e[1])
        if k == "s":
            return e[1]
        if k == "null":
            return None
        if k == "v":
            return self.vars[e[1]][1]
        if k == "u":
            t = self.type(e, sc)
            v = conv(self.ev(e[2], sc, env, grp), t)
            if v is None:
                return None
            if e[1] == "~":
                if t != "I":
                    raise QueryError("type")
                return ~v
            return chk(-v) if t == "I" else -v
        if k == "b":
            t = self.type(e, sc)
            a = conv(self.ev(e[2], sc, env, grp), t)
            if a is None:
                return None
            b = conv(self.ev(e[3], sc, env, grp), t)
            if b is None:
                return None
            return self.arith(e[1], t, a, b)
        if k == "case":
            t = self.type(e, sc)
            for c, v in e[1]:
                if self.cond(c, sc, env, grp):
                    return conv(self.ev(v, sc, env, grp), t)
            if e[2] is not None:
                return conv(self.ev(e[2], sc, env, grp), t)
            return None
        if k == "fn":
            return self.fn(e[1].upper(), e[2], sc, env, grp)
        if k == "cast":
            v = self.ev(e[1], sc, env, grp)
            if v is None:
                return None
            ty = e[2].lower()
            if ty == "int":
                return to_int(v)
            if ty == "bit":
                return int(to_int(v) != 0)
            if ty == "float":
                return to_float(v)
            v = fmt(v)
            if e[3] is None:
                return v
            if ty == "char":
                if not v.isascii():
                    raise OutOfModel      # bytes or characters: undocumented
                return v[:e[3]].ljust(e[3])
            return b"".join(self.chars(v)[:e[3]])
        if k == "agg":
            return self.agg(e, sc, grp)
        if k == "ss":
            _, rows = self.select(e[1])[:2]
            if len(rows) > 1:
                raise QueryError("scalar subquery with several rows")
            return rows[0][0] if rows else None
        raise AssertionError(e)

    def arith(self, op, t, a, b):
        if t == "S":
            if op == "+":
                return a + b
            raise QueryError("type")
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                raise QueryError("division by zero")
            r = cdiv(a, b) if t == "I" else a / b
        elif t == "F":
            raise QueryError("type")
        elif op == "%":
            if b == 0:
                raise QueryError("division by zero")
            r = a - b * cdiv(a, b)
        elif op == "&":
            r = a & b
        elif op == "|":
            r = a | b
        elif op == "^":
            r = a ^ b
        else:
            raise AssertionError(op)
        if t == "I":
            return chk(r)
        if r != r or abs(r) > 1e300:
            raise OutOfModel
        return r

    def chars(self, b):
        return [b[i:i + 1] for i in range(len(b))] if self.cab else utf8_chars(b)

    def fn(self, name, args, sc, env, grp):
        def s(i):
            v = self.ev(args[i], sc, env, grp)
            return None if v is None else fmt(v)

        def n(i):
            return to_int(self.ev(args[i], sc, env, grp))
        if name == "ISNULL":
            t = self.type(args[0], sc)
            v = conv(self.ev(args[0], sc, env, grp), t)
            return v if v is not None else conv(self.ev(args[1], sc, env, grp), t)
        if name == "DATALENGTH":
            if self.type(args[0], sc) != "S":
                return 8
            v = s(0)
            return None if v is None else len(v)
        if name == "LEN":
            v = s(0)
            return None if v is None else len(self.chars(v.rstrip(SPACE)))
        if name in ("LEFT", "RIGHT"):
            v, c = s(0), n(1)
            if v is None or c is None:
                return None
            if c < 0:
                raise QueryError("negative length")
            ch = self.chars(v)
            return b"".join(ch[:c] if name == "LEFT" else ch[max(0, len(ch) - c):])
        if name == "SUBSTRING":
            v, st, c = s(0), n(1), n(2)
            if v is None or st is None or c is None:
                return None
            if c < 0:
                raise QueryError("negative length")
            ch = self.chars(v)
            lo = st - 1
            hi = lo + c
            return b"".join(ch[max(0, lo):max(0, hi)])
        if name == "REPLACE":
            h, nd, rp = s(0), s(1), s(2)
            if h is None or nd is None or rp is None:
                return None
            if nd == b"":
                return h
            out = b""
            i = 0
            lh, ln = h.lower(), nd.lower()
            while i < len(h):
                if lh.startswith(ln, i):
                    out += rp
                    i += len(nd)
                else:
                    out += h[i:i + 1]
                    i += 1
            return out
        raise AssertionError(name)

    def agg(self, e, sc, grp):
        name = e[1].upper()
        if name == "COUNT":
            if e[2] is None:
                return len(grp)
            return sum(1 for env in grp if self.ev(e[2], sc, env) is not None)
        t = self.type(e[2], sc)
        vs = [conv(self.ev(e[2], sc, env), t) for env in grp]
        vs = [v for v in vs if v is not None]
        if not vs:
            return None
        if name == "MIN":
            return min(vs, key=key)
        if name == "MAX":
            return max(vs, key=key)
        tot = 0 if t == "I" else 0.0
        for v in vs:
            tot = tot + v
            if t == "I":
                chk(tot)
        if name == "SUM":
            return tot
        if name == "AVG":
            return cdiv(tot, len(vs)) if t == "I" else tot / len(vs)
        raise AssertionError(name)

    # -- conditions (two-valued; a comparison with NULL is false)
    neg = 0

    def unknown(self, negated=False):
        """a condition on NULL: false, but what its negation should be is open"""
        if negated or self.neg:
            raise OutOfModel
        return False

    def cond(self, c, sc, env, grp=None):
        k = c[0]
        if k == "and":
            return self.cond(c[1], sc, env, grp) and self.cond(c[2], sc, env, grp)
        if k == "or":
            return self.cond(c[1], sc, env, grp) or self.cond(c[2], sc, env, grp)
        if k == "not":
            self.neg += 1
            try:
                return not self.cond(c[1], sc, env, grp)
            finally:
                self.neg -= 1
        if k == "par":
            return self.cond(c[1], sc, env, grp)
        if k == "isnull":
            return (self.ev(c[2], sc, env, grp) is None) != bool(c[1])
        if k == "cmp":
            t = unify(self.type(c[2], sc), self.type(c[3], sc))
            a = conv(self.ev(c[2], sc, env, grp), t)
            if a is None:
                return self.unknown()
            b = conv(self.ev(c[3], sc, env, grp), t)
            if b is None:
                return self.unknown()
            return compare(c[1], a, b)
        if k == "like":
            a = self.ev(c[2], sc, env, grp)
            p = c[3] if isinstance(c[3], bytes) else self.ev(c[3], sc, env, grp)
            if a is None or p is None:
                return self.unknown(c[1])
            return like_match(fmt(a), fmt(p)) != bool(c[1])
        if k == "in":
            t = self.type(c[2], sc)
            for x in c[3]:
                t = unify(t, self.type(x, sc))
            a = conv(self.ev(c[2], sc, env, grp), t)
            if a is None:
                return self.unknown(c[1])
            hit = False
            for x in c[3]:
                v = conv(self.ev(x, sc, env, grp), t)
                if v is not None and compare("=", a, v):
                    hit = True
            return hit != bool(c[1])
        if k == "insub":
            q = c[3]
            types, rows = self.select(q)[:2]
            t = unify(self.type(c[2], sc), types[0])
            a = conv(self.ev(c[2], sc, env, grp), t)
            if a is None:
                return self.unknown(c[1])
            hit = any(r[0] is not None and compare("=", a, conv(r[0], t)) for r in rows)
            return hit != bool(c[1])
        raise AssertionError(c)

    # -- select: (types, rows, order keys or None)
    def envs(self, q, sc, left):
        """bindings of the sources of q that survive ON and WHERE, starting from rows of the first source"""
        envs = [{q["from"][2] or q["from"][1]: r} for r in left]
        for kind, s, c in q.get("joins") or []:
            al = s[2] or s[1]
            right = self.src_rows(s)
            if c is not None and self.keys_fail(c, sc, envs, [{al: r} for r in right]):
                raise OutOfModel        # a key of a row that is compared with nothing
            nx = []
            for e in envs:
                hit = False
                for r in right:
                    e2 = dict(e)
                    e2[al] = r
                    if c is None or self.cond(c, sc, e2):
                        nx.append(e2)
                        hit = True
                if not hit and kind.startswith("left"):
                    e2 = dict(e)
                    e2[al] = None
                    nx.append(e2)
            envs = nx
        if q.get("where") is not None:
            envs = [e for e in envs if self.cond(q["where"], sc, e)]
        return envs

    def keys_fail(self, c, sc, left, right):
        """some row's side of an equality has no value, whether or not there is something to compare it with"""
        if c[0] in ("and", "or"):
            return any(self.keys_fail(x, sc, left, right) for x in c[1:])
        if c[0] != "cmp" or c[1] != "=":
            return False
        a, b = self.type(c[2], sc), self.type(c[3], sc)
        t = unify(a, b)
        if t == "S" or a == b and c[2][0] == "c" and c[3][0] == "c":
            return False
        for x in c[2:4]:
            for e in left + right:
                try:
                    conv(self.ev(x, sc, e), t)
                except QueryError:
                    return True
                except KeyError:
                    pass
        return False

    def const_error(self, q):
        """a constant part of the statement has no value: whether that matters when no row reaches it is nowhere promised"""
        KINDS = ("i", "f", "s", "null", "u", "b", "case", "fn", "cast")
        hit = []

        def const(x):
            if isinstance(x, (list, tuple)):
                if x and isinstance(x[0], str) and x[0] in ("c", "agg", "ss", "insub", "al", "v"):
                    return False
                return all(const(y) for y in x)
            return not isinstance(x, dict)

        def walk(x):
            if isinstance(x, dict):
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                if x and isinstance(x[0], str) and x[0] in KINDS and const(x):
                    try:
                        self.ev(x, Scope(self), {})
                    except QueryError:
                        hit.append(x)
                    except Exception:
                        pass        # not an expression after all
                    else:
                        return
                for y in x:
                    walk(y)
        walk(q)
        return bool(hit)

    def change(self, q):
        """DELETE (q["set"] is None) or UPDATE: per row of the first source the list of rows it may become; None for deleted"""
        sc = self.scope(q)
        self.may_fail = None
        out = []
        hdr = self.t[q["from"][1]][0]
        types = [self.type(e, sc) for _, e in q.get("set") or []]
        for r in self.src_rows(q["from"]):
            m = self.envs(q, sc, [r])
            if not m:
                out.append([r])
            elif q.get("set") is None:
                out.append(None)
            else:
                alts = []
                failed = None
                for env in m:
                    n = [b"" if x is None else x for x in r] + [b""] * (len(hdr) - len(r))
                    try:
                        for (c, e), t in zip(q["set"], types):
                            v = conv(self.ev(e, sc, env), t)
                            n[hdr.index(c)] = b"" if v is None else fmt(v)
                    except QueryError as x:
                        # which of several matching rows gives the value is open
                        self.may_fail = failed = x
                        continue
                    alts.append(n)
                if not alts:
                    raise failed
                out.append(alts)
        return out

    def select(self, q, sort=True):
        sc = self.scope(q)
        if q.get("from"):
            envs = self.envs(q, sc, self.src_rows(q["from"]))
        else:
            envs = [{}]
            if q.get("where") is not None:
                envs = [e for e in envs if self.cond(q["where"], sc, e)]
        cols = []
        for e, a in q["cols"]:
            if e == ["*"]:
                cols += sc.star()
            else:
                cols.append(e)
        types = [self.type(e, sc) for e in cols]
        okeys = None
        has_agg = any(_has_agg(e) for e in cols)
        if q.get("group") or has_agg or q.get("having") is not None:
            groups = {}
            for e in envs:
                k = tuple(key(self.ev(g, sc, e)) for g in q.get("group") or [])
                groups.setdefault(k, []).append(e)
            if not q.get("group") and not groups:
                groups[()] = []
            out = []
            for k, g in groups.items():
                env = g[0] if g else {}
                if q.get("having") is not None and not self.cond(q["having"], sc, env, g):
                    continue
                out.append((env, g))
        else:
            out = [(e, None) for e in envs]
        rows = [[conv(self.ev(c, sc, env, g), t) for c, t in zip(cols, types)] for env, g in out]
        if q.get("distinct"):
            seen = {}
            keep = []
            for i, r in enumerate(rows):
                k = tuple(key(v) for v in r)
                if k not in seen:
                    seen[k] = 1
                    keep.append(i)
            rows = [rows[i] for i in keep]
            out = [out[i] for i in keep]
        if q.get("order") and not q.get("union"):
            okeys = []
            for env, g in out:
                okeys.append([self.ev(cols[o[0][1] - 1] if o[0][0] == "i" else cols[o[0][1]] if o[0][0] == "al" else o[0], sc, env, g) for o in q["order"]])
        if okeys is not None and sort:
            idx = list(range(len(rows)))
            kk = [[(0, key(v)) if v is not None else (-1, 0) for v in ks] for ks in okeys]
            for i in reversed(range(len(q["order"]))):
                idx.sort(key=lambda r: kk[r][i], reverse=bool(q["order"][i][1]))
            n = q.get("top")
            if n is not None:
                if 0 < n < len(idx) and kk[idx[n - 1]] == kk[idx[n]] and rows[idx[n - 1]] != rows[idx[n]]:
                    raise OutOfModel
                idx = idx[:n]
            rows = [rows[i] for i in idx]
        elif q.get("top") is not None:
            if q.get("order") and not q.get("union"):
                raise OutOfModel
            rows = rows[:q["top"]]
        for u in q.get("union") or []:
            ty2, r2 = self.select(u)[:2]
            nt = [unify(a, b) for a, b in zip(types, ty2)]
            rows = [[conv(v, t) for v, t in zip(r, nt)] for r in rows] + \
                   [[conv(v, t) for v, t in zip(r, nt)] for r in r2]
            types = nt
        if q.get("order") and q.get("union"):
            okeys = [[r[o[0][1] - 1 if o[0][0] == "i" else o[0][1]] for o in q["order"]] for r in rows]
            if sort:
                kk = [[(0, key(v)) if v is not None else (-1, 0) for v in ks] for ks in okeys]
                idx = list(range(len(rows)))
                for i in reversed(range(len(q["order"]))):
                    idx.sort(key=lambda r: kk[r][i], reverse=bool(q["order"][i][1]))
                rows, okeys = [rows[i] for i in idx], [okeys[i] for i in idx]
        return types, rows, okeys


def _has_agg(e):
    if not isinstance(e, list):
        return False
    if e and e[0] == "agg":
        return True
    if e and e[0] == "ss":
        return False
    return any(_has_agg(x) for x in e[1:])


def compare(op, a, b):
    a, b = key(a), key(b)
    return {"=": a == b, "<>": a != b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


class Scope:
    def __init__(self, db):
        self.db = db
        self.src = []   # (alias, header, types)

    def add(self, s):
        al = s[2] or s[1]
        if s[0] == "t":
            h = self.db.t[s[1]][0]
            self.src.append((al, h, ["S"] * len(h)))
        else:
            q = s[1]
            sc = self.db.scope(q)
            names, types = [], []
            for e, a in q["cols"]:
                if e == ["*"]:
                    for x in sc.star():
                        names.append(x[2])
                        types.append(self.db.type(x, sc))
                else:
                    names.append(a or (e[2] if e[0] == "c" else ""))
                    types.append(self.db.type(e, sc))
            for u in q.get("union") or []:
                us = self.db.scope(u)
                uc = []
                for e, a in u["cols"]:
                    uc += us.star() if e == ["*"] else [e]
                types = [unify(t, self.db.type(e, us)) for t, e in zip(types, uc)]
            self.src.append((al, names, types))

    def star(self):
        return [["c", al, n, ""] for al, h, _ in self.src for n in h]

    def find(self, e):
        for al, h, t in self.src:
            if e[1] is None:
                for i, n in enumerate(h):
                    if n.lower() == e[2].lower():
                        return al, i, t[i]
            elif al.lower() == e[1].lower():
                for i, n in enumerate(h):
                    if n.lower() == e[2].lower():
                        return al, i, t[i]
        raise AssertionError("no column %r in %r" % (e, self.src))

    def coltype(self, e):
        return self.find(e)[2]

    def get(self, e, env):
        al, i, t = self.find(e)
        row = env.get(al)
        if row is None or i >= len(row):
            return None
        return conv(row[i], t)


# ---------------------------------------------------------------- text tables
def q_field(v, delim, quote_all=False):
    if quote_all or delim in v or b'"' in v or b"\n" in v or b"\r" in v or v[:1] in (b" ",) or v[-1:] in (b" ",):
        return b'"' + v.replace(b'"', b'""') + b'"'
    return v


def write_csv(header, rows, delim=b",", eol=b"\n", last_eol=True):
    lines = [delim.join(q_field(h.encode(), delim) for h in header)]
    for r in rows:
        if len(r) == 1 and r[0] == b"":
            lines.append(b'""')
        else:
            lines.append(delim.join(q_field(v, delim) for v in r))
    return eol.join(lines) + (eol if last_eol else b"")


def parse_csv(data, delim=b","):
    """strict RFC-4180 style reader -> list of records (lists of bytes)"""
    recs = []
    rec = []
    cur = bytearray()
    i = 0
    n = len(data)
    started = False
    while i < n:
        if data[i:i + 1] == b'"':
            started = True
            i += 1
            while True:
                if i >= n:
                    raise ValueError("unterminated quote in output")
                if data[i:i + 1] == b'"':
                    if data[i + 1:i + 2] == b'"':
                        cur += b'"'
                        i += 2
                        continue
                    i += 1
                    break
                cur += data[i:i + 1]
                i += 1
            continue
        if data.startswith(delim, i):
            rec.append(bytes(cur))
            cur.clear()
            started = True
            i += len(delim)
            continue
        if data[i:i + 1] == b"\n" or data[i:i + 2] == b"\r\n":
            rec.append(bytes(cur))
            cur.clear()
            recs.append(rec)
            rec = []
            started = False
            i += 1 if data[i:i + 1] == b"\n" else 2
            continue
        cur += data[i:i + 1]
        started = True
        i += 1
    if started:
        rec.append(bytes(cur))
        recs.append(rec)
    return recs


def float_same(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b) or a == b
