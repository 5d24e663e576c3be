"""The containers and text functions of util/, against Python's."""
import re
import os

from . import build
from .pbt import Ctx, Discard, Fail, Prop
from .engine import Engine

SP = b" \t\n\v\f\r"


def hx(b):
    return b.hex() or "-"


def low(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


class UtilProp(Prop):
    level = "exploration"
    quick_s = 18
    kinds = ("asan", "asan", "asan", "plain")

    def prepare(self, tier):
        return {k: build.util(k) for k in sorted(set(self.kinds))}

    def open(self, payload, wid=0):
        ks = self.kinds
        c = Ctx({"bin": payload[ks[wid % len(ks)]]}, wid)
        return c

    def ask(self, ctx, ops, ms=None):
        r = ctx.eng._request("utl", ctx.box.dir, ops, "", ms)
        if r.crashed():
            n = r.res.count(b"\n")
            raise Fail("%s\noperation %d: %s\nall: %s" % (r.crashed(), n, ops[min(n, len(ops) - 1)], " ; ".join(ops)[:4000]))
        return r.res.decode().split("\n")[:-1]

    def run(self, ctx, case):
        m = self.model()
        ops = case["ops"]
        want = [m.step(o.split(" ")) for o in ops]
        got = self.ask(ctx, ops)
        for i, (o, w) in enumerate(zip(ops, want)):
            g = got[i] if i < len(got) else "(nothing)"
            if w is not None and g != w:
                raise Fail("%s answered %r, expected %r\nall: %s" % (o, g, w, " ; ".join(ops[:i + 1])[-4000:]))
        return self.info(m, ops)

    def show(self, case):
        return {"ops": [o[:200] for o in case["ops"]][:60]}


# ---------------------------------------------------------------- U01
class Hash:
    def __init__(self):
        self.d, self.most, self.over = {}, 0, 0

    def norm(self, k):
        if self.props & 1:
            k = low(k)
        if self.props & 2:
            k = k.rstrip(SP)
        return k

    def key(self, t):
        if self.kind == "c":
            return tuple(self.norm(bytes.fromhex(x.replace("-", ""))) for x in t.split(",") if x)
        return self.norm(bytes.fromhex(t.replace("-", "")))

    def step(self, w):
        if w[0] == "h.new":
            self.kind, self.props = w[1], int(w[2])
            return ""
        if w[0] == "h.put":
            k = self.key(w[1])
            if k in self.d:
                self.over += 1
            if self.kind == "u":
                self.d.setdefault(k, []).append(w[2])
            else:
                self.d[k] = w[2] if self.kind != "s" else "1"
            self.most = max(self.most, len(self.d))
            return ""
        if w[0] == "h.get":
            v = self.d.get(self.key(w[1]))
            if self.kind == "s":
                return "1" if v else "0"
            return "none" if v is None else ",".join(v) if self.kind == "u" else v
        if w[0] == "h.all":
            return " ".join([str(len(self.d))] + [",".join(v) if self.kind == "u" else v for v in self.d.values()])
        if w[0] == "h.clear":
            self.d = {}
        return ""


class HashTables(UtilProp):
    """U01"""
    id = "U01"
    rule = "at least four keys at once and a key set twice"
    model = Hash

    def gen(self, src):
        kind = src.choice("msuc")
        props = src.choice([0, 1, 2, 3])
        esize = src.choice([1, 4, 8, 13])
        ops = ["h.new %s %d %d %d" % (kind, props, src.choice([1, 2, 4, 16, 5, 100, 0]), esize)]
        style = src.choice(["few", "many", "bytes", "long"])

        def atom():
            if style == "few":
                return src.choice([b"", b"a", b"A", b"b", b"a ", b" a", b"ab", b"AB\t", b"Ab \n", b" ", b"\t", b"a\0", b"\0", b"\xc3\xa9", b"\xc3\x89", b"[", b"{", b"@", b"`"])
            if style == "many":
                n = b"%d" % src.below(src.choice([20, 2000]))
                return src.choice([b"k", b"K", b""]) + n + src.choice([b"", b"", b" ", b"\r"])
            if style == "bytes":
                return bytes(src.below(256) for _ in range(src.count(0, 6)))
            return bytes([97 + src.below(4), 32, 65 + src.below(2)][src.below(3)] for _ in range(src.int(0, 3))) + src.choice([b"x", b"X", b" "]) * src.choice([0, 1, 30, 300])

        def key():
            if kind != "c":
                return hx(atom())
            return ",".join(hx(atom()) for _ in range(src.count(1, 4, 0.5)))
        seen = []
        for _ in range(src.int(1, 6 if src.size < 1 else src.choice([10, 40, 160]))):
            k = src.choice(seen) if seen and src.bool(0.35) else key()
            c = src.weighted([(12, "put"), (8, "get"), (1, "all"), (0.3, "clear")]) if False else src.weighted([(36, "put"), (24, "get"), (3, "all"), (1, "clear")])
            if c == "put":
                seen.append(k)
                ops.append("h.put %s%s" % (k, "" if kind == "s" else " " + hx(bytes(src.below(256) for _ in range(esize)))))
            elif c == "get":
                ops.append("h.get " + k)
            elif c == "all":
                ops.append("h.all" if kind != "s" else "h.get " + k)
            else:
                ops.append("h.clear")
        for k in src.sample(seen, 8):
            ops.append("h.get " + k)
        if kind != "s":
            ops.append("h.all")
        ops.append("h.end")
        return {"ops": ops}

    def info(self, m, ops):
        return {"nontrivial": m.most >= 4 and m.over > 0, "tags": [{"s": "set", "m": "map", "u": "multimap", "c": "composite"}[m.kind]] + (["grown"] if m.most > 100 else [])}


# ---------------------------------------------------------------- U02
class Seqs:
    """vectors, bit vectors, flexible vectors"""

    def __init__(self):
        self.v, self.b, self.f, self.mut = [[], []], [], [], 0

    def cut(self, t):
        e = self.es * 2
        return [t[i:i + e] for i in range(0, len(t), e)] if t != "-" else []

    def step(self, w):
        o = w[0]
        if o[0] == "v" and o not in ("v.new", "v.end"):
            v = self.v[int(w[1])]
        if o == "v.new":
            self.es = int(w[1])
        elif o in ("v.push", "v.add"):
            v.append(w[2])
        elif o == "v.front":
            v.insert(0, w[2])
            self.mut += 1
        elif o == "v.pop":
            return v.pop() if v else "none"
        elif o == "v.back":
            return v[-1]
        elif o == "v.at":
            return v[int(w[2])]
        elif o == "v.set":
            x = self.cut(w[4])
            v[int(w[2]):int(w[2]) + len(x)] = x
            self.mut += 1
        elif o == "v.ins":
            v[int(w[2]):int(w[2])] = self.cut(w[4])
            self.mut += 1
        elif o == "v.era":
            del v[int(w[2]):int(w[2]) + int(w[4])]
            self.mut += 1
        elif o in ("v.resize", "v.rz"):
            n = int(w[2])
            v[n:] = [("ee" if o == "v.resize" else "00") * self.es] * (n - len(v))
        elif o == "v.clear":
            v.clear()
        elif o == "v.append":
            v += self.cut(w[2])
        elif o == "v.extend":
            v += self.v[1 - int(w[1])]
        elif o == "v.sort":
            v.sort(reverse=w[2] == "1")
            self.mut += 1
        elif o == "v.all":
            return "%d %d %s" % (len(v), not v, ",".join(v))
        elif o == "b.push":
            self.b.append(w[1])
        elif o == "b.set":
            self.b[int(w[1])] = w[2]
            self.mut += 1
        elif o == "b.resize":
            n = int(w[1])
            self.b[n:] = ["0"] * (n - len(self.b))
        elif o == "b.all":
            return "%d %s" % (len(self.b), "".join(self.b))
        elif o == "f.push":
            self.f.append(w[1])
        elif o == "f.pushi":
            self.f.append(hx(b"%d" % int(w[1])))
        elif o == "f.pushf":
            self.f.append(hx(("%f" % float(w[1])).encode()))
        elif o == "f.ins":
            self.f.insert(int(w[1]), w[2])
            self.mut += 1
        elif o == "f.rem":
            del self.f[int(w[1])]
            self.mut += 1
        elif o == "f.pop":
            self.f.pop()
        elif o == "f.resize":
            n = int(w[1])
            self.f[n:] = ["-"] * (n - len(self.f))
        elif o == "f.clear":
            self.f = []
        elif o == "f.all":
            return " ".join(["%d %d" % (len(self.f), not self.f)] + self.f)
        return ""


class Sequences(UtilProp):
    """U02"""
    id = "U02"
    rule = "at least four operations in the middle of a container"
    model = Seqs

    def gen(self, src):
        k = src.weighted([(5, "v"), (2, "b"), (3, "f")])
        m = Seqs()
        ops = []

        def do(o):
            ops.append(o)
            m.step(o.split(" "))
        n = src.int(1, 8 if src.size < 1 else src.choice([12, 60]))
        if k == "v":
            es = src.choice([1, 2, 4, 8, 12, 24])
            do("v.new %d" % es)

            def el(lo=1, hi=1):
                return hx(b"".join(bytes([src.below(4), 7] * 12)[:es] if es < 3 or src.bool(0.5) else bytes(src.below(256) for _ in range(es)) for _ in range(src.int(lo, hi))))
            for _ in range(n):
                s = src.below(2)
                v = m.v[s]
                c = src.weighted([(8, "push"), (4, "ins"), (3, "era"), (3, "set"), (2, "front"), (2, "add"), (2, "pop"), (2, "append"), (1, "extend"), (2, "resize"), (1, "rz"), (1, "reserve"), (1, "shrink"), (1, "sort"), (3, "all"), (1, "at"), (1, "back"), (0 if len(v) < 4 else 1, "clear")])
                if c in ("push", "add", "front"):
                    do("v.%s %d %s" % (c, s, el()))
                elif c == "append":
                    do("v.append %d %s" % (s, el(0, 5)))
                elif c == "ins":
                    i, va = src.int(0, len(v)), src.below(4)
                    do("v.ins %d %d %d %s" % (s, i, va, el(1, 1) if va == 2 else el(1 if va == 3 else 0, src.choice([1, 3, 9]))))
                elif c == "set" and v:
                    i, va = src.below(len(v)), src.below(4)
                    do("v.set %d %d %d %s" % (s, i, va, el(1, 1) if va == 2 else el(1, min(5, len(v) - i))))
                elif c == "era" and v:
                    i, va = src.below(len(v)), src.below(4)
                    k2 = 1 if va == 2 else src.int(0 if va < 2 else 1, len(v) - i)
                    do("v.era %d %d %d %d" % (s, i, va, k2))
                elif c in ("resize", "rz"):
                    do("v.%s %d %d" % (c, s, src.choice([0, 1, len(v), max(0, len(v) - src.int(0, 3)), len(v) + src.int(0, 9)])))
                elif c == "reserve":
                    do("v.reserve %d %d" % (s, src.int(0, 40)))
                elif c == "sort":
                    do("v.sort %d %d" % (s, src.below(2)))
                elif c == "at" and v:
                    do("v.at %d %d" % (s, src.below(len(v))))
                elif c == "back" and v:
                    do("v.back %d" % s)
                elif c in ("pop", "extend", "shrink", "clear", "all"):
                    do("v.%s %d" % (c, s))
            do("v.all 0")
            do("v.all 1")
            do("v.end")
        elif k == "b":
            do("b.new")
            for _ in range(n * 2):
                c = src.weighted([(6, "push"), (6, "set"), (3, "resize"), (2, "all")])
                L = len(m.b)
                if c == "push":
                    for _ in range(src.choice([1, 1, 7, 40])):
                        do("b.push %d" % src.below(2))
                elif c == "set" and L:
                    do("b.set %d %d" % (src.below(L), src.below(2)))
                elif c == "resize":
                    do("b.resize %d" % src.choice([0, 1, 31, 32, 33, 64, src.int(0, 300), L, L + 1, max(0, L - 5)]))
                else:
                    do("b.all")
            do("b.all")
            do("b.end")
        else:
            do("f.new")

            def d():
                return hx(bytes(src.below(256) for _ in range(src.choice([0, 1, 2, 5, 17]))))
            for _ in range(n):
                c = src.weighted([(8, "push"), (3, "ins"), (3, "rem"), (2, "pop"), (2, "pushi"), (1, "pushf"), (2, "resize"), (1, "reserve"), (3, "all"), (1, "clear")])
                L = len(m.f)
                if c == "push":
                    do("f.push " + d())
                elif c == "pushi":
                    do("f.pushi %d" % src.choice([0, 7, -1, 12345, -(1 << 63), (1 << 63) - 1]))
                elif c == "pushf":
                    do("f.pushf %s" % src.choice(["0", "1.5", "-2.25", "1e15", "123456.789", "-0.001"]))
                elif c == "ins":
                    do("f.ins %d %s" % (src.int(0, L), d()))
                elif c == "rem" and L:
                    do("f.rem %d" % src.below(L))
                elif c == "pop" and L:
                    do("f.pop")
                elif c == "resize":
                    do("f.resize %d" % src.choice([0, L, max(0, L - src.int(0, 3)), L + src.int(0, 4)]))
                elif c == "reserve":
                    do("f.reserve %d" % src.int(0, 50))
                elif c in ("all", "clear"):
                    do("f." + c)
            do("f.all")
            do("f.end")
        return {"ops": ops, "k": k}

    def info(self, m, ops):
        return {"nontrivial": m.mut >= 4, "tags": [ops[0][0]]}


# ---------------------------------------------------------------- U03
def findlow(s, a, i):
    z = s.find(b"\0", i)
    return low(s[:z if z >= 0 else len(s)]).find(low(a), i)


class Text:
    def __init__(self):
        self.s, self.hits = [b"", b"", b""], 0

    def step(self, w):
        o = w[0]
        if o[0] == "c":
            return self.pure(w)
        if o in ("s.new", "s.end"):
            return ""
        i = int(w[1])
        s = self.s[i]
        d = bytes.fromhex(w[2].replace("-", "")) if len(w) > 2 and o not in ("s.make", "s.from", "s.app", "s.push", "s.resize", "s.repl") else None
        out = ""
        if o == "s.make":
            s = bytes.fromhex(w[3].replace("-", ""))
        elif o == "s.from":
            s = self.s[int(w[2])]
        elif o == "s.cat":
            s += d
            out = str(len(d))
        elif o == "s.ncat":
            d = d.split(b"\0")[0][:int(w[3])]
            s += d
            out = str(len(d))
        elif o == "s.cpy":
            s = d
            out = str(len(d))
        elif o == "s.ncpy":
            s = d.split(b"\0")[0][:int(w[3])]
        elif o == "s.apv":
            s += d
        elif o == "s.app":
            s += self.s[int(w[2])]
        elif o == "s.push":
            s += bytes([int(w[2])])
        elif o == "s.clear":
            s = b""
        elif o == "s.resize":
            n = int(w[2])
            s = s[:n] + b"r" * (n - len(s))
        elif o == "s.printf":
            s = b"%s|%d|%5.2f" % (d, int(w[3]), float(w[4]))
            out = str(len(s))
        elif o == "s.export":
            out = hx(s.split(b"\0")[0])
            s = b""
        elif o == "s.repl":
            v = int(w[2])
            a, b = (bytes.fromhex(x.replace("-", "")) for x in w[3:5])
            nc = v >= 4
            if v % 4 < 2:
                r, p = b"", 0
                while a:
                    q = findlow(s, a, p) if nc else s.find(a, p)
                    if q < 0:
                        break
                    self.hits += 1
                    r += s[p:q] + b
                    p = q + len(a)
                    if nc and b"\0" in b:
                        break
                s = r + s[p:]
            else:
                p = int(w[5])
                q = (findlow(s, a, p) if nc else s.find(a, p)) if a else -1
                if q < 0:
                    out = str(len(s))
                else:
                    self.hits += 1
                    s = s[:q] + b + s[q + len(a):]
                    out = str(q + len(b))
        elif o == "s.all":
            return "%d %d %s" % (len(s), not s, hx(s))
        self.s[i] = s
        return out

    def pure(self, w):
        o = w[0]
        u = [bytes.fromhex(x.replace("-", "")) if re.fullmatch("-|([0-9a-f][0-9a-f])+", x) else None for x in w[1:]]
        if o == "c.cmp":
            a, b = u[1], u[2]
            v = int(w[1])
            if v >= 2:
                a, b = a.rstrip(SP), b.rstrip(SP)
            if v % 2:
                a, b = low(a), low(b)
            return str((a > b) - (a < b))
        if o == "c.noext":
            a = u[0]
            h, t = a[:a.rfind(b"/") + 1], a[a.rfind(b"/") + 1:]
            return hx(h + (t[:t.rfind(b".")] if b"." in t else t))
        if o == "c.count":
            a, c, n = u[0], int(w[2]), int(w[3])
            return "%d %d %d" % (a.count(c), a[:n].count(c), c in a)
        if o == "c.remove":
            i = int(w[2])
            return hx(u[0][:i] + u[0][i + 1:])
        if o == "c.lower":
            return hx(low(u[0]))
        if o == "c.nstr":
            return str(u[0].split(b"\0")[0].find(u[1]))
        if o == "c.eq":
            return "%d %d" % (u[0] == u[1], low(u[0]) == low(u[1]))
        a = u[0].decode()

        def num(x, base):
            if x == "":
                return "0"
            if not re.fullmatch(r"[ \t\n\v\f\r]*[+-]?" + (r"[0-9]+" if base == 10 else "0x[0-9a-fA-F]+"), x):
                return "fail"
            n = int(x.strip(" \t\n\v\f\r"), base)
            return str(n) if -(1 << 63) <= n < 1 << 63 else "fail"
        f = "fail"
        if a == "":
            f = "0"
        elif re.fullmatch(r"[ \t\n\v\f\r]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", a):
            f = "%.17g" % float(a)
        elif "x" in a:
            return None
        return "%s %s %s" % (num(a, 16 if a[:2] == "0x" else 10), num(a, 10), f)


class Strings(UtilProp):
    """U03"""
    id = "U03"
    rule = "a replacement that happens, or a comparison of different texts"
    model = Text

    def gen(self, src):
        m = Text()
        ops = []

        def do(o):
            ops.append(o)
            m.step(o.split(" "))

        def txt(nul=False, lo=0):
            alpha = src.choice([b"ab", b"aAbB ", b"abc./", bytes(range(1, 256))]) + (b"\0" if nul and src.bool(0.2) else b"")
            return bytes(src.choice(alpha) for _ in range(src.count(lo, src.choice([4, 8, 40]), 0.85)))
        do("s.new")
        for _ in range(src.int(1, 8 if src.size < 1 else src.choice([10, 30]))):
            i = src.below(3)
            s = m.s[i]
            j = (i + 1 + src.below(2)) % 3
            c = src.weighted([(8, "repl"), (4, "make"), (3, "cat"), (3, "ncat"), (2, "cpy"), (3, "ncpy"), (3, "apv"), (2, "app"), (3, "push"), (1, "clear"), (2, "resize"), (1, "printf"), (1, "export"), (2, "from"), (4, "all"), (9, "pure")])
            if c == "make":
                do("s.make %d %d %s" % (i, src.below(6), hx(txt())))
            elif c == "from":
                if b"\0" in m.s[j]:
                    continue
                do("s.from %d %d %d" % (i, j, src.below(4)))
            elif c in ("cat", "cpy"):
                do("s.%s %d %s" % (c, i, hx(txt())))
            elif c in ("ncat", "ncpy"):
                t = txt(True)
                n = src.choice([0, len(t), max(0, len(t) - 1), src.int(0, 50)])
                z = n > len(t) or src.bool(0.3)          # only the terminator ends it
                do("s.%s %d %s %d %d" % (c, i, hx(t), n, z))
            elif c == "apv":
                do("s.apv %d %s" % (i, hx(txt(True))))
            elif c == "app":
                do("s.app %d %d" % (i, j))
            elif c == "push":
                do("s.push %d %d" % (i, src.choice([97, 98, 65, 32, 255, 10])))
            elif c == "resize":
                do("s.resize %d %d" % (i, src.choice([0, len(s), max(0, len(s) - 2), len(s) + src.int(0, 20)])))
            elif c == "printf":
                do("s.printf %d %s %d %s" % (i, hx(txt()), src.choice([0, -1, 123456789]), src.choice(["0", "1.005", "-31.4"])))
            elif c == "repl":
                v = src.below(8)
                if len(s) > 1 and src.bool(0.6):
                    p = src.below(len(s))
                    a = s[p:p + src.int(1, 4)]
                    if b"\0" in a:
                        continue
                    if v >= 4 and src.bool(0.5):
                        a = a.swapcase()
                else:
                    a = txt()
                b = src.choice([b"", a, a + a, a[:1], txt(), txt()])
                do("s.repl %d %d %s %s %d" % (i, v, hx(a), hx(b), src.int(0, len(s))))
                do("s.all %d" % i)
            elif c == "pure":
                a = txt()
                b = src.choice([a, a.swapcase(), a + b" ", a + src.choice([b"a", b"\n", b"B"]), a[:-1], txt(), txt()])
                p = src.below(7)
                if p == 0 or p == 6:
                    v = src.below(4)
                    do("c.cmp %d %s %s" % (v, hx(a), hx(b)))
                elif p == 1:
                    do("c.noext %s" % hx(src.choice([a, b"dir.d/" + a, a + b"." + b, b"." + a, b"a.b.c", b"x/y.z"])))
                elif p == 2:
                    do("c.count %s %d %d" % (hx(a), src.choice([97, 65, 32, 46]), src.int(0, len(a))))
                elif p == 3 and a:
                    do("c.remove %s %d" % (hx(a), src.below(len(a))))
                elif p == 4:
                    x = src.choice(["", "0", "7", "-12", "+3", " 5", "5 ", "0x1f", "0xg", "0x", "1.5", "-.5", "1e3", "1e", "x", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "00012", "--1", "1-", ".", "\t-8"])
                    do("c.num " + hx(x.encode()))
                elif p == 5:
                    do("c.nstr %s %s" % (hx(a), hx(src.choice([b, a[1:3], a[-2:], a[:1]]))) if src.bool() else "c.eq %s %s" % (hx(a), hx(b)))
                else:
                    do("c.lower %s" % hx(a))
            else:
                do("s.%s %d" % (c, i))
        for i in range(3):
            do("s.all %d" % i)
        do("s.end")
        return {"ops": ops}

    def info(self, m, ops):
        return {"nontrivial": m.hits > 0 or any(o.startswith("c.cmp") and o.split()[2] != o.split()[3] for o in ops), "tags": sorted({o.split(" ")[0] for o in ops if o[:2] == "c." or o.startswith("s.repl")})}


# ---------------------------------------------------------------- U04
class Links:
    def __init__(self):
        self.l = [[], []]
        self.g = [[], []]
        self.e, self.flag, self.mid, self.known = {}, set(), 0, None

    def roots(self):
        if self.known is None:          # looked for once until nodes come or go
            self.known = self.find()
        return self.known

    def find(self):
        g = self.g[0]
        r = [x for x in g if x in self.flag]
        if not r:
            to = {t for x in g for t in self.e[x] if t is not None}
            r = [x for x in g if x not in to]
            self.flag |= set(r)
        return r

    def step(self, w):
        o = w[0]
        if o[0] == "n":
            l, t = self.l[int(w[1])], self.l[1 - int(w[1])]
            if o == "n.push":
                l.insert(0, w[2])
            elif o == "n.enq":
                l.append(w[2])
            elif o in ("n.pop", "n.deq"):
                return l.pop(0) if l else "none"
            elif o == "n.at":
                return l[int(w[2])] if int(w[2]) < len(l) else "none"
            elif o == "n.rem":
                self.mid += int(w[2]) > 0
                return l.pop(int(w[2])) if int(w[2]) < len(l) else "none"
            elif o == "n.del":
                self.mid += 1
                if int(w[2]) < len(l):
                    l.pop(int(w[2]))
            elif o == "n.move":
                if not l:
                    return "none"
                k = int(w[3])
                self.mid += k > 0
                if k >= len(l):
                    return "none"
                x = l.pop(k)
                t.insert(0 if w[2] == "1" else len(t), x)
            elif o == "n.free":
                l.clear()
                return "1"
            elif o == "n.all":
                return "%d%s /%s" % (len(l), "".join(" " + x for x in l), "".join(" " + x for x in reversed(l)))
            return ""
        if o in ("g.node", "g.rem", "g.eat") and (o == "g.eat" or w[1] == "0"):
            self.known = None
        if o == "g.node":
            self.g[int(w[1])].append(w[2])
            self.e[w[2]] = [None, None]
            return "1"
        if o == "g.edge":
            self.e[w[1]][int(w[2])] = w[3]
            self.mid += 1
        elif o == "g.root":
            self.flag.add(w[1])
        elif o == "g.rem":
            self.g[int(w[1])].remove(w[2])
            self.flag.discard(w[2])
            for x in self.g[int(w[1])]:
                self.e[x] = [None if t == w[2] else t for t in self.e[x]]
            return w[2]
        elif o == "g.eat":
            self.g[0] += self.g[1]
            self.g[1] = []
        elif o == "g.roots":
            r = self.roots()
            return " ".join([str(len(r))] + r)
        elif o == "g.trav":
            return self.roots()        # compared by hand
        return ""


class Linked(UtilProp):
    """U04"""
    id = "U04"
    rule = "at least three removals in the middle, or edges"
    model = Links

    def gen(self, src):
        m = Links()
        ops = []

        def do(o):
            ops.append(o)
            m.step(o.split(" "))
        n = src.int(1, 8 if src.size < 1 else src.choice([10, 40]))
        if src.bool(0.5):
            for i in range(n):
                s = src.below(2)
                c = src.weighted([(5, "push"), (5, "enq"), (2, "pop"), (1, "deq"), (3, "rem"), (1, "del"), (2, "move"), (2, "at"), (3, "all"), (1, "free")])
                if c in ("push", "enq"):
                    do("n.%s %d %d" % (c, s, i))
                elif c in ("rem", "at", "del"):
                    do("n.%s %d %d" % (c, s, src.int(0, len(m.l[s]))))
                elif c == "move":
                    do("n.move %d %d %d" % (s, src.below(2), src.int(0, len(m.l[s])) if src.bool() else 0))
                else:
                    do("n.%s %d" % (c, s))
            for s in (0, 1):
                do("n.all %d" % s)
            for s in (0, 1):
                do("n.free %d" % s)
            return {"ops": ops}
        do("g.new")
        two = src.bool(0.3)
        k = 0
        acyclic = src.bool(0.7)
        for _ in range(n):
            s = src.below(2) if two else 0
            c = src.weighted([(6, "node"), (6, "edge"), (1, "rem"), (1, "trav"), (1, "roots"), (1, "eat")])
            g = m.g[s]
            if c == "node" and k < 60:
                do("g.node %d %d" % (s, k))
                k += 1
                if src.bool(0.15):
                    do("g.root %d" % (k - 1))
            elif c == "edge" and len(g) > 1:
                a, b = src.choice(g), src.choice(g)
                if acyclic and int(a) >= int(b):
                    continue
                do("g.edge %s %d %s" % (a, src.below(2), b))
            elif c == "rem" and g:
                do("g.rem %d %s" % (s, src.choice(g)))
            elif c == "eat" and two:
                two = False
                do("g.eat")
            elif c in ("trav", "roots"):
                do("g." + c)
        do("g.roots")
        do("g.trav")
        do("g.end")
        return {"ops": ops}

    def run(self, ctx, case):
        m = Links()
        ops = case["ops"]
        got = self.ask(ctx, ops)
        for i, o in enumerate(ops):
            w = m.step(o.split(" "))
            g = got[i] if i < len(got) else "(nothing)"
            if o == "g.trav":
                order = g.split()
                reach, todo = set(), list(w)
                while todo:
                    x = todo.pop()
                    if x not in reach:
                        reach.add(x)
                        todo += [t for t in m.e[x] if t is not None]
                bad = None
                if set(order) != reach:
                    bad = "visited %s, reachable is %s" % (order, sorted(reach))
                for x in reach:        # at most once by each edge
                    if order.count(x) > max(1, (x in w) + sum(m.e[y].count(x) for y in reach)):
                        bad = "visited %s %d times: %s" % (x, order.count(x), order)
                seen = set()
                for x in order:
                    if x not in w and not any(x in m.e[y] for y in seen):
                        bad = "visited %s before all that leads to it: %s" % (x, order)
                    seen.add(x)
                if bad:
                    raise Fail("%s\nall: %s" % (bad, " ; ".join(ops[:i + 1])))
            elif g != w:
                raise Fail("%s answered %r, expected %r\nall: %s" % (o, g, w, " ; ".join(ops[:i + 1])[-4000:]))
        return {"nontrivial": m.mid >= 3, "tags": ["list" if ops[0][0] == "n" else "graph"]}


# ---------------------------------------------------------------- U05
class Ring:
    def __init__(self):
        self.q, self.wrap, self.got = [], 0, 0

    def room(self):
        return max(0, self.size - len(self.q) - self.inc)

    def step(self, w):
        o = w[0]
        if o == "q.new":
            self.size, self.inc = max(2, int(w[1])), int(w[2])
            self.open, self.total = True, 0
        elif o in ("q.add", "q.addt"):
            self.q.append(w[1])
            self.total += 1
            return "" if o == "q.add" else "0"
        elif o == "q.nadd":
            v = w[2:]
            n = min(self.room(), len(v))
            self.q += v[:n]
            self.total += n
            return ("0 " if w[1] == "1" else "") + " ".join([str(len(v) - n)] + v[n:])
        elif o == "q.get":
            return self.q.pop(0)
        elif o == "q.getw":
            return self.q.pop(0) if self.q else "none"
        elif o == "q.nget":
            n = min(len(self.q), int(w[2]))
            n -= n % int(w[1])
            x, self.q = self.q[:n], self.q[n:]
            return " ".join([str(len(self.q))] + x)
        elif o == "q.peek":
            return self.q[0] if self.q else "none"
        elif o == "q.look":
            return self.q[1] if len(self.q) > 1 else "none"
        elif o == "q.consume":
            self.q.pop(0)
        elif o == "q.iter":
            n = min(len(self.q), int(w[1]))
            x, self.q = self.q[:n], self.q[n:]
            return "".join(y + " " for y in x) + ("/0" if w[2] == "1" else "")
        elif o == "q.open":
            self.open = w[1] != "0"
            return w[1]
        elif o == "q.reset":
            self.q, self.open = [], True
        elif o == "q.resize":
            self.q, self.size = [], max(2, int(w[1]))
        elif o == "q.full":
            self.q = [str(i) for i in range(self.size - 1)]
        elif o == "q.state":
            return "%d %d %d %d" % (len(self.q), not self.q, len(self.q) == self.size - 1, self.room())
        return ""


class Fifo(UtilProp):
    """U05"""
    id = "U05"
    rule = "more went through the buffer than it holds; or several threads"
    model = Ring
    kinds = ("asan", "tsan", "plain", "plain")
    quick_s = 22

    def gen(self, src):
        if src.bool(0.4):
            prod = src.choice([1, 1, 2, 3, 5])
            size = max(prod + 1, src.choice([2, 3, 4, 8, 33]))
            items = src.choice([1, 5, 40, 40, 300])
            if src.bool(0.25):
                return {"ops": ["q.quit %d %d %d %d %d %d %d" % (size, prod, prod, items, src.choice([2, 1, 0]), src.below(100000), src.int(0, prod * items))]}
            ops = ["q.conc %d %d %d %d %d %d %d" % (size, prod, prod, items, src.choice([2, 1, 0]), src.below(100000), src.below(4))]
            if src.bool(0.35):
                ops[0] += " %d %d" % (src.int(1, prod), src.choice([0, 1, 20, 100]))
            return {"ops": ops}
        m = Ring()
        ops = []

        def do(o):
            ops.append(o)
            m.step(o.split(" "))
        inc = src.choice([1, 1, 2, 3, 0])
        do("q.new %d %d" % (src.choice([0, 1, 2, 3, 4, 5, 9]) + (inc if inc > 1 else 0), inc))
        k = 0
        for _ in range(src.int(1, 10 if src.size < 1 else src.choice([15, 60]))):
            c = src.weighted([(8, "add"), (5, "nadd"), (5, "get"), (5, "nget"), (2, "consume"), (4, "iter"), (2, "peek"), (2, "look"), (5, "state"), (1, "open"), (1, "reset"), (1, "resize"), (1, "full")])
            if c == "add" and len(m.q) < m.size - 1 and (m.room() > 0 or src.bool(0.3)):
                do("q.%s %d" % (src.choice(["add", "add", "addt"]), k))
                k += 1
            elif c == "nadd" and inc:
                n = src.int(0, 8)
                do(" ".join(["q.nadd %d" % src.below(2)] + [str(k + i) for i in range(n)]))
                k += n
            elif c == "get" and (m.q or not m.open):
                do("q.getw" if not m.q else src.choice(["q.get", "q.getw"]))
            elif c == "consume" and m.q:
                do("q.consume")
            elif c == "nget":
                do("q.nget %d %d" % (src.choice([1, 1, 2, 3]), src.int(0, 9)))
            elif c == "iter":
                do("q.iter %d %d" % (src.int(0, 9), src.below(2)))
            elif c == "open":
                do("q.open %d" % src.below(2))
            elif c == "resize":
                do("q.resize %d" % src.choice([0, 2, 3, 5, 8]))
            elif c in ("peek", "look", "state", "reset", "full"):
                do("q." + c)
        do("q.state")
        do("q.iter 99 0")
        do("q.end")
        return {"ops": ops}

    def run(self, ctx, case):
        ops = case["ops"]
        if ops[0][:6] not in ("q.conc", "q.quit"):
            return UtilProp.run(self, ctx, case)
        w = [int(x) for x in ops[0].split()[1:]]
        got = self.ask(ctx, ops, 4000)[0].split()
        if ops[0].startswith("q.quit"):
            for p in range(w[2]):
                mine = [int(x) % 1000000 for x in got if int(x) // 1000000 == p]
                if mine != list(range(len(mine))):
                    raise Fail("of producer %d arrived %s\n%s" % (p, mine[:400], ops[0]))
            if len(got) != w[6]:
                raise Fail("%d values arrived of %d\n%s" % (len(got), w[6], ops[0]))
            return {"nontrivial": w[2] * w[3] > w[6] + w[0], "tags": ["threads", "closed by its consumer"]}
        want = {i: w[3] for i in range(w[2])}
        if len(w) > 7:
            want.update({10 + i: w[8] for i in range(w[7])})
        for p, n in want.items():
            mine = [int(x) % 1000000 for x in got if int(x) // 1000000 == p]
            if mine != list(range(n)):
                raise Fail("of producer %d arrived %s of %d\n%s" % (p, mine[:400], n, ops[0]))
        if len(got) != sum(want.values()):
            raise Fail("%d values arrived of %d\n%s" % (len(got), sum(want.values()), ops[0]))
        return {"nontrivial": sum(want.values()) > w[0], "tags": ["threads", "producers%d" % len(want)] + (["two buffers"] if len(w) > 7 else [])}

    def info(self, m, ops):
        return {"nontrivial": m.total > m.size, "tags": ["sequential"]}


PROPS = [HashTables, Sequences, Strings, Linked, Fifo]
