"""What the names in a query stand for: files (S15) and columns (S16)."""
from . import sqlmodel as M
from .pbt import Discard, Fail, Prop
from .sqlcheck import show, opts_args, opts_api, trow
from .engine import parse_api
from .props_dml import affected


def lower(s):
    """the ASCII case only"""
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def noext(s):
    return s[:s.rindex(".")] if "." in s else s


def resolve(names, ref, strict):
    """-> a name of `names`, None, or "?" when it is ambiguous"""
    if ref in names:
        return ref
    if strict:
        return None
    for rule in (lambda n: lower(n) == lower(ref), lambda n: noext(n) == ref, lambda n: lower(noext(n)) == lower(ref)):
        m = [n for n in names if rule(n)]
        if m:
            return m[0] if len(m) == 1 else "?"
    return None


STEMS = ["t1", "T1", "names", "Names", "NAMES", "art grades", "Art Grades", "a.b", "A.b", "t", "\u00e9t\u00e9", "x-y", "t1.old", "select", "a'b", "1", "t_1"]
EXTS = ["", ".csv", ".txt", ".CSV", ".Txt", ".random", ".x y", ".tar.gz", "."]


class EngineProp(Prop):
    level = "exploration"
    quick_s = 25

    def prepare(self, tier):
        from . import build
        return {"bin": build.engine(san=False), "asan": build.engine(san=True)}


class Tables(EngineProp):
    """a table name stands for the file the documented priority list gives"""
    id = "S15"
    rule = "the name differs from every file name, or several files match it by some rule"

    def gen(self, src):
        stems = src.sample(STEMS, src.int(1, 3))
        if src.bool(0.5):
            stems += [v for s in stems for v in STEMS if lower(v) == lower(s) and v != s]
        dirs = [""] + (["sub/"] if src.bool(0.3) else []) + (["Sub/"] if src.bool(0.1) else [])
        names = []
        for _ in range(src.int(1, 6)):
            n = src.choice(dirs) + src.choice(stems) + src.choice(EXTS)
            if n not in names:
                names.append(n)
        refs = []
        for _ in range(src.int(1, 3)):
            n = src.choice(names)
            d, b = n[:n.rfind("/") + 1], n[n.rfind("/") + 1:]
            b = src.weighted([(3, b), (4, noext(b)), (1, noext(noext(b))), (1, src.choice(STEMS))])
            b = src.weighted([(5, b), (1, b.lower()), (1, b.upper()), (1, b.swapcase())]) if b.isascii() else b
            if not b or b in (".", ".."):
                b = "t1"
            refs.append(src.weighted([(5, d), (1, "./" + d), (1, "")]) + b)
        form = src.weighted([(5, "select"), (3, "join"), (2, "update"), (2, "delete"), (3, "variable"), (2, "subquery"), (1, "in"), (2, "loop"), (1, "mixed")])
        return {"names": names, "refs": refs, "form": form, "strict": src.bool(0.2), "api": src.bool(0.25), "bare": src.bool(0.5)}

    def find(self, case, ref):
        d = ref[:ref.rindex("/") + 1] if "/" in ref else ""
        b = ref[len(d):]
        d0 = d[2:] if d.startswith("./") else d
        local = [n[len(d0):] for n in case["names"] if n.startswith(d0) and "/" not in n[len(d0):]]
        if not d0 and b in ("sub", "Sub", "SUB"):
            raise Discard
        m = resolve(local, b, case["strict"])
        return m if m in (None, "?") else d0 + m

    def run(self, ctx, case):
        files = {n: ("who,k\n%d,%d\n%d,%d\n" % (i, i, i, i + 100)).encode() for i, n in enumerate(case["names"])}
        form = case["form"]
        refs = case["refs"] if form in ("join", "loop", "mixed", "in") else case["refs"][:1]
        if form == "in":
            refs = [refs[0], refs[-1]]
        ids = []
        for r in refs:
            f = self.find(case, r)
            ids.append(f if f in (None, "?") else case["names"].index(f))
        good = all(isinstance(i, int) for i in ids)
        plain = lambda r: case["bare"] and r.isascii() and r.replace("_", "a").isalnum() and not r[0].isdigit() and r.lower() not in ("select", "x", "y", "z")
        nm = lambda r: (r if plain(r) else "[" + r + "]").encode("utf8")
        args = ["--strict"] if case["strict"] else []
        api = [b"strict=1"] if case["strict"] else []
        var = lambda k, r: (args.extend(["-D", "%s=%s" % (k, r)]), api.append(b"import=" + k.encode() + b"=" + r.encode("utf8")))
        want_files = dict(files)
        rows = lambda i: [(b"%d" % i, b"%d" % i), (b"%d" % i, b"%d" % (i + 100))]
        out = []
        hdr = True
        if form == "select":
            sql = b"select who, k from " + nm(refs[0])
            if good:
                out = rows(ids[0])
        elif form == "variable":
            var("v", refs[0])
            sql = b"select who, k from @v"
            if good:
                out = rows(ids[0])
        elif form == "loop":
            # a table variable stands for another file once it is set
            var("v", refs[0])
            sql = b"; ".join([b"select who, k from @v"] + [b"set @v = '%s'; select who, k from @v" % r.encode("utf8").replace(b"'", b"''") for r in refs[1:]])
            # planned against the first file; the loop makes the statement run again
            sql = b"declare @i int = 0; while @i < %d begin select who, k from @v; " % len(refs)
            for i, r in enumerate(refs[1:]):
                sql += b"if @i = %d set @v = '%s'; " % (i, r.encode("utf8").replace(b"'", b"''"))
            sql += b"set @i = @i + 1; end"
            for i in ids:
                if not isinstance(i, int):
                    break
                out += [(b"who", b"k")] * bool(out) + rows(i)
        elif form in ("join", "mixed"):
            als = ["x", "y", "z"]
            src = []
            for a, r in zip(als, refs):
                if form == "mixed":
                    var(a, r)
                    n = b"@" + a.encode()
                else:
                    n = nm(r)
                src.append(n + b" " + a.encode())
            # one row of each
            sql = b"select " + b", ".join(a.encode() + b".who" for a in als[:len(refs)]) + b" from " + src[0]
            for s, a in zip(src[1:], als[1:]):
                sql += b" join " + s + b" on 1 = 1"
            sql += b" where x.k < 50" + b"".join(b" and %s.k < 50" % a.encode() for a in als[1:len(refs)])
            if good:
                out = [tuple(b"%d" % i for i in ids)]
        elif form == "subquery":
            sql = b"select who, k from (select who, k from " + nm(refs[0]) + b") x"
            if good:
                out = rows(ids[0])
        elif form == "in":
            sql = b"select who, k from " + nm(refs[0]) + b" where k in (select k from " + nm(refs[-1]) + b")"
            if good:
                out = [r for r in rows(ids[0]) if r in rows(ids[-1])]
        else:
            if plain(refs[0]) is False and False:
                raise Discard
            t = nm(refs[0])
            where = b" where k > 50"
            sql = (b"update " + t + b" set who = 'new'" if form == "update" else b"delete from " + t) + where
            if good:
                i = ids[0]
                want_files[case["names"][i]] = b"who,k\n%d,%d\n" % (i, i) + (b"new,%d\n" % (i + 100) if form == "update" else b"")
            hdr = False
        sc = "statement: %s\noptions: %r\nfiles: %r" % (show(sql), args, case["names"])
        ctx.box.fresh(files)
        use_api = case["api"] and form in ("select", "join", "mixed", "subquery", "in", "variable")
        if use_api:
            r = ctx.eng.api(ctx.box.dir, api + [b"plans=" + sql, b"stepall"])
        else:
            r = ctx.eng.cli(ctx.box.dir, args + ["-c", sql])
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), sc))
        ls = ctx.box.listing()
        if use_api:
            ev = parse_api(r.res)
            if not any(e[0] == "RC" for e in ev):
                raise Fail("the library call did not return: %s\n%s" % (r.msg()[-200:], sc))
            failed = any(e[1] < 0 for e in ev if e[0] == "RC")
            got = [tuple(f[2] for f in e[1]) for e in ev if e[0] == "ROW"]
        else:
            failed = r.rc != 0
            recs = M.parse_csv(r.out, b",") if r.out else []
            got = [tuple(x) for x in recs[1:]] if hdr else [tuple(x) for x in recs]
        what = ["no file" if i is None else "several files" if i == "?" else repr(case["names"][i]) for i in ids]
        if good and failed:
            raise Fail("failed (%s) though %s stands for %s\n%s" % (r.msg()[-200:], refs, what, sc))
        if not good and not failed:
            raise Fail("succeeded with %r though %s stands for %s\n%s" % (got, refs, what, sc))
        if not (form == "join" or form == "mixed" or form == "in"):
            if got != out:
                raise Fail("gave %r, expected %r (%s stands for %s)\n%s" % (got, out, refs, what, sc))
        elif sorted(got) != sorted(out):
            raise Fail("gave %r, expected %r (%s stands for %s)\n%s" % (got, out, refs, what, sc))
        for k in set(ls) | set(want_files):
            if ls.get(k) != want_files.get(k):
                raise Fail("the file %r is now %r, expected %r (%s stands for %s)\n%s" % (k, ls.get(k), want_files.get(k), refs, what, sc))
        nt = False
        for r in refs:
            b = r[r.rindex("/") + 1:] if "/" in r else r
            m = [n for n in case["names"] if lower(noext(n.split("/")[-1])) == lower(b) or lower(n.split("/")[-1]) == lower(b)]
            nt = nt or len(m) > 1 or (m and m[0].split("/")[-1] != b)
        return {"nontrivial": bool(nt), "tags": [form, "ambiguous" if "?" in ids else "found" if good else "not found"] + (["strict"] if case["strict"] else [])}

    def show(self, case):
        return {k: case[k] for k in case}



COLS = ["a", "b", "id", "Id", "ID", "A", "x y", "X Y", "foo", "Foo", "\u00e9", "a_b", "n1", "__x", "top1", "a.b"]
QUAL = ["t1", "t2", "t3", "x", "y", "X"]


class Columns(EngineProp):
    """a column name stands for one column of one table in scope, or the query is refused"""
    id = "S16"
    rule = "a name matches several columns, or differs from the header's spelling, or the query is refused"

    def gen(self, src):
        n = src.weighted([(3, 1), (4, 2), (2, 3)])
        pool = src.sample(COLS, src.int(2, 6))
        pool += [c for c in COLS if lower(c) in [lower(p) for p in pool] and c not in pool and src.bool(0.6)]
        tabs = []
        for i in range(n):
            cols = [src.choice(pool) for _ in range(src.int(1, 4))]
            if src.bool(0.6):
                cols = [c for j, c in enumerate(cols) if lower(c) not in [lower(d) for d in cols[:j]]]
            f = src.weighted([(6, i), (1, 0)])
            al = src.weighted([(2, None), (3, "xyz"[i]), (1, src.choice(QUAL))])
            tabs.append([f, al, cols])
        for t in tabs:
            t[2] = tabs[t[0]][2]

        def ref(upto):
            t = src.choice(tabs[:upto])
            c = src.weighted([(8, src.choice(t[2])), (1, src.choice(pool))])
            if c.isascii():
                c = src.weighted([(5, c), (1, c.upper()), (1, c.lower()), (1, c.swapcase())])
            q = src.weighted([(4, None), (5, t[1] or "t%d" % (t[0] + 1)), (1, src.choice(QUAL))])
            if q and src.bool(0.2):
                q = q.swapcase()
            return [q, c]

        cols = []
        for _ in range(src.int(1, 4)):
            if src.bool(0.15):
                cols.append([ref(n)[0] if src.bool(0.6) else None, "*"])
            else:
                cols.append(ref(n))
        on = [[ref(i + 1)] if src.bool(0.5) else None for i in range(1, n)]
        case = {"tabs": tabs, "cols": cols, "on": on, "where": ref(n) if src.bool(0.3) else None, "strict": src.bool(0.25),
                "expr": src.bool(0.25), "kind": "select", "api": src.bool(0.3)}
        if n == 1 and src.bool(0.3):
            case["kind"] = src.choice(["update", "delete"])
        return case

    def run(self, ctx, case):
        tabs = case["tabs"]
        files = {}
        val = lambda f, j: b"v%d_%d" % (f, j)
        for f, al, cols in tabs:
            files["t%d.csv" % (f + 1)] = M.write_csv(cols, [[val(f, j) for j in range(len(cols))]], b",")
        alias = [lower(al or "t%d" % (f + 1)) for f, al, _ in tabs]
        strict = case["strict"]
        multi = [False]

        def find(ref, upto):
            """-> (table, column), or None when the query is refused"""
            q, c = ref
            found = []
            for i in range(upto):
                if q is None or lower(q) == alias[i]:
                    m = [j for j, h in enumerate(tabs[i][2]) if lower(h) == lower(c)]
                    if m and (len(m) > 1 or tabs[i][2][m[0]] != c):
                        multi[0] = True
                    found += [(i, j) for j in (m if strict else m[:1])]
            if len(found) != 1:
                multi[0] = True
            return found[0] if len(found) == 1 else None

        br = lambda c: ("[" + c + "]").encode("utf8")
        txt = lambda r: (r[0].encode() + b"." if r[0] else b"") + (b"*" if r[1] == "*" else br(r[1]))
        good = True
        row = []
        sel = []
        for r in case["cols"]:
            if r[1] == "*":
                m = [i for i in range(len(tabs)) if r[0] is None or lower(r[0]) == alias[i]]
                good = good and bool(m)
                for i in m:
                    row += [val(tabs[i][0], j) for j in range(len(tabs[i][2]))]
                sel.append(txt(r))
                continue
            f = find(r, len(tabs))
            if f is None:
                good = False
                sel.append(txt(r))
                continue
            v = val(tabs[f[0]][0], f[1])
            sel.append(txt(r) if not case["expr"] else b"'<' + " + txt(r) + b" + '>'")
            row.append(v if not case["expr"] else b"<" + v + b">")
        src = [b"t%d" % (f + 1) + (b" " + al.encode() if al else b"") for f, al, _ in tabs]
        frm = src[0]
        match = True
        for i, s in enumerate(src[1:]):
            o = case["on"][i]
            if o is None:
                frm += b" join " + s + b" on 1 = 1"
                continue
            f = find(o[0], i + 2)
            good = good and f is not None
            frm += b" join " + s + b" on " + txt(o[0]) + b" = '" + (val(tabs[f[0]][0], f[1]) if f else b"v") + b"'"
        where = b""
        if case["where"]:
            f = find(case["where"], len(tabs))
            good = good and f is not None
            where = b" where " + txt(case["where"]) + b" = '" + (val(tabs[f[0]][0], f[1]) if f else b"v") + b"'"
        want_files = dict(files)
        kind = case["kind"]
        if kind == "select":
            sql = b"select " + b", ".join(sel) + b" from " + frm + where
        else:
            f0, al, cols = tabs[0]
            if al and al.lower().startswith("t"):
                raise Discard           # reads as another table's name
            if kind == "delete":
                sql = b"delete " + (al.encode() if al else b"t1") + b" from " + frm + where
                if not case["where"]:
                    raise Discard
                good = find(case["where"], 1) is not None
                want_files["t1.csv"] = M.write_csv(cols, [], b",")
            else:
                sql = b"update " + (al.encode() if al else b"t1") + b" set " + br(case["cols"][0][1]) + b" = 'new' from " + frm + where
                c = case["cols"][0][1]
                m = [j for j, h in enumerate(cols) if lower(h) == lower(c)]
                if len(m) > 1 or c == "*":
                    raise Discard
                good = len(m) == 1 and (not case["where"] or find(case["where"], 1) is not None)
                if good:
                    r2 = [val(0, j) for j in range(len(cols))]
                    if m:
                        r2[m[0]] = b"new"
                    want_files["t1.csv"] = M.write_csv(cols, [r2], b",")
            if not good:
                want_files = dict(files)
        args = ["--strict"] if strict else []
        # an exact file name is asked for in strict mode
        if strict:
            files = {k[:-4]: v for k, v in files.items()}
            want_files = {k[:-4]: v for k, v in want_files.items()}
        sc = "statement: %s\noptions: %r\nfiles: %r" % (show(sql), args, files)
        ctx.box.fresh(files)
        api = case["api"] and kind == "select"
        if api:
            r = ctx.eng.api(ctx.box.dir, ([b"strict=1"] if strict else []) + [b"plans=" + sql, b"stepall"])
        else:
            r = ctx.eng.cli(ctx.box.dir, args + ["-c", sql])
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), sc))
        if api:
            ev = parse_api(r.res)
            failed = not any(e[0] == "RC" for e in ev) or any(e[1] < 0 for e in ev if e[0] == "RC")
            got = [tuple(f[2] for f in e[1]) for e in ev if e[0] == "ROW"]
        else:
            failed = r.rc != 0
            recs = M.parse_csv(r.out, b",") if r.out else []
            got = [tuple(x) for x in recs[1:]]
        if good and failed:
            raise Fail("failed: %s\n%s" % (r.msg()[-200:], sc))
        if not good and not failed:
            raise Fail("succeeded with %r though a name is ambiguous or unknown\n%s" % (got, sc))
        if good and kind == "select" and got != [tuple(row)]:
            raise Fail("gave %r, expected %r\n%s" % (got, [tuple(row)], sc))
        ls = ctx.box.listing()
        for k in set(ls) | set(want_files):
            if ls.get(k) != want_files.get(k):
                raise Fail("the file %r is now %r, expected %r\n%s" % (k, ls.get(k), want_files.get(k), sc))
        return {"nontrivial": multi[0] or not good, "tags": [kind, "refused" if not good else "fine", "tables%d" % len(tabs)] + (["strict"] if strict else [])}

    def show(self, case):
        return {k: case[k] for k in case}


PROPS = [Tables, Columns]
