"""The C interface: programs driven query by query, in every mix of executing and stepping."""
from . import sqlgen as S
from . import sqlmodel as M
from . import sqlcheck as C
from .engine import parse_api
from .pbt import Discard, Fail
from .props_flow import Flow
from .sqlcheck import show

OP = {"IF": 0, "SET": 1, "WHILE": 2, "SELECT": 3, "DELETE": 4, "UPDATE": 5, "INTO": 3}
FAIL = -5
ACTS = [(4, "exec"), (2, "execn"), (5, "until"), (1, "all"), (8, "step"), (4, "stepn"), (2, "stepx"), (2, "reset"), (3, "op"), (3, "fields"), (2, "bad"), (1, "fexec")]


def count(body):
    """the queries of a program"""
    n = 0
    for b in body:
        if b[0] == "decl":
            n += len(b[1])
        elif b[0] == "with":
            n += len(b[1]) + 1
        elif b[0] == "if":
            n += 1 + count(b[2]) + count(b[3] or [])
        elif b[0] == "while":
            n += 1 + count(b[2])
        elif b[0] == "block":
            n += count(b[1])
        else:
            n += 1
    return n


class Api(Flow):
    id = "S18"
    rule = "rows were stepped through and at least two kinds of calls were mixed"

    def gen(self, src):
        case = super().gen(src)
        case["into"] = src.bool(0.12)
        case["acts"] = [[(src.weighted(ACTS), src.int(1, 4)) for _ in range(src.int(2, 14))] for _ in range(src.int(1, 3))]
        return case

    # one run of the program: the commands with what they must answer
    def script(self, sql, n, trace, acts, failed):
        cmds, want = [b"plans=" + sql], [("rc", n)]
        printed = []
        kinds = set()
        pos, end, st = 0, len(trace), 0
        queue = list(acts)

        def event(i):
            return trace[i] if i < end else None

        def execute(k):
            nonlocal pos
            bad = False
            for _ in range(k):
                if pos >= end:
                    break
                ev = trace[pos]
                pos += 1
                if failed and pos == end:
                    bad = True
                elif ev[0] == "SELECT":
                    printed.append(ev)
            return FAIL if bad else 0

        guard = 0
        while pos < end:
            guard += 1
            a, k = queue.pop(0) if queue else ((("all", 1) if guard % 2 else ("step", 1)) if guard < 12 else ("all", 1))
            ev = trace[pos]
            sel = ev[0] == "SELECT"
            broken = failed and pos == end - 1
            kinds.add(a)
            if a in ("step", "stepn", "stepx", "reset", "fexec", "fields") and not sel:
                a = "until"
            if a == "bad" and sel:
                a = "step"
            if a == "op":
                cmds.append("op_type")
                want.append(("rc", OP[ev[0]]))
            elif a in ("fields", "fexec"):
                cmds.append("field_count")
                want.append(("rc", len(ev[1])))
                if a == "fexec":
                    cmds.append("exec_plans=1")
                    want.append(("rc", execute(1)))
            elif a == "exec":
                cmds.append("exec_plans=1")
                want.append(("rc", execute(1)))
            elif a == "execn":
                cmds.append("exec_plans=%d" % k)
                want.append(("rc", execute(k)))
            elif a == "all":
                cmds.append("exec_all")
                want.append(("rc", execute(end)))
            elif a == "until":
                m = 0
                while pos + m < end and trace[pos + m][0] != "SELECT":
                    m += 1
                rc = execute(m)
                cmds.append("until_select")
                want.append(("rc", rc or m))
            elif a == "bad":
                # there is nothing to step through, and nothing is executed
                cmds.append("stepall")
                want.append(("step", None, None, FAIL, 0, False))
            else:
                rows = None if broken else ev[2]
                got = 0
                if a != "step":
                    got = k if broken else min(k, len(rows))
                    rc = None if broken else (1 if k <= len(rows) else 0)
                    cmds.append("stepn=%d" % k)
                    want.append(("step", ev, (0, got), rc, st, broken))
                    if broken:
                        # rows may or may not precede the failure
                        cmds += ["reset"]
                        want += [("rc", 0)]
                        pos = end
                        continue
                    if rc == 0:
                        pos += 1
                        continue
                    if a == "stepx":
                        cmds += ["exec_plans=%d" % k, "op_type"]
                        want += [("rc", FAIL), ("rc", OP["SELECT"])]
                    if a == "reset":
                        cmds += ["reset", "op_type"]
                        want += [("rc", 0), ("rc", -1)]
                        pos = end
                        continue
                cmds.append("stepall")
                want.append(("step", ev, (got, None), FAIL if broken else 0, st, broken))
                pos += 1
        st += 1
        # everything has been executed, or the handle has been reset
        for c in self.tail:
            cmds.append(c)
            want.append(("rc", {"op_type": -1}.get(c, 0)))
        return cmds, want, printed, kinds

    def run(self, ctx, case):
        ts = [S.Table.load(d) for d in case["tables"]]
        db = S.db_of(ts, vars={})
        db.t = {k: (h, [list(r) for r in rows]) for k, (h, rows) in db.t.items()}
        if any(t.delim != b"," for t in ts):
            raise Discard
        out, ok, stat = self.interp(case, db)
        trace = self.trace
        sql = self.text(case["body"], case["sep"])
        head = b"".join(b"declare @" + n.encode() + b" " + self.ty([n, ty, k]) + b";\n" for n, ty, k, v in case["imports"] if ty)
        typed = [x for x in case["imports"] if x[1]]
        pre = [["SET"] for _ in typed]
        n = len(typed) + count(case["body"])
        into = None
        if case["into"] and ts:
            t = ts[0]
            c = t.cols[0]
            into = [[b"" if r[0] is None else r[0]] for r in t.rows]
            head += b"declare @into_tab varchar(40) = 'into_tab.csv';\nselect " + M.r_expr(["c", None, c[0], c[1]]) + b", 1 one into @into_tab from " + t.name.encode() + b";\n"
            pre += [["SET"], ["INTO"]]
            n += 2
        sql = head + sql
        trace = pre + trace
        files = S.files_of(ts)
        ctx.box.fresh(files)
        opts = C.opts_api(case["opts"])
        chg = {o[1] for o in out if o[0] == "chg"}
        cmds, want, printed, kinds = list(opts), [], [], set()
        for i, acts in enumerate(case["acts"]):
            for nm, ty, k, v in case["imports"]:
                cmds.append(b"import=" + nm.encode() + b"=" + v)
                want.append(("rc", 0))
            if i and into is not None:
                cmds.append("overwrite=1")
            self.tail = ["op_type", "field_count", "exec_plans=1", "until_select"][:len(acts) % 5]
            if len(acts) % 2 and case["acts"][-1] is acts:
                self.tail = self.tail + ["exec_all"]
            a, b, c, d = self.script(sql, n, trace, acts, not ok)
            cmds += a
            want += b
            if ok or not i:
                printed += c        # a statement that fails may have printed something
            kinds |= d
            if chg or any(x[0] == "reset" for x in acts):
                # the tables are not what they were; the handle is as good as new
                cmds += [b"plans=declare @again int = 5 select @again + 1 a, 'x' b, 2.5 c", "until_select", "stepall"]
                want += [("rc", 2), ("rc", 1), ("step", ["SELECT", ["a", "b", "c"], [[6, b"x", 2.5]], True], (0, None), 0, 0, False)]
                break
        r = ctx.eng.api(ctx.box.dir, cmds)
        ctxs = "program: %s\nfiles: %r\ncalls: %r" % (show(sql), files, [c if not (isinstance(c, bytes) and c.startswith(b"plans=")) else c[:40] for c in cmds])
        if r.crashed():
            raise Fail("%s\n%s" % (r.crashed(), ctxs))
        self.answers(r, want, ctxs)
        partial = any(w[0] == "step" and w[5] for w in want)
        self.output(r.out, [("sel", e[1], [C.trow(C.text_row(x)) for x in e[2]], e[3], len(e[2])) for e in printed], ctxs, ok and not partial)
        ls = ctx.box.listing()
        if into is not None and ok:
            got = ls.pop("into_tab.csv", None)
            if got is None or len(got.splitlines()) < 1 + len(into):
                raise Fail("SELECT INTO a variable wrote %r\n%s" % (got, ctxs))
        else:
            ls.pop("into_tab.csv", None)
        for t in ts:
            if t.name not in chg and ls.get(t.file) != files[t.file]:
                raise Fail("%s became %r\n%s" % (t.file, ls.get(t.file), ctxs))
        for k in ls:
            if k not in files:
                raise Fail("the file %r was left behind\n%s" % (k, ctxs))
        rows = any(w[0] == "step" and w[1] and not w[5] and w[1][2] for w in want)
        return {"nontrivial": bool(rows and len(kinds) > 1), "tags": sorted(kinds) + (["fails"] if not ok else []) + (["change"] if chg else [])}

    def answers(self, r, want, ctxs):
        ev = [x for x in parse_api(r.res) if x[0] != "DONE"]
        i = 0
        msg = "\nmessages: %s\n%s" % (r.msg()[-300:], ctxs)

        def take(what):
            nonlocal i
            if i >= len(ev):
                raise Fail("no answer where %s was expected%s" % (what, msg))
            i += 1
            return ev[i - 1]

        for j, w in enumerate(want):
            where = "answer no. %d" % (j + 1)
            if w[0] == "rc":
                x = take(w)
                if x != ("RC", w[1]):
                    raise Fail("%s is %r, expected %r%s" % (where, x, w[1], msg))
                continue
            _, e, rng, rc, st, broken = w
            x = take("FIELDS")
            if x != ("FIELDS", len(e[1]) if e else FAIL):
                raise Fail("%s: %r, expected %d fields%s" % (where, x, len(e[1]) if e else FAIL, msg))
            rows = []
            x = take("ROW or RC")
            while x[0] == "ROW":
                rows.append([None if f[1] else f[2] for f in x[1]])
                x = take("ROW or RC")
            if broken:
                if x[1] not in ((FAIL,) if rng[1] is None else (FAIL, 1)):
                    raise Fail("%s: stepping ended with %r, expected a failure%s" % (where, x, msg))
                continue
            if x != ("RC", rc):
                raise Fail("%s: stepping ended with %r after %d rows, expected %r%s" % (where, x, len(rows), rc, msg))
            if not e:
                continue
            lo, hi = rng
            if e[3]:
                self.rows(rows, e[2][lo:hi], True, where, msg)
            elif lo == 0 and hi is None:
                self.rows(rows, e[2], False, where, msg)
            else:
                # any of them may come first
                k = (len(e[2]) if hi is None else hi) - lo
                if len(rows) != k:
                    raise Fail("%s: %d rows, expected %d%s" % (where, len(rows), k, msg))
                self.part = (self.part if lo else []) + rows
                if hi is None:
                    self.rows(self.part, e[2], False, where, msg)
        if i != len(ev):
            raise Fail("more answers: %r%s" % (ev[i:i + 5], msg))

    def rows(self, got, exp, ordered, where, msg):
        g = [C.nrow(x, True) for x in got]
        w = [C.nrow(x, True) for x in exp]
        if (g != w) if ordered else (sorted(g) != sorted(w)):
            raise Fail("%s: rows %r, expected %r%s" % (where, g[:12], w[:12], msg))

    def show(self, case):
        d = super().show(case)
        d["acts"] = case["acts"]
        return d


PROPS = [Api]
