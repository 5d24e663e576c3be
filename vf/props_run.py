"""How a statement is run (threads, pipes, options, spelling) never changes what it does."""
from . import build
from . import props_sql as P
from . import props_dml as D
from .engine import Engine
from .pbt import Fail
from .sqlcheck import SqlProp


class Threads(SqlProp):
    """-t: the threaded run gives what the reference gives, under perturbed schedules"""
    id = "S14"
    rule = "a threaded run over at least one row under injected scheduling delays"
    confirm_runs = 12
    confirm_min = 1
    SUBS = [P.Scan, P.Cond, P.Group, P.Order, P.Union, P.Join, P.LeftJoin, P.Nested, D.Change]

    def __init__(self):
        self.subs = {c.id: c() for c in self.SUBS}

    def prepare(self, tier):
        return {"bin": build.engine(san=False, jitter=True), "asan": build.engine(san=True, jitter=True),
                "tsan": build.engine(san=False, tsan=True, jitter=True)}

    def gen(self, src):
        k = src.choice(sorted(self.subs))
        case = self.subs[k].gen(src)
        o = dict(case.get("opts") or {})
        o["threading"] = 1
        o["pipe_factor"] = src.choice([1, 2, 2, 3, 16])
        case["opts"] = o
        if case.get("view") == "apistep" or case.get("view") == "api" and k != "S12":
            case["view"] = "cli"       # stepping does not use threads
        case["sub"] = k
        return case

    def run(self, ctx, case):
        sub = self.subs[case["sub"]]
        for i in range(2):
            info = sub.run(ctx, case)
        t = [x for x in info.get("tags", []) if x not in ("cli", "api", "into")]
        return {"nontrivial": info.get("nontrivial"), "tags": [case["sub"]] + t[:3]}

    def show(self, case):
        return self.subs[case["sub"]].show(case)


PROPS = [Threads]
