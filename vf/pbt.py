"""A small property-based testing core.

Generators are functions of a Src, which records every decision as a bounded integer.  A
case is reproduced from its decision list, and a failure is shrunk on that list (delete
chunks, zero, minimise), which keeps every generator invariant intact.
"""
import base64
import hashlib
import json
import multiprocessing as mp
import os
import queue as _q
import random
import resource
import signal
import sys
import time
import traceback

from . import build
from .engine import Box, Engine

VERIF = build.VERIF


class Fail(Exception):
    """the property does not hold on this case"""


class Discard(Exception):
    """the case is outside the property's domain (counted, not checked)"""


class Src:
    __slots__ = ("rng", "pre", "pos", "rec", "size")

    def __init__(self, rng=None, pre=None, size=1.0):
        self.rng, self.pre, self.pos, self.rec, self.size = rng, pre, 0, [], size

    def below(self, n):
        """0..n-1; 0 is the simplest"""
        if n <= 1:
            return 0
        if self.pre is not None:
            v = self.pre[self.pos] if self.pos < len(self.pre) else 0
            self.pos += 1
            if v >= n:
                v = v % n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, p=0.5):
        return self.below(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """[(weight, value)...]; the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def count(self, lo, hi, p_more=0.75):
        """a size, geometric, so that shrinking can drop elements"""
        n = lo
        while n < hi and self.bool(p_more):
            n += 1
        return n

    def list(self, lo, hi, f, p_more=0.75):
        out = []
        while len(out) < hi and (len(out) < lo or self.bool(p_more)):
            out.append(f())
        return out

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


def enc(o):
    """JSON-able view of a case (bytes become latin-1 with a marker)"""
    if isinstance(o, bytes):
        try:
            t = o.decode("ascii")
            if t.isprintable() or all(c.isprintable() or c in "\n\t\r" for c in t):
                return {"b": t}
        except UnicodeDecodeError:
            pass
        return {"b64": base64.b64encode(o).decode()}
    if isinstance(o, dict):
        return {"d": [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if "b" in o:
            return o["b"].encode("ascii")
        if "b64" in o:
            return base64.b64decode(o["b64"])
        return {_hash(dec(k)): dec(v) for k, v in o["d"]}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def _hash(k):
    return tuple(k) if isinstance(k, list) else k


class Prop:
    """One property.  Subclasses: id, title, gen(src) -> case, run(ctx, case) -> info dict.

    info: {"nontrivial": bool, "tags": [..]}; run raises Fail (violation) or Discard.
    """
    id = None
    rule = ""
    needs_engine = True
    confirm_runs = 3       # a failure must reproduce on every one of these
    confirm_min = 3
    assumptions = ()

    def prepare(self, tier):
        """build; returns a picklable context payload"""
        return {"bin": build.engine(san=False), "asan": build.engine(san=True)}

    def open(self, payload, wid=0):
        return Ctx(payload, wid)

    def directed(self):
        return []

    def gen(self, src):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError


class Ctx:
    """per-worker state; some workers run the sanitized engine, the others the plain one"""

    def __init__(self, payload, wid=0):
        self.payload = payload
        self.wid = wid
        self.box = Box()
        self.san = bool(payload.get("asan")) and wid % 8 in (0, 3, 6)
        b = payload["asan"] if self.san else payload.get("bin")
        if payload.get("tsan") and wid % 8 in (1, 4):
            b = payload["tsan"]
        self.eng = Engine(b) if b else None

    def close(self):
        if self.eng:
            self.eng.stop()
        self.box.close()


def _attempt(prop, ctx, case):
    """-> (failure text or None, info)"""
    try:
        return None, prop.run(ctx, case) or {}
    except Fail as e:
        return str(e) or "failed", {}
    except MemoryError:
        raise Discard


def _shrink(prop, ctx, choices, size, first_msg, deadline):
    def test(ch):
        s = Src(pre=ch, size=size)
        try:
            case = prop.gen(s)
        except Discard:
            return None
        try:
            m, _ = _attempt(prop, ctx, case)
        except Discard:
            return None
        if m is None:
            return None
        return s.rec, case, m

    best = None
    r = test(choices)
    if r is None:
        return None
    best = r
    improved = True
    while improved and time.time() < deadline:
        improved = False
        # delete chunks
        k = max(1, len(best[0]) // 2)
        while k >= 1 and time.time() < deadline:
            i = len(best[0]) - k
            while i >= 0 and time.time() < deadline:
                cand = best[0][:i] + best[0][i + k:]
                r = test(cand)
                if r and (len(r[0]), r[0]) < (len(best[0]), best[0]):
                    best = r
                    improved = True
                    i = min(i, len(best[0])) - k
                else:
                    i -= k
            k //= 2
        # lower values
        i = 0
        while i < len(best[0]) and time.time() < deadline:
            v = best[0][i]
            if v:
                for nv in (0, v // 2, v - 1):
                    if nv >= v:
                        continue
                    cand = list(best[0])
                    cand[i] = nv
                    r = test(cand)
                    if r and (len(r[0]), r[0]) < (len(best[0]), best[0]):
                        best = r
                        improved = True
                        break
            i += 1
    return best


def _worker(prop, payload, wid, seed, deadline, min_cases, max_cases, outq, stop, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = None
    st = {"n": 0, "disc": 0, "nt": set(), "tags": {}, "samples": [], "unconfirmed": [], "known": {}}
    try:
        ctx = prop.open(payload, wid)
        # a model that blows up is ended by MemoryError, not by the machine
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        rng = random.Random("%s/%s/%s" % (prop.id, seed, wid))
        directed = [c for i, c in enumerate(prop.directed()) if i % payload["nworkers"] == wid]
        hard = deadline + 300
        while not stop.is_set():
            now = time.time()
            if st["n"] >= max_cases or (now > deadline and st["n"] >= min_cases) or now > hard:
                break
            if directed:
                case, choices, size = directed.pop(0), None, 1
            else:
                size = rng.choice([0.3, 1, 1, 1, 2])
                s = Src(rng=rng, size=size)
                try:
                    case = prop.gen(s)
                except (Discard, MemoryError):
                    st["disc"] += 1
                    continue
                choices = s.rec
            st["n"] += 1
            try:
                msg, info = _attempt(prop, ctx, case)
            except Discard:
                st["disc"] += 1
                continue
            if msg is None:
                for t in info.get("tags", ()):
                    st["tags"][t] = st["tags"].get(t, 0) + 1
                if info.get("nontrivial"):
                    h = hashlib.blake2b(json.dumps(enc(case), sort_keys=True).encode(), digest_size=8).digest()
                    if h not in st["nt"] and len(st["nt"]) < 400000:
                        st["nt"].add(h)
                        if len(st["samples"]) < 2 or (len(st["samples"]) < 6 and rng.random() < 0.01):
                            st["samples"].append(prop.show(case) if hasattr(prop, "show") else enc(case))
                continue
            kf = prop.known_match(case, msg, known) if hasattr(prop, "known_match") else None
            if kf:
                st["known"][kf] = st["known"].get(kf, 0) + 1
                continue
            # confirm
            ok = 0
            Engine.time_scale = 3       # a hang is one only if much more time does not end it
            for _ in range(prop.confirm_runs):
                try:
                    m, _i = _attempt(prop, ctx, case)
                except Discard:
                    m = None
                if m is not None:
                    ok += 1
                if ok >= prop.confirm_min:
                    break
            Engine.time_scale = 1
            if ok < prop.confirm_min:
                st["unconfirmed"].append({"msg": msg[:500], "case": enc(case), "reproduced": ok})
                if len(st["unconfirmed"]) > 20:
                    break
                continue
            rec = {"case": enc(case), "msg": msg, "choices": choices, "size": size, "shrunk": False}
            if choices is not None and not stop.is_set():
                orig_known = (lambda c, m: prop.known_match(c, m, known)) if hasattr(prop, "known_match") else None
                b = _shrink(prop, ctx, choices, size, msg, min(time.time() + payload["shrink_s"], hard))
                if b is not None and not (orig_known and orig_known(b[1], b[2])):
                    rec.update(case=enc(b[1]), msg=b[2], choices=b[0], shrunk=True)
            outq.put(("fail", wid, rec))
            break
    except Exception:
        outq.put(("error", wid, traceback.format_exc()))
    finally:
        if ctx:
            ctx.close()
        outq.put(("done", wid, st))
        outq.close()
        outq.join_thread()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [f for f in d.get("findings", []) if f["property"] == pid]


def main(prop, tier, replay=None, seconds=None, workers=None, seed=None):
    t0 = time.time()
    if seed is None:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        payload = prop.prepare(tier)
    except build.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        print("BUILD-FAILED property=%s" % prop.id)
        return 3
    nworkers = workers or getattr(prop, "workers", None) or min(8, os.cpu_count() or 4)
    payload["nworkers"] = nworkers
    payload["shrink_s"] = 25 if tier == "quick" else 60
    payload["tier"] = tier
    known = load_known(prop.id)
    if replay:
        rec = json.load(open(replay))
        for wid in (0, 1):      # sanitized, then plain
            ctx = prop.open(payload, wid)
            try:
                m, info = _attempt(prop, ctx, dec(rec["case"]))
            except Discard:
                print("the replayed case is outside of what the check decides")
                return 0
            finally:
                ctx.close()
            if m:
                break
        if m:
            print(m)
            print("VIOLATION property=%s replay=%s" % (prop.id, replay))
            return 1
        print("held on the replayed case")
        return 0

    # known findings first
    if known:
        ctx = prop.open(payload)
        try:
            for f in known:
                try:
                    m, _ = _attempt(prop, ctx, dec(f["case"]))
                except Discard:
                    m = None
                if m:
                    print("KNOWN-FINDING: property=%s %s" % (prop.id, f["what"]))
        finally:
            ctx.close()

    secs = seconds or {"quick": getattr(prop, "quick_s", 25), "thorough": getattr(prop, "thorough_s", 420)}[tier]
    start = time.time()
    deadline = start + secs
    min_cases = getattr(prop, "min_cases", 30)
    max_cases = 10 ** 9
    outq = mp.Queue()
    stop = mp.Event()
    procs = [mp.Process(target=_worker, args=(prop, payload, w, seed, deadline, min_cases, max_cases,
                                              outq, stop, known)) for w in range(nworkers)]
    for p in procs:
        p.start()
    fails, errors, stats = [], [], []
    done = 0
    while done < nworkers:
        try:
            k, w, v = outq.get(timeout=5)
        except _q.Empty:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline + 700:
                errors.append("workers did not end")
                break
            continue
        if k == "fail":
            fails.append(v)
            stop.set()
        elif k == "error":
            errors.append(v)
        else:
            stats.append(v)
            done += 1
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    n = sum(s["n"] for s in stats)
    nt = set()
    tags = {}
    samples, unconf, kn = [], [], {}
    for s in stats:
        nt |= s["nt"]
        samples += s["samples"]
        unconf += s["unconfirmed"]
        for k, v in s["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in s["known"].items():
            kn[k] = kn.get(k, 0) + v
    rc = 0
    viol = []
    if fails:
        fails.sort(key=lambda r: (len(json.dumps(r["case"]))))
        rec = fails[0]
        rec["property"] = prop.id
        rec["how"] = "python3 /verif/check.py %s quick --replay <this file>" % prop.id
        h = hashlib.blake2b(json.dumps(rec["case"], sort_keys=True).encode(), digest_size=6).hexdigest()
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop.id, h))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print("property %s does not hold:" % prop.id)
        print(rec["msg"][:4000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        viol.append({"replay": path, "what": rec["msg"][:1000]})
        rc = 1
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(nt), "rule": prop.rule,
            "samples": samples[:12],
            "discarded": sum(s["disc"] for s in stats),
            "tags": dict(sorted(tags.items())),
            "workers": nworkers, "search_s": round(time.time() - start, 1),
            "unconfirmed": unconf[:5], "known_hits": kn,
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.time() - t0, 1),
        "violations": viol,
    }
    if errors:
        ev["coverage"]["errors"] = [e[-1500:] for e in errors[:3]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop.id + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=lambda b: b.decode('utf8', 'backslashreplace') if isinstance(b, bytes) else repr(b))
    os.replace(tmp, os.path.join(VERIF, "evidence", prop.id + ".json"))
    print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %d unconfirmed, %.0f s%s" % (
        prop.id, tier, n, len(nt), ev["coverage"]["discarded"], len(unconf), time.time() - t0,
        ", ERRORS" if errors else ""))
    if errors and rc == 0:
        sys.stderr.write(errors[0] + "\n")
        # a harness error is not a verdict; it only fails the run when nothing was explored
        if n == 0:
            return 3
    return rc
