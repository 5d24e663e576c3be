"""Builds harness binaries from /repo's current working tree.

Every object is compiled from the working tree and cached under a scratch directory by
the hash of everything that can influence it (its source, every header, the flags), so a
changed tree is always recompiled and an unchanged one is not compiled twice in one
sandbox.  Nothing here is needed between runs: an empty cache only costs time.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", "/tmp/vf-cache")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash(include_dirs):
    h = hashlib.sha256()
    for d in include_dirs:
        for p in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/**/*.h", recursive=True)):
            h.update(p.encode())
            h.update(_read(p))
    return h.hexdigest()


_hh = {}


def _obj(cmd, src, hdirs, out_ext=".o"):
    """compile (cmd without -o) and return the path of the cached object"""
    key = tuple(hdirs)
    if key not in _hh:
        _hh[key] = _headers_hash(hdirs)
    h = hashlib.sha256()
    h.update(_hh[key].encode())
    h.update("\0".join(cmd).encode())
    h.update(_read(src))
    out = os.path.join(CACHE, h.hexdigest()[:32] + out_ext)
    if os.path.exists(out):
        return out
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode("utf8", "replace")[-3000:]))
    os.rename(tmp, out)
    return out


def _parallel(jobs):
    with cf.ThreadPoolExecutor(max(4, os.cpu_count() or 4)) as ex:
        futs = [ex.submit(*j) for j in jobs]
        return [f.result() for f in futs]


def _link(cmd_prefix, objs, libs, name):
    h = hashlib.sha256("\0".join(cmd_prefix + objs + libs).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "%s-%s" % (name, h))
    if os.path.exists(out):
        return out
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd_prefix + ["-o", tmp] + objs + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode("utf8", "replace")[-3000:]))
    os.rename(tmp, out)
    return out


def _incs():
    return ["-I" + VERIF + "/shim", "-I/usr/include/antlr4-runtime",
            "-I" + REPO + "/lib", "-I" + REPO + "/lib/include", "-I" + REPO + "/lib/antlr",
            "-I" + REPO + "/lib/antlr/gen", "-I" + REPO + "/util", "-I" + REPO]


def _prep():
    os.makedirs(CACHE, exist_ok=True)
    _prune()


def _prune(limit=3 << 30):
    fs = []
    tot = 0
    for f in os.scandir(CACHE):
        try:
            st = f.stat()
        except OSError:
            continue
        fs.append((st.st_mtime, st.st_size, f.path))
        tot += st.st_size
    fs.sort()
    for _, s, p in fs:
        if tot < limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


ALLH = [REPO + "/util", REPO + "/lib", VERIF + "/shim", VERIF + "/harness"]

SCHEMA_DIR = os.path.join(VERIF, "schema")  # build-time default, see engine()


WRAP = ["fifo_is_empty", "fifo_is_full", "fifo_receivable", "fifo_begin", "fifo_get_or_wait", "fifo_add", "fifo_update",
        "fifo_consume", "fifo_set_open", "fifo_wait_for_add", "fifo_wait_for_get"]


FAULT_WRAP = ["mkstemp", "fdopen", "fopen", "fclose", "rename", "chmod", "fchmod"]


def engine(san=True, tsan=False, jitter=False, fault=False):
    """the whole engine + the fork-server driver"""
    _prep()
    if tsan:
        sf = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
    else:
        sf = SAN if san else []
    inc = _incs()
    cflags = ["-std=gnu11", "-g", "-O1", "-w"] + sf + \
        ["-DSCHEMA_DATADIR=" + REPO + "/lib/schema", "-pthread"] + inc
    cxx = ["-std=c++17", "-g", "-O1", "-w"] + sf + inc
    gen = ["-std=c++17", "-O1", "-w", "-include", VERIF + "/shim/antlr_compat.h"] + inc
    jobs = []
    # big ones first
    for f in sorted(glob.glob(REPO + "/lib/antlr/gen/*.cpp"), key=lambda p: -os.path.getsize(p)):
        jobs.append((_obj, ["g++", *gen, "-c", f], f, ALLH))
    for f in sorted(glob.glob(REPO + "/lib/antlr/*.cpp")):
        jobs.append((_obj, ["g++", *cxx, "-c", f], f, ALLH))
    for f in sorted(glob.glob(REPO + "/util/*.c") + glob.glob(REPO + "/lib/*.c")):
        jobs.append((_obj, ["gcc", *cflags, "-c", f], f, ALLH))
    jobs.append((_obj, ["gcc", *cflags, "-Dmain=fql_main", "-c", REPO + "/src/fql.c"],
                 REPO + "/src/fql.c", ALLH))
    fd = ["-DVF_FAULT"] if fault else []
    for f in [VERIF + "/shim/csv.c", VERIF + "/harness/driver.c"] + ([VERIF + "/harness/jitter.c"] if jitter else []) + \
            ([VERIF + "/harness/fault.c"] if fault else []):
        jobs.append((_obj, ["gcc", *cflags, *fd, "-c", f], f, ALLH))
    objs = _parallel(jobs)
    wrap = ["-Wl,--wrap=" + w for w in (WRAP if jitter else []) + (FAULT_WRAP if fault else [])]
    return _link(["g++", *sf, *wrap], objs, ["-lantlr4-runtime", "-lpcre2-8", "-lreadline", "-pthread"],
                 "driver")


def component(name, srcs, repo_srcs, cxx=True, san=True, libs=(), extra=(), repo_extra=(),
              repo_prefix=None):
    """a component harness: harness sources + selected repository C files"""
    _prep()
    sf = SAN if san else []
    inc = _incs()
    jobs = []
    for f in repo_srcs:
        jobs.append((_obj, ["gcc", "-std=gnu11", "-g", "-O1", "-w", *sf, "-pthread", *inc,
                            *repo_extra, "-c", f], f, ALLH))
    for f in srcs:
        if f.endswith(".cpp"):
            jobs.append((_obj, ["g++", "-std=c++17", "-g", "-O1", "-w", *sf, "-pthread", *inc,
                                *extra, "-c", f], f, ALLH))
        else:
            jobs.append((_obj, ["gcc", "-std=gnu11", "-g", "-O1", "-w", *sf, "-pthread", *inc,
                                *extra, "-c", f], f, ALLH))
    objs = _parallel(jobs)
    return _link(["g++", *sf], objs, list(libs) + ["-pthread"], name)


def util(kind="asan"):
    """the containers of util/ behind the fork server"""
    _prep()
    sf = {"asan": SAN, "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "plain": []}[kind]
    fl = ["-std=gnu11", "-g", "-O1", "-w", "-DVF_UTIL", *sf, "-pthread", *_incs(), "-I" + REPO]
    objs = _parallel([(_obj, ["gcc", *fl, "-c", f], f, ALLH) for f in
                      [VERIF + "/harness/driver.c", VERIF + "/harness/utilops.c"] + util_sources()])
    return _link(["gcc", *sf], objs, ["-pthread"], "util")


def util_sources():
    return sorted(glob.glob(REPO + "/util/*.c"))


if __name__ == "__main__":
    import time
    t = time.time()
    print(engine(), time.time() - t)
