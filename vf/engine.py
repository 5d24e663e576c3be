"""Client of the fork-server driver (harness/driver.c)."""
import os
import shutil
import signal
import struct
import resource
import subprocess
import tempfile

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:exitcode=99:handle_abort=1:"
                    "allocator_may_return_null=1:max_allocation_size_mb=2000:"
                    "quarantine_size_mb=4:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=0",
    "TSAN_OPTIONS": "exitcode=99:report_signal_unsafe=0",
    "LC_ALL": "C", "LANG": "C", "TZ": "UTC",
})
for k in ("FQL_SCHEMA", "FQL_SCHEMA_PATH"):
    ENV.pop(k, None)

TIMEOUT_MS = 10000


def unlimit():
    """the checking process limits its own address space; sanitized programs need theirs"""
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


class Result:
    __slots__ = ("status", "out", "err", "res", "timeout")

    def __init__(self, status, out, err, res):
        self.timeout = status == 0xFFFFFFFF
        self.status = status
        self.out, self.err, self.res = out, err, res

    @property
    def rc(self):
        """exit code, negative signal, or None on a hang"""
        if self.timeout:
            return None
        if os.WIFSIGNALED(self.status):
            return -os.WTERMSIG(self.status)
        return os.WEXITSTATUS(self.status)

    def crashed(self):
        """None, or a description: a hang, a signal or a sanitizer report"""
        if self.timeout:
            return "hang (no end after %d ms)" % TIMEOUT_MS
        rc = self.rc
        if rc < 0:
            return "killed by signal %d" % -rc + _san(self.err)
        if rc in (97, 98, 99) or b"runtime error:" in self.err or b"ERROR: AddressSanitizer" in self.err:
            return "sanitizer/abnormal exit %d" % rc + _san(self.err)
        return None

    def msg(self):
        return self.err.decode("utf8", "replace").strip()


def _san(err):
    t = err.decode("utf8", "replace")
    keep = [l.strip() for l in t.splitlines()
            if "ERROR:" in l or "runtime error" in l or l.strip().startswith(("#0", "#1 ", "#2 ", "#3 ", "#4 "))]
    return ": " + " | ".join(keep[:6])[:700] if keep else ""


class Engine:
    def __init__(self, binary):
        self.binary = binary
        self.p = None

    def _start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=ENV, cwd="/", bufsize=0, preexec_fn=unlimit)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.kill()
                self.p.wait()
                self.p.stdout.close()
            except OSError:
                pass
            self.p = None

    def _read(self, n):
        b = bytearray()
        while len(b) < n:
            g = self.p.stdout.read(n - len(b))
            if not g:
                raise EOFError
            b += g
        return bytes(b)

    time_scale = 1

    def request(self, mode, cwd, args, stdin="", timeout_ms=None):
        r = self._request(mode, cwd, args, stdin, timeout_ms)
        if b"syntax error" in r.err and "L" not in mode:
            # SLL prediction may reject what LL accepts: only the LL verdict counts
            return self._request(mode[:3] + "L", cwd, args, stdin, timeout_ms)
        return r

    def _request(self, mode, cwd, args, stdin="", timeout_ms=None):
        for attempt in (0, 1):
            if attempt:
                mode = mode.replace("!", "")
            body = b"".join((a if isinstance(a, bytes) else a.encode("utf8")) + b"\0" for a in
                            [mode, cwd, stdin, str(int((timeout_ms or TIMEOUT_MS) * self.time_scale))] + list(args))
            if self.p is None or self.p.poll() is not None:
                self.stop()
                self._start()
            try:
                self.p.stdin.write(struct.pack("<I", len(body)) + body)
                hd = struct.unpack("<4I", self._read(16))
                return Result(hd[0], self._read(hd[1]), self._read(hd[2]), self._read(hd[3]))
            except (EOFError, BrokenPipeError, struct.error):
                self.stop()
        raise RuntimeError("the driver cannot be started: " + self.binary)

    def cli(self, cwd, args, stdin="", timeout_ms=None):
        return self.request("cli!", cwd, args, stdin, timeout_ms)

    def api(self, cwd, args, stdin="", timeout_ms=None):
        return self.request("api!", cwd, args, stdin, timeout_ms)


def parse_api(res):
    """-> list of events: ("RC", n), ("FIELDS", n), ("ROW", [(type, is_null, value)...]), ("DONE",)"""
    ev = []
    i = 0
    n = len(res)

    def line():
        nonlocal i
        j = res.find(b"\n", i)
        if j < 0:
            j = n
        l = res[i:j]
        i = j + 1
        return l

    while i < n:
        l = line()
        k, _, rest = l.partition(b" ")
        if k == b"RC":
            ev.append(("RC", int(rest)))
        elif k == b"FIELDS":
            ev.append(("FIELDS", int(rest)))
        elif k == b"DONE":
            ev.append(("DONE",))
        elif k == b"ROW":
            row = []
            for _ in range(int(rest)):
                t = res[i:i + 1]
                if t == b"S":
                    j = res.index(b" ", i + 4)
                    isn = res[i + 2:i + 3] != b"0"
                    ln = int(res[i + 4:j])
                    row.append(("S", isn, res[j + 1:j + 1 + ln]))
                    i = j + 1 + ln + 1
                else:
                    l = line().split(b" ")
                    isn = l[1] != b"0"
                    if t == b"I":
                        row.append(("I", isn, int(l[2])))
                    elif t == b"F":
                        row.append(("F", isn, float(l[2])))
                    else:
                        row.append(("?", isn, int(l[2])))
            ev.append(("ROW", row))
        else:
            ev.append(("JUNK", l))
    return ev


class Box:
    """A per-worker scratch directory that an unprivileged engine process may write."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.root = tempfile.mkdtemp(prefix="vf-", dir=base)
        os.chmod(self.root, 0o755)
        self.dir = os.path.join(self.root, "w")
        self.aux = os.path.join(self.root, "x")
        os.mkdir(self.aux)
        self.fresh({})

    def fresh(self, files):
        """empty the case directory, then write files {name: bytes}"""
        if os.path.isdir(self.dir):
            for e in os.scandir(self.dir):
                if e.is_dir(follow_symlinks=False):
                    shutil.rmtree(e.path)
                else:
                    os.unlink(e.path)
        else:
            os.mkdir(self.dir)
        os.chmod(self.dir, 0o777)
        for name, data in files.items():
            p = os.path.join(self.dir, name)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
                os.chmod(d, 0o777)
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, 0o666)
        return self.dir

    def aux_file(self, name, data):
        p = os.path.join(self.aux, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def listing(self):
        """{relative path: bytes} of everything in the case directory"""
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, self.dir)] = b"LINK " + os.readlink(p).encode()
                    continue
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.dir)] = fh.read()
        return out

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
