"""Client of harness/worker.cpp."""
import os, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

WORKER = os.path.join(build.VERIF, "harness", "worker.cpp")

def build_worker(variant="plain"):
    if variant == "interop": return build.build("plain", "workeri", [WORKER], main_flags=["-DVERIF_INTEROP", "-O0"])
    if variant == "interopasan": return build.build("asan", "workeri", [WORKER], main_flags=["-DVERIF_INTEROP", "-O0"])
    return build.build(variant, "worker", [WORKER])

class Resp:
    __slots__ = ("op", "ok", "err", "data")
    def __init__(self, fr):
        self.op = fr[0]; self.ok = fr[1] == "1"; self.err = fr[2]; self.data = fr[3:]
    def __repr__(self):
        return "<%s ok=%s err=%r data=%r>" % (self.op, self.ok, self.err, self.data)

class Result:
    """responses[i] for each op that completed; status = exit0 / sigN / exitN"""
    def __init__(self, responses, status, nops):
        self.r = responses; self.status = status; self.nops = nops
    @property
    def clean(self):
        return self.status == "exit0"
    @property
    def timeout(self):
        return self.status in ("sig27", "sig14", "sig24", "sig9")
    def __getitem__(self, i):
        return self.r[i] if i < len(self.r) else None
    def crash_text(self):
        return "%s after %d/%d operations" % (self.status, len(self.r), self.nops)

class WorkerDied(Exception):
    pass

class Worker:
    def __init__(self, variant="plain", args=(), exe=None, env=None, stderr=None, cwd="/tmp"):
        self.cwd = cwd
        self.exe = exe or build_worker(variant); self.args = list(args); self.p = None
        self.env = dict(os.environ); self.env["NULLC_REPO"] = build.REPO
        self.env.setdefault("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=0:handle_sigfpe=0:abort_on_error=1")
        if env: self.env.update(env)
        self.stderr = stderr
        self.start()
    def start(self):
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=self.env, stderr=self.stderr, cwd=self.cwd)
        f = self._read()
        if f is None or f[0] != "ready":
            raise WorkerDied("worker initialisation failed: %r" % (f,))
    def _readn(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise WorkerDied("worker pipe closed")
        return b
    def _read(self):
        try:
            n = struct.unpack("<I", self._readn(4))[0]
        except WorkerDied:
            return None
        out = []
        for _ in range(n):
            l = struct.unpack("<I", self._readn(4))[0]
            out.append(self._readn(l).decode("latin-1"))
        return out
    @staticmethod
    def _enc(fields):
        parts = [struct.pack("<I", len(fields))]
        for x in fields:
            if not isinstance(x, (str, bytes)): x = str(x)
            if isinstance(x, str): x = x.encode("latin-1", "replace")
            parts.append(struct.pack("<I", len(x))); parts.append(x)
        return b"".join(parts)
    def run(self, ops, timeout_ms=4000, as_mb=0):
        msg = self._enc([timeout_ms, as_mb, len(ops)]) + b"".join(self._enc(o) for o in ops)
        self.p.stdin.write(msg); self.p.stdin.flush()
        res = []
        while True:
            f = self._read()
            if f is None:
                raise WorkerDied("worker died")
            if f[0] == "end":
                return Result(res, f[1], len(ops))
            res.append(Resp(f))
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()

def R(ops, w=[None], variant="plain"):
    if w[0] is None: w[0] = Worker(variant)
    return w[0].run(ops)
