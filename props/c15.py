"""C15: translated to C++, compiled against the shipped runtime and run, a generated program does what the reference interpreter says."""
import os, re, struct, subprocess, tempfile, shutil
import build, worker, langprop, langgen
from langgen import Opt
from engine import Outcome, VERIF

ID = "C15"
RULE = "a program that was translated, compiled and run, whose predicted run executes at least 40 model steps and makes at least 2 host calls or returns a value other than 0"
ASSUMPTIONS = ["the reference interpreter in lib/lang.py states the documented semantics",
               "translations are compiled by clang++ (operands and arguments from left to right) with -fwrapv -fno-strict-aliasing; where C++ leaves the order open a result of g++ that agrees is accepted as well",
               "the precision of intermediate results of type float is left open: a program that uses this type is only judged by its compilation and termination when the values differ",
               "programs that are predicted to fault are not judged: translated code has no checked errors with call stacks"]
N = {"quick": 1500, "thorough": 16000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 80, "thorough": 1500}

FLOAT = re.compile(r"\bfloat\b|\df\b")
RT = os.path.join(build.REPO, "NULLC", "translation")
FLAGS = ["-O0", "-w", "-fwrapv", "-fno-strict-aliasing", "-I" + RT]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")

def setup(): worker.build_worker("plain")

class Ctx:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c15-"); self.w = worker.Worker("plain", cwd=self.dir); self.n = 0; self.rt = {}
    def close(self):
        self.w.close(); shutil.rmtree(self.dir, ignore_errors=True)
    def cc(self, *a):
        p = subprocess.run(list(a), cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        return p.returncode, p.stdout.decode("latin1")
    def runtime(self, cxx):
        """objects of the runtime, the host functions and the translated module vt; an error text when they do not compile"""
        if cxx not in self.rt:
            objs = []; bad = None
            for f in (os.path.join(RT, "runtime.cpp"), os.path.join(VERIF, "harness", "vt_bind.cpp"), os.path.join(self.dir, "import_vt_nc.cpp")):
                o = "%s-%s.o" % (os.path.basename(f), cxx); objs.append(o)
                rc, t = self.cc(cxx, *FLAGS, "-c", f, "-o", o)
                if rc and bad is None: bad = t
            self.rt[cxx] = (objs, bad)
        return self.rt[cxx]

NF = dict(faults=0, floats=False)
MIX = [Opt(closures=80, coroutines=60, fnvals=80, **NF), Opt(classes=90, arrays=90, refs=80, coroutines=10, **NF), Opt(faults=0), Opt(faults=0, floats=False, classes=20, closures=10, coroutines=0), Opt(faults=0, closures=80, coroutines=60, fnvals=80), Opt(faults=0, classes=90, arrays=90, refs=80, coroutines=10)]
opt, _gen = langprop.mixed(MIX)
def gen(src, ctx):
    c = _gen(src, ctx, limit=6000, maxlen=5000)
    return None if c is None or c["expect"][0]["fault"] else c
_reduce = langprop.reducer(opt, limit=6000, maxlen=5000)
def reduce(case, choices):
    for c in _reduce(case, choices):
        if not c["expect"][0]["fault"]: yield c
def show(case): return case["code"]
def bad(out, kind, text, case): out.kind = kind; out.violation = text + "\n--- program\n" + case["code"]; return out

def wanted(x):
    t, v = x["result"] if x["result"] else (None, None)
    if t is None: return [""]
    if t != "double": return [v]
    if v == "nan": return ["nan", "-nan"]
    return ["%f" % struct.unpack("<d", bytes.fromhex(v)[::-1])[0]]

def translated(ctx, cxx, src):
    """(compile error, output, exit status) of the translation"""
    objs, e = ctx.runtime(cxx)
    if e: return e, "", None
    rc, t = ctx.cc(cxx, *FLAGS, "-o", "prog", src, *objs)
    if rc: return t or "compiler status %d" % rc, "", None
    try: p = subprocess.run(["./prog"], cwd=ctx.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=ENV)
    except subprocess.TimeoutExpired: return None, "", None
    return None, p.stdout.decode("latin1"), p.returncode

def run(case, ctx):
    out = Outcome(); x = case["expect"][0]
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    r = ctx.w.run([["exec", 0], ["opt", 0], ["compile", case["code"]], ["translate", "main.cpp", "main"]])
    out.evals = 1
    if r[2] is None or r[3] is None: return bad(out, "crash", "translation ended with " + r.status, case)
    if not r[2].ok: return bad(out, "nocompile", "a valid program was rejected: " + r[2].err, case)
    if not r[3].ok:
        if not r[3].err: return bad(out, "silent", "translation refused without an error", case)
        out.labels = list(out.labels) + ["refused"]; return out
    want = wanted(x); ok = lambda o, rc: rc == 0 and any(o == x["trace"] + w for w in want)
    e, o, rc = translated(ctx, "clang++", "main.cpp"); out.evals += 1
    if e: return bad(out, "cxx", "generated C++ does not compile:\n" + e[:1500], case)
    if not ok(o, rc):
        e2, o2, rc2 = translated(ctx, "g++", "main.cpp")
        if e2 is None and ok(o2, rc2): out.labels = list(out.labels) + ["order left open"]; return out
        if rc == 0 and FLOAT.search(case["code"]): out.labels = list(out.labels) + ["float precision left open"]; return out
        return bad(out, "crash" if rc is not None and rc < 0 else "output", "translation ended with status %r and output\n%s\nexpected status 0 and\n%s%s" % (rc, o, x["trace"], want[0]), case)
    out.nontrivial = case["steps"] >= 40 and (x["trace"].count("\n") >= 2 or bool(x["result"] and x["result"][1] not in ("0", "0" * 16)))
    return out
