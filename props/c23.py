"""C23: compiling and running are functions of the source and settings: same bytes, listing, errors and behaviour every time, in every process."""
import re, os, json, hashlib
import worker, langgen, langprop
from langgen import Opt
from engine import Outcome, VERIF

ID = "C23"
RULE = "a program compiled at least three times (twice in one process, once in a process with other memory contents and a different history) with byte code, listing and run compared; a rejected text counts when its errors were compared"
ASSUMPTIONS = ["the second process has different environment, heap fill pattern and history; address space randomisation is on",
               "the result of a run that ended with an error is not looked at", "programs that ask for the time, random numbers, memory statistics or addresses are not used"]
N = {"quick": 6000, "thorough": 150000}
CAP = {"quick": 70, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 800, "thorough": 8000}

C = json.load(open(os.path.join(VERIF, "corpus", "snippets.json")))
VOL = re.compile(r"clock|rand|\btime\b|UsedMemory|GC\.|hash_value|__hash|typeid\(|hashmap|std\.file|std\.gc")
GOOD = [s for s in C["good"] if len(s) < 4000 and not VOL.search(s)]; BAD = [s for s in C["bad"] if len(s) < 1500]
del C
MIX = [Opt(), Opt(size=20), Opt(faults=30), Opt(fnvals=60, closures=60, coroutines=50, size=10), Opt(arrays=95, classes=90, refs=90)]

class Ctx:
    def __init__(self):
        e1 = {"MALLOC_PERTURB_": "0"}; e2 = {"MALLOC_PERTURB_": "165", "C23_PAD": "x" * 3000}
        self.a = worker.Worker("plain", env=e1); self.b = worker.Worker("plain", env=e2)
        self.dir = os.path.join(VERIF, "build", "c23"); os.makedirs(self.dir, exist_ok=True)
        self.f = os.path.join(self.dir, "l%d_" % os.getpid())
    def close(self):
        self.a.close(); self.b.close()
        for x in "12b":
            try: os.unlink(self.f + x)
            except OSError: pass

def setup(): worker.build_worker("plain")

def program(src):
    k = src.w([(50, "lang"), (34, "good"), (16, "bad")])
    if k == "lang": return k, langgen.G(src, src.pick(MIX)).program().render()
    return k, src.pick(GOOD if k == "good" else BAD)

def gen(src, ctx):
    k, code = program(src)
    if len(code) > 12000: return None
    h = [program(src)[1] for _ in range(src.rng(1, 3))]
    return {"kind": k, "code": code, "hist": h, "exec": 0 if src.p(60) or k != "lang" else 1, "opt": src.i(3), "runhist": src.p(70)}

def body(code, f, slot):
    return [["compile", code], ["bytecode", slot, "nocache"], ["getslot", slot], ["listing", f], ["clean"], ["build", code], ["run"], ["result"], ["trace"], ["out"], ["globals", ""]]
NAMES = ["compile", "bytecode", "bytecode contents", "listing", "clean", "build", "run", "result", "host calls", "output", "globals"]

def part(r, i, f):
    x = [r[i + k] for k in range(len(NAMES))]
    out = []
    for k, y in enumerate(x):
        if y is None: out.append((NAMES[k], "no answer")); break
        if NAMES[k] == "result" and x[k - 1] is not None and not x[k - 1].ok: continue   # a run that failed has no result
        out.append((NAMES[k], (y.ok, y.err, y.data)))
    t = None
    try: t = open(f, "rb").read()
    except OSError: pass
    out.append(("listing contents", t))
    return out

def diff(x, y):
    for (n, a), (_, b) in zip(x, y):
        if a == b: continue
        if n == "bytecode contents":
            a = a[2][0]; b = b[2][0]; k = [i for i in range(min(len(a), len(b))) if a[i] != b[i]]
            return n, "byte code differs: sizes %d and %d, %d bytes differ, first at %s" % (len(a), len(b), len(k), k[:8])
        if n == "listing contents":
            la, lb = (v.decode("latin-1").split("\n") if v else [] for v in (a, b))
            for i, (p, q) in enumerate(zip(la, lb)):
                if p != q: return n, "listing line %d: %r and %r" % (i + 1, p[:300], q[:300])
            return n, "listing length %d and %d lines" % (len(la), len(lb))
        return n, "%s: %s and %s" % (n, str(a)[:900], str(b)[:900])
    if len(x) != len(y): return "answers", "%d and %d answers" % (len(x), len(y))

def run(case, ctx):
    f = ctx.f; code = case["code"]
    for x in "12b":
        try: os.unlink(f + x)
        except OSError: pass
    cfg = [["exec", case["exec"]], ["opt", case["opt"]]]
    B = body(code, f + "1", "a"); B2 = body(code, f + "2", "b")
    ra = ctx.a.run(cfg + B + B2)
    hist = []
    for h in case["hist"]: hist += [["build", h]] + ([["run"], ["out"], ["trace"]] if case["runhist"] else [])
    hist += [["clean"]]
    Bb = body(code, f + "b", "a")
    # the history only runs in the second process; it must not end it
    rb = ctx.b.run(cfg + hist + Bb)
    out = Outcome(labels=[case["kind"], "executor %d" % case["exec"], "optimization %d" % case["opt"]], sample=code[:500], evals=3)
    pa = part(ra, 2, f + "1")
    if not ra.clean or ra[2] is None:
        # endless or crashing programs belong to other properties; the first one already ended the process
        out.labels.append("does not finish"); return out
    pb = part(rb, 2 + len(hist), f + "b")
    if rb[2 + len(hist)] is None or (rb.status != "exit0" and len(rb.r) <= 2 + len(hist)):
        out.labels.append("history does not finish"); pb = None
    p2 = part(ra, 2 + len(B), f + "2")
    d = diff(pa, p2)
    if d: return bad(out, case, "again:" + d[0], "compiled and run again in the same process: " + d[1])
    if pb is not None:
        d = diff(pa, pb)
        if d: return bad(out, case, "process:" + d[0], "compiled and run in another process: " + d[1])
        out.nontrivial = True
    out.labels.append("accepted" if ra[2].ok else "rejected")
    return out

def bad(out, case, kind, text):
    out.violation = "%s (executor %d optimization %d)\n--- program\n%s" % (text, case["exec"], case["opt"], case["code"]); out.kind = kind
    return out

def show(case): return case["code"]
