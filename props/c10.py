"""C10: a host leaves no trace: every build and run inside a random history of host calls gives what it gives in a fresh process."""
import re, os, json
import worker, langgen, langrun, faultgen
from langgen import Opt
from engine import Outcome, VERIF

ID = "C10"
RULE = "a history of at least four host calls containing at least one checked step that follows a failed, cleaned, terminated or differently configured step"
ASSUMPTIONS = ["a fresh process is a fork of a worker that initialised the library, bound the standard modules and compiled them once",
               "programs that ask for the time, random numbers, memory statistics or addresses are not used",
               "call stacks of stack overflows are not compared (their depth follows the free stack)"]
N = {"quick": 4500, "thorough": 60000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

C = json.load(open(os.path.join(VERIF, "corpus", "snippets.json")))
VOL = re.compile(r"clock|rand|\btime\b|UsedMemory|GC\.|hash_value|__hash|typeid\(|std\.file|std\.gc|canvas|window|std\.dynamic")
GOOD = [s for s in C["good"] if len(s) < 3000 and not VOL.search(s)]; BAD = [s for s in C["bad"] if len(s) < 1500]
del C
MIX = [Opt(size=8), Opt(faults=40, size=8), Opt(fnvals=60, closures=60, coroutines=50, size=8), Opt(arrays=95, classes=90, refs=90, size=8)]

FIXED = ["int f(int x){ return x < 1 ? 0 : 1 + f(x - 1); } int g1 = f(1000000000); return g1;",
         "class T{ int x; void finalize(){ g2++; } } int g2; for(int i = 0; i < 5; i++){ T ref t = new T; } return g2;",
         "int g1 = 5; int ref p; g1 = 7; return *p;", "int g1 = 3; int f(int x){ g1 += x; return g1; } return f(4);",
         "import vt; ts(\"text\"); stop(\"end\"); return 1;", "", "return 1", "import std.nomodule; return 2;", "int[] a = new int[2000]; return a.size;",
         "int[] a = new int[100000000]; a = new int[2000000000]; return a.size;",
         "coroutine int f(){ for(int i = 0; i < 10; i++) yield i; return 100; } int g1; for(int i = 0; i < 4; i++) g1 = f(); return g1;",
         "import std.vector; vector<int> v; for(int i = 0; i < 100; i++) v.push_back(i); return v[57];",
         "import std.hashmap; hashmap<char[], int> m; m[\"a\"] = 5; m[\"b\"] = 6; return m[\"a\"] + m[\"b\"];",
         "import std.gc; char[] g1 = \"hello\"; for(int i = 0; i < 50; i++){ g1 = g1 + \"x\"; } GC.CollectMemory(); return g1.size;"]

class Ctx:
    def __init__(self): self.w = worker.Worker("plain"); self.cache = {}
    def close(self): self.w.close()
def setup(): worker.build_worker("plain")

def program(src):
    k = src.w([(34, "lang"), (22, "good"), (16, "bad"), (16, "fault"), (12, "fixed")])
    if k == "lang": return langgen.G(src, src.pick(MIX)).program().render()
    if k == "fault":
        c = faultgen.gen(src); return c["code"]
    if k == "fixed": return src.pick(FIXED)
    return src.pick(GOOD if k == "good" else BAD)

def gen(src, ctx):
    progs = [program(src) for _ in range(src.rng(2, 4))]
    if any(len(p) > 9000 for p in progs): return None
    ex = 0; op = 0; steps = []
    slots = {}
    for _ in range(src.rng(3, 12)):
        k = src.w([(30, "run"), (8, "rerun"), (10, "link"), (8, "save"), (10, "conf"), (6, "compile"), (5, "clean"), (4, "emptyrun"), (3, "reset"), (4, "runfn"),
                   (3, "analyze"), (3, "translate"), (3, "listing"), (3, "clearerr"), (3, "finalize"), (3, "badbytecode"), (3, "evals"), (3, "stack"), (2, "module"), (3, "callnull"), (3, "buildonly")])
        p = src.i(len(progs))
        if k == "conf": ex = src.i(2); op = src.i(3); steps.append([k, ex, op])
        elif k == "save": slots[src.i(2)] = 1; steps.append([k, p, op, src.i(2)])
        elif k == "link": steps.append([k, src.i(2), ex])
        elif k == "rerun": steps.append([k, p, src.rng(1, 3)])
        else: steps.append([k, p])
    return {"progs": progs, "steps": steps}

OBS = [["result"], ["trace"], ["globals", ""], ["out"]]
def seen(r, i, extra=()):
    """observation of build/link at i, run at i+1, and what follows"""
    b, x = r[i], r[i + 1]
    if b is None or x is None: return None
    if not b.ok: return ("rejected", b.err)
    o = [r[i + 2 + k] for k in range(4)]
    if any(v is None for v in o): return None
    e = x.err
    if not x.ok and langrun.errclass(e) == "overflow": e = "overflow"
    return (x.ok, e if not x.ok else "", tuple(o[0].data) if x.ok else "", o[1].data[0] if "overflow" != e else "", o[2].data[0] if "overflow" != e else "", o[3].data[0])

def fresh(ctx, code, ex, op):
    key = (code, ex, op)
    if key not in ctx.cache:
        if len(ctx.cache) > 4000: ctx.cache.clear()
        r = ctx.w.run([["exec", ex], ["opt", op], ["build", code], ["run"]] + OBS)
        ctx.cache[key] = seen(r, 2) if r.clean else None
    return ctx.cache[key]

def run(case, ctx):
    ex = op = 0; ops = []; checks = []; progs = case["progs"]; slot = {}; n = 0; labels = set(); changed = False; nt = False
    def usable(p, op_): 
        return fresh(ctx, progs[p], ex, op_) is not None
    ops += [["exec", 0], ["opt", 0]]
    for st in case["steps"]:
        k = st[0]; i = len(ops); labels.add(k)
        if k == "conf":
            # code linked for one executor is not run by the other: a host that switches builds again
            if st[1] != ex: ops.append(["clean"])
            ex, op = st[1], st[2]; ops += [["exec", ex], ["opt", op]]; changed = True
        elif k == "run":
            f = fresh(ctx, progs[st[1]], ex, op); n += 1
            if f is None: continue
            ops += [["build", progs[st[1]]]] + ([["run"]] + OBS if f[0] != "rejected" else [["lasterr"]])
            checks.append((i, f, "build and run of program %d (executor %d optimization %d)" % (st[1], ex, op))); nt = nt or changed
            if f[0] is not True: changed = True
        elif k == "rerun":
            f = fresh(ctx, progs[st[1]], ex, op)
            if f is None or f[0] == "rejected": continue
            ops += [["build", progs[st[1]]]]
            for q in range(st[2]):
                i = len(ops)
                ops += [["exec", ex], ["run"]] + OBS   # a run that needs no build: the first operation only fills the place of it
                checks.append((i, f, "run number %d of program %d (executor %d optimization %d)" % (q + 1, st[1], ex, op)))
                nt = nt or changed or q
        elif k == "save":
            f = fresh(ctx, progs[st[1]], ex, op)
            if f is None or f[0] == "rejected": continue
            # link errors are found after a successful compilation
            ops += [["compile", progs[st[1]]], ["bytecode", "s%d" % st[3], "nocache"]]; slot[st[3]] = (st[1], op); changed = True
        elif k == "link":
            if st[1] not in slot: continue
            p, o2 = slot[st[1]]; f = fresh(ctx, progs[p], ex, o2)
            if f is None or f[0] == "rejected": continue
            ops += [["clean"], ["link", "s%d" % st[1]], ["run"]] + OBS
            checks.append((i + 1, f, "link and run of the saved program %d (executor %d, compiled at %d)" % (p, ex, o2))); nt = nt or changed
        elif k in ("compile", "analyze"):
            if not usable(st[1], op): continue
            ops.append([k, progs[st[1]]]); changed = True
        elif k == "buildonly":
            if not usable(st[1], op): continue
            ops.append(["build", progs[st[1]]]); changed = True
        elif k == "clean": ops.append(["clean"]); changed = True
        elif k == "emptyrun": ops += [["clean"], ["run"]]; changed = True
        elif k == "reset": slot.clear(); ops += [["term"], ["init"], ["paths"], ["std"], ["exec", ex], ["opt", op]]; changed = True   # the modules an image imports are no longer loaded
        elif k == "runfn": ops += [["runfn", "nosuchfunction"], ["runfn", "f"]]; changed = True
        elif k == "translate":
            if not usable(st[1], op): continue
            ops += [["analyze", progs[st[1]]], ["translate", "/dev/null", "main"]]; changed = True
        elif k == "listing":
            if not usable(st[1], op): continue
            ops += [["compile", progs[st[1]]], ["listing", "/dev/null"]]; changed = True
        elif k == "clearerr": ops += [["build", "int a = 0; return 5 / a;"], ["run"], ["clearerr"], ["lasterr"]]; changed = True
        elif k == "finalize": ops.append(["finalize"]); changed = True
        elif k == "badbytecode": ops += [["compile", "int a = ;"], ["bytecode", "bad"]]; changed = True
        elif k == "evals":
            if not usable(st[1], op) or fresh(ctx, progs[st[1]], ex, op)[0] is not True: continue
            ops += [["compile", progs[st[1]]], ["evalexpr"], ["compile", progs[st[1]]], ["evalinst"]]; changed = True
        elif k == "stack": ops += [["stack", 1 << 20], ["build", "int f(int x){ return x ? 1 + f(x - 1) : 0; } return f(100000);"], ["run"], ["stack", 1 << 24]]; changed = True
        elif k == "module": ops += [["loadsrc", "c10mod", "int c10f(){ return 12; }"], ["build", "import c10mod; return c10f();"], ["run"], ["remmod", "c10mod"], ["build", "import c10mod; return c10f();"]]; changed = True
        elif k == "callnull": ops += [["build", "int f(int x){ return x; } return 1;"], ["callfnptr", "f"], ["runfni", "f", 5], ["runfn", "g"]]; changed = True
    out = Outcome(labels=sorted(labels), sample=" ".join(s[0] for s in case["steps"]) + " | " + progs[0][:200], evals=len(ops) + n)
    if not checks:
        out.labels.append("nothing to check")
    r = ctx.w.run(ops, timeout_ms=20000)
    def bad(kind, t):
        out.violation = t + "\n--- history\n" + history(ops[:len(r.r) + 1]); out.kind = kind; return out
    if r.timeout:
        out.labels.append("history out of time"); return out
    if not r.clean: return bad("crash " + (ops[len(r.r)][0] if len(r.r) < len(ops) else "?"), "the host ended with %s in call %d (%s)" % (r.status, len(r.r), ops[min(len(r.r), len(ops) - 1)][0]))
    for i, f, what in checks:
        s = seen(r, i)
        if s != f:
            return bad("differs", "%s: %s\nfresh process: %s" % (what, str(s)[:1500], str(f)[:1500]))
    out.nontrivial = bool(nt) and len(case["steps"]) >= 4
    return out

def history(ops):
    return "\n".join(o[0] + " " + " ".join(repr(str(x))[:1200] for x in o[1:]) for o in ops)

def show(case): return json.dumps(case["steps"]) + "\n" + "\n--- program\n".join(case["progs"])

def reduce(case, choices):
    s = case["steps"]
    for k in (4, 2, 1):
        for i in range(0, len(s)):
            if len(s[i:i + k]) == k and len(s) > k: yield {"progs": case["progs"], "steps": s[:i] + s[i + k:]}
    for i, p in enumerate(case["progs"]):
        if p and not any(len(x) > 1 and x[0] not in ("conf", "link") and x[1] == i for x in s): yield {"progs": case["progs"][:i] + [""] + case["progs"][i + 1:], "steps": s}
        L = p.split("\n")
        for k in (8, 4, 2, 1):
            for j in range(0, len(L), k):
                if len(L) > k: yield {"progs": case["progs"][:i] + ["\n".join(L[:j] + L[j + k:])] + case["progs"][i + 1:], "steps": s}
