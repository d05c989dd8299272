"""Programs with one planned run-time fault at a known place: the expected error class, call stack, host calls and
variables follow from the way the program is put together."""
import langrun
from engine import Outcome

class B:
    """text with line numbers"""
    def __init__(self): self.l = []
    def add(self, s): self.l.append(s); return len(self.l)
    def pad(self, src):
        for _ in range(src.w([(6, 0), (3, 1), (1, 3)])): self.add(src.pick(["", "// comment", "/* block", "   "]) if False else src.pick(["", "// x", "  "]))
    def text(self, eol="\n"): return eol.join(self.l) + eol

PT = ["int", "long", "double", "float", "short", "char", "bool"]
def sink(t): return {"long": "tl", "double": "td", "float": "td"}.get(t, "ti")
def lit(src, t):
    if t in ("double", "float"): return src.pick(["1.5", "2.25", "-3.0"])
    if t == "bool": return src.pick(["true", "false"])
    if t == "char": return src.pick(["'a'", "'Z'"])
    v = src.pick([3, 5, 7, 100])
    return str(v) + ("l" if t == "long" else "")

def fault(src):
    """-> (class, globals declarations, local declarations, faulting statement lines before, faulting statement)"""
    k = src.w([(6, "index"), (3, "index2"), (6, "null"), (4, "nullmember"), (4, "div"), (2, "divassign"), (3, "cast"), (2, "castarr"), (3, "nullfn"), (2, "nullfnm"), (3, "badsize"),
               (3, "noreturn"), (2, "user"), (2, "storeindex"), (2, "storenull"), (2, "autoindex"), (1, "nullmethod")])
    t = src.pick(PT); s = sink(t)
    if k == "index":
        n = src.pick([1, 2, 3, 4, 8, 16, 100]); bad = src.pick([n, n + 1, -1, 2147483647, -2147483647, n * 2, 1 << 30])
        form = src.i(3)
        if form == 0: return "index", ["%s[%d] gf;" % (t, n)], ["int fi = zero + (%d);" % bad], "%s(gf[fi]);" % s
        if form == 1: return "index", ["%s[] gf = new %s[%d];" % (t, t, n)], ["int fi = zero + (%d);" % bad], "%s(gf[fi]);" % s
        return "index", ["%s[%d] gf;" % (t, n)], ["%s[] fu = gf;" % t, "int fi = zero + (%d);" % bad], "%s(fu[fi]);" % s
    if k == "index2":
        n, m = src.pick([2, 3]), src.pick([2, 5]); x = max(m, n) + src.i(3); a, b = (x, 0) if src.p(50) else (0, x)
        return "index", ["%s[%d][%d] gf;" % (t, m, n)], [], "%s(gf[zero + %d][zero + %d]);" % (s, a, b)
    if k == "storeindex":
        n = src.pick([1, 2, 4, 8]); bad = src.pick([n, -1, 1 << 20, n + 3])
        return "index", ["%s[%d] gf;" % (t, n), "int gcan2 = 77;"], ["int fi = zero + (%d);" % bad], "gf[fi] = %s;" % lit(src, t)
    if k == "null":
        return "null", ["%s ref gf = nullptr;" % t], [], "%s(*gf);" % s
    if k == "storenull":
        return "null", ["%s ref gf = nullptr;" % t], [], src.pick(["*gf = %s;" % lit(src, t), "(*gf)++;" if t != "bool" else "*gf = true;"])
    if k == "nullmember":
        pre = src.pick([0, 4, 64, 1000, 5000])
        d = ["class Cnm{ %s %s fm; %s fn; }" % ("char[%d] pad;" % pre if pre else "", t, t), "Cnm ref gf = nullptr;"]
        return "null", d, [], src.pick(["%s(gf.fm);" % s, "gf.fn = %s;" % lit(src, t), "%s(gf.fn);" % s])
    if k == "div":
        ty = src.pick(["int", "long", "short", "char"]); op = src.pick(["/", "%"])
        return "div", ["%s gf = 0;" % ty], [], "%s(%s %s gf);" % ("tl" if ty == "long" else "ti", src.pick(["5", "zero", "(zero + 7)"]), op)
    if k == "divassign":
        ty = src.pick(["int", "long", "short", "char"]); op = src.pick(["/", "%"])
        return "div", ["%s gf = 50;" % ty, "%s gd = 0;" % ty], [], "gf %s= gd;" % op
    if k == "cast":
        a, b = src.pick([("int", "double"), ("int", "long"), ("float", "int"), ("char", "int"), ("double", "float")])
        v = {"int": "5", "float": "1.5f", "char": "'a'", "double": "2.5"}[a]
        return "cast", ["%s gv = %s;" % (a, v), "auto ref gf = &gv;"], [], "%s(%s(gf));" % (sink(b), b)
    if k == "castarr":
        return "cast", ["int[4] gv;", "auto[] gf = gv;"], [], "double[] fc = gf;"
    if k == "nullfn":
        return "nullfn", ["%s ref(int) gf;" % t], [], "%s(gf(4));" % s
    if k == "nullfnm":
        return "nullfn", ["class Cnf{ int a; int ref(int, long) cb; } Cnf gf;"], [], "ti(gf.cb(4, 5l));"
    if k == "nullmethod":
        return "null", ["class Cnu{ int a; int get(){ return a; } }", "Cnu ref gf = nullptr;"], [], "ti(gf.get());"
    if k == "badsize":
        return "badsize", ["int gf = %d;" % src.pick([-1, -100, -2147483647])], [], "auto fb = new %s[gf]; ti(fb.size);" % src.pick(["int", "char", "double"])
    if k == "noreturn":
        return "noreturn", ["%s gfn(int x){ if(x) return %s; }" % (t, lit(src, t))], [], "%s(gfn(zero));" % s
    if k == "user":
        return "user", [], [], "stop(\"user: %d\");" % src.i(100)
    if k == "autoindex":
        return "index", ["int[3] gv;", "auto[] gf = gv;"], ["int fi = zero + %d;" % src.pick([3, -1, 1 << 30])], "ti(int(gf[fi]));"
    raise AssertionError(k)

EXTRA = {"gfn": 1}
def gen(src):
    if src.p(7): return overflow(src)
    kind, gd, ld, st = fault(src)
    ismod = src.p(25)
    m = B(); b = B()
    trace = []; frames = []
    nlev = src.i(5)
    kinds = [src.w([(5, "fn"), (2, "method"), (2, "local"), (2, "coroutine"), (1, "value"), (1, "loop"), (1, "generic"), (1, "operator")]) for _ in range(nlev)]
    cur = m if ismod else b
    if ismod: b.add("import fmod;")
    cur.add("import vt;")
    if not ismod: cur.add("int gcan1 = 41;")
    cur.add("int zero = 0;")
    for d in gd: cur.add(d)
    cur.add("int gcan3 = 43;")
    cur.pad(src)
    split = src.rng(1, nlev) if ismod and nlev else nlev   # levels kept in the module; the rest of the callers are in the program
    def body(into, ind, inner, depth):
        """statements of one level; returns the line of the call or fault"""
        into.pad(src)
        if src.p(60): into.add("%sti(%d);" % (ind, depth)); trace.append("i%d" % depth)
        else: trace.append(None)
        into.pad(src)
        if inner is None:
            for x in ld: into.add(ind + x)
            into.pad(src)
            ln = into.add(ind + st)
        else:
            pre = src.pick(["int r%d = " % depth, "return 1 + ", "ti("])
            ln = into.add(ind + (pre + inner + (");" if pre == "ti(" else ";")))
        into.pad(src)
        return ln
    inner = None
    for d in range(nlev):
        into = m if ismod and d < split else b
        kd = kinds[d]; nm = "fz%d" % d
        if kd == "fn":
            into.add("int %s(int p, long q){" % nm); ln = body(into, "  ", inner, d); into.add("  return p;"); into.add("}")
            fr = [(nm, ln)]; inner = "%s(%d, 7l)" % (nm, d)
        elif kd == "method":
            into.add("class K%d{ int a; int %s(int p){" % (d, nm)); ln = body(into, "  ", inner, d); into.add("  return a + p; }"); into.add("}"); into.add("K%d gk%d;" % (d, d))
            fr = [(nm, ln)]; inner = "gk%d.%s(%d)" % (d, nm, d)
        elif kd == "local":
            into.add("int %s(int p){" % nm); into.add("  int cap = p;"); into.add("  int lo%d(int r){" % d); ln = body(into, "    ", inner, d); into.add("    return cap + r;"); into.add("  }"); into.pad(src)
            l2 = into.add("  return lo%d(p + 1);" % d); into.add("}")
            fr = [("lo%d" % d, ln), (nm, l2)]; inner = "%s(%d)" % (nm, d)
        elif kd == "coroutine":
            into.add("coroutine int %s(int p){" % nm); into.add("  int c = p;"); into.add("  if(p == 99) yield c;"); ln = body(into, "  ", inner, d); into.add("  return c;"); into.add("}")
            fr = [(nm, ln)]; inner = "%s(%d)" % (nm, d)
        elif kd == "value":
            into.add("int %s(int p){" % nm); ln = body(into, "  ", inner, d); into.add("  return p;"); into.add("}"); into.add("int ref(int) gv%d = %s;" % (d, nm))
            fr = [(nm, ln)]; inner = "gv%d(%d)" % (d, d)
        elif kd == "loop":
            n = src.rng(0, 3)
            into.add("int %s(int p){" % nm); into.add("  for(int i = 0; i < 5; i++){"); into.add("    if(i < %d) continue;" % n); ln = body(into, "    ", inner, d); into.add("  }"); into.add("  return p;"); into.add("}")
            fr = [(nm, ln)]; inner = "%s(%d)" % (nm, d)
        elif kd == "generic":
            into.add("auto %s(generic p){" % nm); ln = body(into, "  ", inner, d); into.add("  return 1;"); into.add("}")
            fr = [(nm, ln)]; inner = "%s(%s)" % (nm, src.pick(["1", "2.0", "3l"]))
        else:
            into.add("class O%d{ int a; }" % d); into.add("int operator+(O%d a, O%d b){" % (d, d)); ln = body(into, "  ", inner, d); into.add("  return 1;"); into.add("}"); into.add("O%d go%d;" % (d, d))
            fr = [("+", ln)]; inner = "(go%d + go%d)" % (d, d)
        frames += fr
    if ismod and nlev == 0:
        m.add("int fin(int p){"); ln = body(m, "  ", None, 0); m.add("  return p; }"); frames = [("fin", ln)]; inner = "fin(1)"; nlev = 1
    ln = body(b, "", inner, nlev) if inner is not None else body(b, "", None, nlev)
    frames.append(("global scope", ln))
    b.add("return 0;")
    if kind == "noreturn":
        frames.insert(0, ("gfn", None))
    if kind == "null" and any("Cnu" in x for x in gd):
        frames.insert(0, ("get", gd_line(cur, "class Cnu")))
    tr = [t for t in reversed(trace) if t]
    eol = src.pick(["\n", "\r\n"])
    return {"kind": "fault", "code": b.text(eol), "mod": m.text(eol) if ismod else None, "fault": kind, "lines": [list(f) for f in reversed(frames)], "trace": "".join(t + "\n" for t in tr),
            "canary": not ismod, "shape": kinds}

def gd_line(b, s):
    for i, l in enumerate(b.l):
        if l.startswith(s): return i + 1

def overflow(src):
    k = src.pick(["int f(int x){ %s return f(x + 1) + 1; }", "int g(int x); int f(int x){ %s return g(x) * 2; } int g(int x){ return f(x + 1) + 1; }",
                  "class A{ int m; int f(int x){ %s return f(x + 1) - 1; } } A ga; int f(int x){ return ga.f(x); }", "int f(int x){ %s int h(int y){ return f(y + x) + 1; } return h(x) + 1; }"])
    loc = src.pick(["", "int[%d] a; a[x & 1] = x;" % src.pick([2, 16, 200, 2000]), "double d = x; long l = x; ti(1) ;" if False else "double d = x; long l = x;"])
    code = "import vt;\nint gcan1 = 41;\n" + (k % loc) + "\nti(7);\nreturn f(0);\n"
    return {"kind": "fault", "code": code, "mod": None, "fault": "overflow", "lines": None, "trace": "i7\n", "canary": True, "shape": ["recursion"], "stack": src.pick([0, 0, 1 << 16, 1 << 20])}

AFTER = "int g99 = 5; int after(int x){ return x * g99 + 2; } return after(8);"

def run(case, ctx):
    n = 0; bad = None
    for ex, op in langrun.CONFIGS:
        ops = []
        if case["mod"]: ops.append(["loadsrc", "fmod", case["mod"]])
        if case.get("stack"): ops.append(["stack", case["stack"]])
        pre = len(ops)
        ops += langrun.ops(case["code"], ex, op, "gcan") + [["build", AFTER], ["run"], ["result"]]
        r = ctx.w.run(ops); n += 1
        if r.status != "exit0": bad = ("crash", "process ended with %s" % r.status)
        else:
            ri = r.r[pre:]
            if pre and not all(x.ok for x in r.r[:pre]): bad = ("module", "module rejected: " + str([x.err for x in r.r[:pre]]))
            elif not ri[2].ok: bad = ("nocompile", "valid program rejected: " + ri[2].err)
            elif ri[3].ok: bad = ("nofault", "the program finished without the fault " + case["fault"])
            else:
                cls = langrun.errclass(ri[3].err); want = case["fault"]
                if want == "badsize": okc = "ERROR" in ri[3].err and cls not in ("div", "null", "index")
                else: okc = cls == want
                if not okc: bad = ("class", "expected fault %s, got: %s" % (want, ri[3].err))
                elif ri[5].data[0] != case["trace"]: bad = ("trace", "host calls %r, expected %r" % (ri[5].data[0], case["trace"]))
                elif case["canary"] and not all(("gcan%d:int=4%d" % (k, k)) in ri[6].data[0] for k in (1, 3) if "gcan%d" % k in case["code"]): bad = ("canary", "variables next to the faulting object changed: " + ri[6].data[0])
                elif case["lines"]:
                    L = langrun.stack_lines(ri[3].err); W = case["lines"]
                    if L is None or len(L) != len(W) or any(a[0].split("$")[0] != w[0] or (w[1] is not None and a[1] != w[1]) for a, w in zip(L, W)):
                        bad = ("lines", "call stack\n%r\nexpected\n%r\n%s" % (L, W, ri[3].err))
                if not bad:
                    a = ri[7:]
                    if not a[0].ok or not a[1].ok or a[2].data[1] != "42": bad = ("after", "after the fault the next program gives %r" % (a,))
        if bad:
            return Outcome("executor %d optimization %d: %s\n--- program\n%s%s" % (ex, op, bad[1][:3000], case["code"], "\n--- module fmod\n" + case["mod"] if case["mod"] else ""), kind=bad[0], evals=n, nontrivial=True)
    return Outcome(evals=n, nontrivial=True, labels=["planned fault: " + case["fault"]] + ["level: " + s for s in case["shape"]] + (["fault inside a module"] if case["mod"] else []), sample=case["code"][:500])
