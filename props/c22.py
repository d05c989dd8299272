"""C22: virtual calls, calls through auto ref, events and replaced functions against a model of which function has to run."""
import scripts
from scripts import Ctx, setup, Bad, TWO
from engine import Outcome

ID = "C22"
RULE = "at least one overridden method is called through a reference of a base class, or an event with two handlers is raised, or a replaced function is called"
ASSUMPTIONS = ["replacing f by g gives f the code g has at that moment: replacing g later does not change f again",
               "replaced functions capture no variables", "handlers do not change the handler list they are called from"]
N = {"quick": 5000, "thorough": 100000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}
M = 3        # virtual methods declared by a root
F = 6        # free functions

def gen(src, ctx):
    n = src.rng(2, 7); cls = []
    for i in range(n):
        par = -1 if i == 0 or src.p(20) else src.i(i)
        meths = []
        for m in range(M):
            if par < 0 or src.p(45): meths.append([m, src.w([(3, 0), (2, 1), (1, 2)]) if m < M - 1 else 0])
        cls.append([par, meths, src.p(30), src.p(35), src.p(25)])    # parent, overrides, own method, extra member, constructor order of methods reversed
    fns = [src.i(i + 1) if src.p(40) else -1 for i in range(F)]     # -1: leaf; j: calls function j (less than its own number when j < i)
    fns = [j if j < i else -1 for i, j in enumerate(fns)]
    objs = [src.i(n) for _ in range(src.rng(2, 6))]
    ops = []
    for _ in range(src.rng(5, 40)):
        k = src.w([(6, "call"), (4, "auto"), (3, "bound"), (3, "own"), (2, "cast"), (3, "over"), (1, "overlam"), (1, "overtext") if src.p(30) else (1, "over"), (1, "overbad"), (5, "fcall"), (3, "fval"), (4, "att"), (2, "det"), (3, "raise"), (1, "detall"), (2, "rebind"), (1, "typeid")])
        ops.append([k, src.i(8), src.i(8), src.i(8), src.rng(0, 9)])
    mid = [[src.i(F), src.i(F)] for _ in range(src.rng(1, 2))] if src.p(25) else []
    return {"cls": cls, "fns": fns, "objs": objs, "ops": ops, "mid": mid, "cfgs": [list(src.pick(scripts.ALL))] if src.p(70) else [list(x) for x in TWO]}

_r = scripts.dropper()
def reduce(case, choices):
    for c in _r(case, choices): yield c
    if case["mid"]: yield dict(case, mid=[])

def render(case):
    cls, fns, objs, ops = case["cls"], case["fns"], case["objs"], case["ops"]
    code = ["import vt;", "import std.dynamic;", "import std.list;", "import std.event;", "import std.error;",
            'void er(try_result<int> r){ if(r) ti(r.value); else ts("error"); }']
    out = []
    def up(c):
        while c >= 0: yield c; c = cls[c][0]
    def root(c): return list(up(c))[-1]
    def impl(c, m): return next(k for k in up(c) if any(x[0] == m for x in cls[k][1]))
    for i, (par, meths, own, extra, rev) in enumerate(cls):
        b = []
        for m, kind in (meths[::-1] if rev or par < 0 else meths):
            e = "%d + k + x" % (10000 * (i + 1) + 1000 * m)
            if kind == 1: e = "m%d(x + 1) + %d" % (m + 1, 10000 * (i + 1))
            if kind == 2: e = "this.m%d(x) * 2 + %d" % (M - 1, i)
            b.append("int m%d(int x){ return %s; }" % (m, e))
        if kind_own(own): b.append("int own%d(int x){ return m0(x) + %d; }" % (i, 7 * i))
        code.append("class C%d%s{ %s%s %s }" % (i, " extendable" if par < 0 else " extendable : C%d" % par if any(k[0] == i for k in cls) else " : C%d" % par, "int k; " if par < 0 else "", "double e%d;" % i if extra else "", " ".join(b)))
    def runm(c, m, x, k):
        ci = impl(c, m); kind = next(q[1] for q in cls[ci][1] if q[0] == m)
        if m == M - 1: kind = 0
        if kind == 0: return 10000 * (ci + 1) + 1000 * m + k + x
        if kind == 1: return runm(c, m + 1, x + 1, k) + 10000 * (ci + 1)
        return runm(c, M - 1, x, k) * 2 + ci
    # functions: a body is ("leaf", n), ("call", j, n) or ("lam", n) or ("text", n)
    body = []
    for i, j in enumerate(fns):
        body.append(("leaf", i) if j < 0 else ("call", j, i))
        code.append("int f%d(int x){ return %s; }" % (i, "x * %d + %d" % (i + 2, i * 100) if j < 0 else "f%d(x + 1) + %d" % (j, 5000 * i + 1)))
    def runf(i, x, depth=0):
        b = body[i]
        if depth > 60: raise Bad
        if b[0] == "leaf": return x * (b[1] + 2) + b[1] * 100
        if b[0] == "call": return runf(b[1], x + 1, depth + 1) + 5000 * b[2] + 1
        if b[0] == "lam": return x * 7 - b[1]
        return x * 9 + b[1]
    mid = []
    for a, b in case["mid"]:
        mid.append(["setfn", "f%d" % a, "f%d" % b]); body[a] = body[b]
    roots = sorted(set(root(c) for c in objs))
    nt = False
    for i, c in enumerate(objs): code.append("C%d o%d; o%d.k = %d;" % (c, i, i, i * 3 + 1))
    for r in range(len(cls)):
        if cls[r][0] < 0: code.append("C%d ref[] l%d = new C%d ref[%d]; %s" % (r, r, r, len(objs), " ".join("l%d[%d] = &o%d;" % (r, i, i) for i, c in enumerate(objs) if root(c) == r)))
    code.append("int ref(int)[] fv = new int ref(int)[%d]; %s" % (F, " ".join("fv[%d] = f%d;" % (i, i) for i in range(F))))
    fv = list(range(F))
    code.append("event<void ref(int)>[2] ev;")
    hs = []      # handlers
    for i in range(4): code.append("void h%d(int x){ ti(%d + x); }" % (i, 100 * (i + 1))); hs.append(("h%d" % i, lambda x, i=i: 100 * (i + 1) + x))
    code.append("class R{ int k; void on(int x){ ti(k + x); } } R r0, r1; r0.k = 7000; r1.k = 8000; int cap = 9000; void ref(int) b0 = r0.on, b1 = r1.on, cl = auto(int x){ ti(cap + x); };")
    hs += [("b0", lambda x: 7000 + x), ("b1", lambda x: 8000 + x), ("cl", lambda x: 9000 + x)]
    att = [[], []]
    for oi, (k, a, b, c, x) in enumerate(ops):
        o = a % len(objs); oc = objs[o]; r = root(oc); m = b % M; kk = o * 3 + 1
        if k == "call":
            chain = list(up(oc)); st = chain[c % len(chain)]
            if st != oc and impl(st, m) != impl(oc, m): nt = True
            if c % 3 == 0: code.append("ti(l%d[%d].m%d(%d));" % (r, o, m, x))
            elif c % 3 == 1: code.append("{ C%d ref p = &o%d; ti(p.m%d(%d)); }" % (st, o, m, x))
            else: code.append("ti(o%d.m%d(%d));" % (o, m, x))
            out.append("i%d" % runm(oc, m, x, kk))
        elif k == "auto":
            code.append("{ auto ref z = %s; ti(z.m%d(%d)); }" % (["l%d[%d]" % (r, o), "&o%d" % o][c % 2] if 1 else "", m, x)); out.append("i%d" % runm(oc, m, x, kk))
        elif k == "bound":
            code.append("{ auto p = l%d[%d].m%d; ti(p(%d)); }" % (r, o, m, x)); out.append("i%d" % runm(oc, m, x, kk))
        elif k == "own":
            have = [q for q in range(len(cls)) if kind_own(cls[q][2])]
            if not have: continue
            q = have[b % len(have)]
            code.append("er(try(auto(){ auto ref z = l%d[%d]; return z.own%d(%d); }));" % (r, o, q, x))
            out.append("i%d" % (runm(oc, 0, x, kk) + 7 * q) if q in up(oc) else "serror")
        elif k == "cast":
            q = b % len(cls)
            if root(q) != r: continue
            code.append("er(try(auto(){ C%d ref p = l%d[%d]; return p.m%d(%d); }));" % (q, r, o, c % M, x)); out.append("i%d" % runm(oc, c % M, x, kk) if q in up(oc) else "serror")
        elif k == "typeid":
            q = b % len(cls); code.append("ti(typeid(*l%d[%d]) == C%d);" % (r, o, q)); out.append("i%d" % (q == oc))
        elif k == "over":
            i, j = a % F, b % F; code.append("override(f%d, %s);" % (i, "f%d" % j if c % 2 else "fv[%d]" % j)); jj = j if c % 2 else fv[j]; body[i] = body[jj]; nt = True
        elif k == "overlam":
            i = a % F; code.append("override(f%d, auto(int y){ return y * 7 - %d; });" % (i, b)); body[i] = ("lam", b); nt = True
        elif k == "overtext":
            i = a % F; code.append('override(f%d, "return arg0 * 9 + %d;");' % (i, b)); body[i] = ("text", b); nt = True
        elif k == "overbad":
            code.append("er(try(auto(){ override(f%d, h%d); return 1; }));" % (a % F, b % 4)); out.append("serror")
        elif k == "fcall": code.append("ti(f%d(%d));" % (a % F, x)); out.append("i%d" % runf(a % F, x))
        elif k == "fval": code.append("ti(fv[%d](%d));" % (a % F, x)); out.append("i%d" % runf(fv[a % F], x))
        elif k == "rebind": code.append("fv[%d] = f%d;" % (a % F, b % F)); fv[a % F] = b % F
        elif k in ("att", "det"):
            e = a % 2; h = hs[b % len(hs)]
            code.append("ev[%d] %s %s;" % (e, "+=" if k == "att" else "-=", h[0]) if c % 2 else "ev[%d].%s(%s);" % (e, "attach" if k == "att" else "detach", h[0]))
            if k == "att" and h not in att[e]: att[e].append(h)
            if k == "det" and h in att[e]: att[e].remove(h)
        elif k == "detall":
            if b < 4: code.append("ev[%d].detach_all();" % (a % 2)); att[a % 2] = []
        elif k == "raise":
            e = a % 2; code.append("ev[%d](%d); if(ev[%d]) ti(1); else ti(0);" % (e, x, e)); out.extend("i%d" % h[1](x) for h in att[e]); out.append("i%d" % bool(att[e]))
            if len(att[e]) > 1: nt = True
    code.append("return 1;")
    case["_nt"] = nt
    return "\n".join(code) + "\n", out, None, mid

def kind_own(v): return bool(v)
def run(case, ctx):
    case = dict(case)
    try: R = render(case)
    except Bad: return Outcome(labels=["not applicable"])
    return scripts.check(case, ctx, lambda c: (R[0], R[1]), mid=R[3], nontrivial=case["_nt"], labels=sorted(set(x[0] for x in case["ops"])) + (["host replacement"] if case["mid"] else []))
def show(case): return render(dict(case))[0]
