"""C07: collecting at any moment changes nothing, unreachable objects are reclaimed and finalized exactly once."""
import random
import lang, langgen, langedit, langprop, langrun, scripts, worker
from lang import Simple, E, Lit
from langgen import Opt
from engine import Outcome

ID = "C07"
RULE = "a program that collects at least three times while it uses references, closures, coroutines or arrays, or an object graph history with at least one collection that finalizes an object and one object that survives a collection"
ASSUMPTIONS = ["the reference interpreter in lib/lang.py states the documented semantics", "the order in which finalizers of one collection run is not specified",
               "temporary values of functions that have returned may keep objects alive only until the same stack memory is used again: the histories change references in functions of their own and clear the temporaries by another call"]
N = {"quick": 4000, "thorough": 90000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

Ctx = scripts.Ctx
def setup(): worker.build_worker("plain")

PRE = """import std.gc;
int gcn = 0;
void gcx(){ GC.CollectMemory(); for(int z = 1; z <= 256; z *= 2) for(int y = 0; y < 3; y++){ int[] t = new int[z]; for(int k = 0; k < z; k++) t[k] = 1515870810; } }
int gcv(int x){ gcx(); return x; }
"""
class Raw(Simple):
    def __init__(self, t): self.t = t
    def text(self): return self.t
    def ex(self, fr): pass
class GcE(E):
    __slots__ = ("a",)
    def __init__(self, a): self.a = a; self.t = a.t
    def r(self): return "gcv(%s)" % self.a.rp(1)
    def ev(self, fr): return self.a.ev(fr)

OPTS = [Opt(refs=90, arrays=90, classes=90, faults=0, floats=False), Opt(fnvals=90, closures=90, coroutines=80, faults=0, refs=70), Opt(faults=2), Opt(refs=95, classes=95, closures=60, mainfn=95, faults=0, depth=2, floats=False)]
def opt(src): return OPTS[src.i(len(OPTS))]
def insert(seed):
    def post(P):
        r = random.Random(seed); d = r.choice([8, 20, 40])
        for put, x in langedit.expr_sites(P):
            if x.t == 'int' and not isinstance(x, Lit) and r.randrange(100) < d // 3: put(GcE(x))
        for l in langedit.stmt_lists(P):
            i = 0
            while i <= len(l):
                if r.randrange(100) < d: l.insert(i, Raw("gcx();")); i += 1
                i += 1
    return post

def gen(src, ctx):
    if src.p(25): return graph(src)
    seed = src.i(1 << 30); lim = src.pick([0, 0, 24, 40, 70, 130]) * 1024
    o = opt(src)
    P = langprop.build(src, o, (), insert(seed) if not lim else None)
    c = langprop.finish(P, 12000, 12000)
    if c is None: return None
    c["seed"] = seed; c["mem"] = lim; c["kind"] = "prog"
    c["configs"] = [list(src.pick(scripts.ALL)) for _ in range(2)]
    return c

def full(case):
    L = case["code"].split("\n"); k = 0
    while L[k].startswith("import "): k += 1
    return "\n".join(L[:k]) + "\n" + PRE + "\n".join(L[k:])

def _extra(case):
    def f(c):
        c.update(seed=case["seed"], mem=case["mem"], kind="prog", configs=case["configs"]); return c
    return f
def reduce(case, choices):
    if case["kind"] == "graph": yield from GR(case, choices); return
    # the choices before the program's own are fixed
    from engine import Src
    ed = list(case.get("edits", []))
    def mk(e):
        s = Src(prefix=choices); s.p(25); s.i(1 << 30); s.pick([0] * 6); o = opt(s)
        try:
            P = langprop.build(s, o, e, insert(case["seed"]) if not case["mem"] else None)
            return P
        except Exception: return None
    P = mk(ed)
    if P is None: return
    for e in list(langedit.edits(P)):
        Q = mk(ed + [e])
        if Q is None: continue
        try: c = langprop.finish(Q, 12000, 12000)
        except Exception: continue
        if c is None: continue
        c["edits"] = ed + [e]; c = _extra(case)(c)
        if len(c["code"]) < len(case["code"]): yield c

def run(case, ctx):
    if case["kind"] == "graph": return run_graph(case, ctx)
    out = Outcome(labels=langprop.labels(case) + ["memory limit" if case["mem"] else "explicit collections"])
    code = full(case); n = 0; small = 0
    for ex, op in case["configs"]:
        ops = langrun.ops(code, ex, op)
        if case["mem"]: ops = [["memlimit", case["mem"]]] + ops
        r = ctx.w.run(ops)
        if case["mem"]: r.r = r.r[1:]
        o = langrun.observe(r); n += 1
        if o.status in ("sig27", "sig14", "sig24"): return Outcome("executor %d optimization %d: time limit exceeded\n%s" % (ex, op, code), kind="timeout", evals=n)
        if case["mem"] and o.built and not o.ok and "memory maximum" in (o.err or ""): small += 1; continue
        o.globals = "".join(l + "\n" for l in o.globals.split("\n") if l and not l.startswith("gcn:")) if o.globals else o.globals
        m = None; good = False
        for k, x in enumerate(case["expect"]):
            if k and op == 0: break
            m2 = langprop.mismatch(o, x, op == 0 and ex == 0)
            if m2 is None: good = True; break
            if k == 0: m = m2
        if not good:
            out.kind = m[0]; out.violation = "executor %d optimization %d%s: %s\n--- program\n%s" % (ex, op, " memory limit %d" % case["mem"] if case["mem"] else "", m[1], code); out.evals = n; return out
    out.evals = n
    out.nontrivial = small < len(case["configs"]) and (case["code"].count("gcx()") + case["code"].count("gcv(") >= 3 or case["mem"] > 0) and any(k in case["code"] for k in ("new ", "auto(", "coroutine", "ref "))
    if small: out.labels.append("limit too small")
    out.sample = case["code"][:600]; out.key = case["code"]
    return out

# ------------------------------------------------------------------ object graphs
S = 6
def graph(src):
    ops = []
    for _ in range(src.rng(6, 45)):
        k = src.w([(8, "new"), (2, "arr"), (6, "la"), (5, "lb"), (3, "ua"), (7, "clr"), (4, "mv"), (3, "deep"), (2, "fn"), (2, "fnclr"), (2, "au"), (2, "auclr"), (2, "ip"), (1, "ipclr"), (3, "av"), (1, "avclr"), (2, "vec"), (1, "vecclr"), (2, "cls"), (8, "gc"), (3, "walk"), (2, "big"), (2, "junk"), (2, "loc"), (1, "keepclr"), (2, "nat"), (2, "try"), (2, "co"), (1, "coclr")])
        ops.append([k, src.i(S), src.i(S), src.i(8)])
    return {"kind": "graph", "ops": ops, "res": src.p(30), "fa": src.i(4), "pad": src.pick([0, 0, 1, 3, 20, 200]), "cfgs": [list(src.pick(scripts.ALL))] if src.p(70) else [list(x) for x in scripts.TWO]}
GR = scripts.dropper()

def render(case):
    pad = case["pad"]; fa = case["fa"]
    code = ["import vt;", "import std.gc;", "import std.vector;", "import std.math;", "import std.error;",
            "class N{ int id; N ref a, b; int[] data; %sint last; }" % ("long[%d] pad; " % pad if pad else ""),
            "N ref[] keep = new N ref[64]; int kn = 0;",
            # what a finalizer does besides reporting: nothing, allocate, use its references
            "void N:finalize(){ ti(id); %s %s }" % (["", "int[] t = new int[5]; t[0] = id;", "if(a) tl(a.id);", "if(data.size) tl(data[1]); int[] q = new int[200]; "][fa] if fa != 2 else "", "if(id %% 4 == 1 && kn < 64){ keep[kn] = this; kn++; }" if 0 else ("if(id % 4 == 1 && kn < 64){ keep[kn] = this; kn++; }" if case["res"] else "")),
            "N ref[] r = new N ref[%d]; int ref()[] f = new int ref()[%d]; auto ref[] u = new auto ref[%d]; int ref[] ip = new int ref[%d], av = new int ref[%d]; vector<N ref> v; float ref() nf; int ref()[] co = new int ref()[%d]; class H{ N ref h; } H[] hs = new H[%d];" % (S, S, S, S, S, S, S),
            "N ref mk(int id){ N ref n = new N; n.id = id; n.data = new int[3]; n.data[1] = id * 3; return n; }",
            "void junk(){ for(int z = 1; z <= 256; z *= 2) for(int y = 0; y < 3; y++){ int[] t = new int[z]; for(int k = 0; k < z; k++) t[k] = 1515870810; } }",
            "int wipe(int a, b, c, d, e, f, g, h){ int[40] t; for(i in t) i = a; auto ref z = &t[3]; return a + b + c + d + e + t[5] + f * g - h; }",
            "void gc(){ wipe(1, 2, 3, 4, 5, 6, 7, 8); GC.CollectMemory(); ts(\"--\"); }"]
    main = []; n = [0]
    out = []      # list of segments: ("seg", finalized ids) or a line
    # model: nodes have fields a, b; blocks own one or more nodes
    node = {}     # id -> [a, b, block]
    block = {}    # block -> ids
    fin = set()   # finalizers that ran
    dead = set()
    st = dict(r=[None] * S, f=[None] * S, u=[None] * S, ip=[None] * S, v=[], hs=[None] * S, keep=[])
    av = [None] * S; st["co"] = [None] * S; cc = [0] * S
    nid = [0]; nat = [False]
    def mknode(blk):
        nid[0] += 1; node[nid[0]] = [None, None, blk]; block.setdefault(blk, []).append(nid[0]); return nid[0]
    def reach(extra=()):
        seen = set(); todo = [x for l in st.values() for x in l if x is not None] + list(extra)
        while todo:
            x = todo.pop(); b = node[x][2]
            if b in seen: continue
            seen.add(b)
            for y in block[b]: todo += [z for z in node[y][:2] if z is not None]
        return seen
    survived = [False]; finalized = [False]
    def collect(extra=()):
        live = reach(extra); f = []
        for b in sorted(block, key=str):
            if b in dead: continue
            if b in live: survived[0] = True; continue
            if b not in fin:
                fin.add(b); f += block[b]; finalized[0] = True
            else: dead.add(b)
        lines = []
        for x in f:
            lines.append("i%d" % x)
            if fa == 3 and node[x][2][0] == "n": lines.append("l%d" % (x * 3))
        if case["res"]:
            pass
        out.append(sorted(lines)); out.append("s--")
        # objects that made themselves reachable again
        if case["res"]:
            res = [x for x in f if x % 4 == 1]
            if len(st["keep"]) + len(res) > 64: raise scripts.Bad
            st["keep"] += res
    def fun(body):
        n[0] += 1; code.append("void q%d(){ %s }" % (n[0], body)); main.append("q%d();" % n[0])
    for k, i, j, m in case["ops"]:
        if k == "new": x = mknode(("n", nid[0])); fun("r[%d] = mk(%d);" % (i, x)); st["r"][i] = x
        elif k == "arr":
            c = m % 4 + 1; b = ("a", nid[0]); ids = [mknode(b) for _ in range(c)]
            fun("N[] t = new N[%d]; %s r[%d] = &t[%d];" % (c, " ".join("t[%d].id = %d;" % (q, x) for q, x in enumerate(ids)), i, j % c)); st["r"][i] = ids[j % c]
        elif k in ("la", "lb"):
            if st["r"][i] is None: continue
            fun("r[%d].%s = r[%d];" % (i, k[1], j)); node[st["r"][i]][k == "lb"] = st["r"][j]
        elif k == "ua":
            if st["r"][i] is None: continue
            fun("r[%d].a = nullptr;" % i); node[st["r"][i]][0] = None
        elif k == "clr": fun("r[%d] = nullptr;" % i); st["r"][i] = None
        elif k == "mv": fun("r[%d] = r[%d];" % (i, j)); st["r"][i] = st["r"][j]
        elif k == "deep":
            x = st["r"][i]; x = node[x][m & 1] if x is not None else None
            if x is None: continue
            fun("r[%d].%s.%s = r[%d];" % (i, "ab"[m & 1], "ab"[m >> 1 & 1], j)); node[x][m >> 1 & 1] = st["r"][j]
        elif k == "fn":
            x = st["r"][i]
            if x is None: continue
            fun("N ref x = r[%d]; f[%d] = auto(){ return x.id; };" % (i, j)); st["f"][j] = x
        elif k == "fnclr": fun("f[%d] = nullptr;" % j); st["f"][j] = None
        elif k == "au":
            x = st["r"][i]
            if x is None: continue
            fun("u[%d] = r[%d];" % (j, i)); st["u"][j] = x
        elif k == "auclr": fun("u[%d] = nullptr;" % j); st["u"][j] = None
        elif k == "ip":
            x = st["r"][i]
            if x is None: continue
            if m & 1: fun("r[%d].last = r[%d].id; ip[%d] = &r[%d].last;" % (i, i, j, i))
            else: fun("ip[%d] = &r[%d].id;" % (j, i))
            st["ip"][j] = x
        elif k == "av":
            # only a pointer to an element, often the last one, keeps an array
            c = [1, 2, 3, 14, 30, 62, 126, 127, 128, 129, 300, 1000][(m * 5 + i) % 12]; q = c - 1 if m & 3 else i % c; av[j] = 1000 + n[0]
            fun("int[] t = new int[%d]; t[%d] = %d; av[%d] = &t[%d];" % (c, q, av[j], j, q))
        elif k == "avclr": fun("av[%d] = nullptr;" % j); av[j] = None
        elif k == "ipclr": fun("ip[%d] = nullptr;" % j); st["ip"][j] = None
        elif k == "vec":
            if len(st["v"]) >= 12: continue
            fun("v.push_back(r[%d]);" % i); st["v"].append(st["r"][i])
        elif k == "vecclr": fun("vector<N ref> w; v = w;"); st["v"] = []
        elif k == "cls": fun("hs[%d].h = r[%d];" % (j, i)); st["hs"][j] = st["r"][i]
        elif k == "keepclr": fun("for(int i = 0; i < 64; i++) keep[i] = nullptr; kn = 0;"); st["keep"] = []
        elif k == "nat":
            # the object is held by a bound member function implemented by the host only
            fun("float2 ref p = new float2; p.x = 3; p.y = 4; nf = p.length;"); nat[0] = True
        elif k == "try":
            # collection inside of a nested run
            x = st["r"][i]
            if x is None: continue
            main.append("gc();"); collect(); y = mknode(("n", nid[0]))
            fun("N ref l = mk(%d), e = r[%d]; r[%d] = nullptr; auto z = try(auto(){ N ref l2 = l; l = nullptr; wipe(1, 2, 3, 4, 5, 6, 7, 8); gc(); junk(); return l2.id * 1000 + e.id; }); ti(z.value);" % (y, i, i)); st["r"][i] = None
            collect([x, y]); out.append("i%d" % (y * 1000 + x))
        elif k == "co":
            x = st["r"][i]
            if x is None: continue
            fun("N ref x = r[%d]; r[%d] = nullptr; co[%d] = coroutine auto(){ N ref l = x; x = nullptr; int[3] q; q[1] = 5; while(1){ yield l.id + q[1]; q[1]++; } return 0; }; ti(co[%d]());" % (i, i, j, j)); st["r"][i] = None; st["co"][j] = x; cc[j] = 5; out.append("i%d" % (x + 5))
        elif k == "coclr": fun("co[%d] = nullptr;" % j); st["co"][j] = None
        elif k == "big": fun("int[] t = new int[%d]; t[%d] = 5;" % (200 * (m + 1), m))
        elif k == "junk": main.append("junk();")
        elif k == "gc": main.append("gc();"); collect()
        elif k == "loc":
            # an object that only a local variable of an active function holds
            # (what became unreachable before is collected first: the native stack of an active function may still refer to it)
            main.append("gc();"); collect()
            x = st["r"][i]; y = mknode(("n", nid[0]))
            fun("N ref l = mk(%d); l.b = r[%d]; r[%d] = nullptr; gc(); junk(); ti(l.id); ti(l.data[1]); ti(l.b ? l.b.id : 0); l = nullptr;" % (y, i, i))
            node[y][1] = x; st["r"][i] = None
            collect([y]); out += ["i%d" % y, "i%d" % (y * 3), "i%d" % (x or 0)]
        elif k == "walk":
            if nat[0]: fun("td(nf());"); out.append("d4014000000000000")
            for s in range(S):
                if st["co"][s] is not None: fun("ti(co[%d]());" % s); cc[s] += 1; out.append("i%d" % (st["co"][s] + cc[s]))
            for s in range(S):
                if av[s] is not None: fun("ti(*av[%d]);" % s); out.append("i%d" % av[s])
                fun("if(r[%d]) ti(r[%d].id); if(r[%d] && r[%d].a) ti(r[%d].a.id); if(r[%d] && r[%d].a && r[%d].a.b) ti(r[%d].a.b.id); if(r[%d] && r[%d].data.size) ti(r[%d].data[1]); if(f[%d]) ti(f[%d]()); if(ip[%d]) ti(*ip[%d]); if(hs[%d].h) ti(hs[%d].h.id);" % tuple([s] * 18))
                x = st["r"][s]
                if x is not None:
                    out.append("i%d" % x); a = node[x][0]
                    if a is not None:
                        out.append("i%d" % a)
                        if node[a][1] is not None: out.append("i%d" % node[a][1])
                    if node[x][2][0] == "n": out.append("i%d" % (x * 3))
                for q in ("f", "ip", "hs"):
                    if st[q][s] is not None: out.append("i%d" % st[q][s])
    # everything that is still there is finalized once when the host asks for it
    rest = [x for b in block if b not in fin for x in block[b]]
    code += main + ["ts(\"end\");", "return 1;"]; out.append("send")
    lines = []
    for x in rest:
        lines.append("i%d" % x)
        if fa == 3 and node[x][2][0] == "n": lines.append("l%d" % (x * 3))
    return "\n".join(code) + "\n", out, sorted(lines), survived[0] and finalized[0]

def run_graph(case, ctx):
    try: code, want, rest, nt = render(case)
    except scripts.Bad: return Outcome(labels=["not applicable"])
    out = Outcome(nontrivial=nt, key=code, labels=sorted(set("graph: " + x[0] for x in case["ops"])), sample=code[:700], evals=len(case["cfgs"]))
    for ex, op in case["cfgs"]:
        r = ctx.w.run([["exec", ex], ["opt", op], ["build", code], ["run"], ["trace"], ["finalize"], ["trace"]])
        where = "executor %d optimization %d: " % (ex, op)
        def bad(kind, t): return scripts.fail(out, kind, where + t, code)
        if r.timeout: return bad("time", "the program does not finish")
        if not r.clean: return bad("crash", "the host ended with %s" % r.status)
        if not r[2].ok: return bad("rejected", "the program was rejected: " + r[2].err)
        if not r[3].ok: return bad("fault", "the run failed: " + r[3].err)
        got = scripts.trace_lines(r[4].data[0]); p = 0
        for w in want:
            if isinstance(w, list):
                # lines up to the end of the collection
                e = next((q for q in range(p, len(got)) if got[q] == "s--"), len(got)); seg = sorted(got[p:e])
                if seg != w: return bad("finalizers", "a collection finalized %s, expected %s (trace line %d)\n--- trace\n%s" % (seg, w, p + 1, "\n".join(got)))
                p = e
            else:
                if p >= len(got) or got[p] != w: return bad("value", "line %d of the trace is %r instead of %r\n--- trace\n%s" % (p + 1, got[p] if p < len(got) else "missing", w, "\n".join(got)))
                p += 1
        if p != len(got): return bad("value", "unexpected trace after line %d\n%s" % (p, "\n".join(got)))
        all_ = scripts.trace_lines(r[6].data[0]); fin = sorted(all_[len(got):] if all_[:len(got)] == got else all_)
        if fin != rest: return bad("finalize", "finalization ran %s, expected %s\n--- trace\n%s" % (fin, rest, "\n".join(all_)))
    return out
def show(case): return full(case) if case["kind"] == "prog" else render(case)[0]
