"""C04: what the compiler evaluates has the value execution gives (model, execution and both evaluators)."""
import re
import lang, langgen, langprop, langrun, worker
from langprop import Ctx, setup
from lang import *
from langgen import Opt
from engine import Outcome
from props import c03
from props.c03 import G, values, spell

ID = "C04"
RULE = "a program with at least 3 constants whose expressions have operators or calls, all predicted by the model; or a whole program (40 or more model steps) for which at least one evaluator produced an answer"
ASSUMPTIONS = ["constants are compared with the reference evaluator and with the same expression executed at run time",
               "the evaluators are compared with what execution gives; a program they refuse is not counted"]
N = {"quick": 15000, "thorough": 160000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

# the built-in conversion functions have no code the compiler could evaluate: conversions go through functions of the program
def conv_fn(t, k):
    x = V("x", k); f = FuncDef("to_%s_%s" % (t, k), [x], t); f.body = [Return(Var(x), t)]
    return f
CONV = {(t, k): conv_fn(t, k) for t in PRIMS for k in ('int', 'long', 'double')}
def convert(used):
    def cast(t, x):
        f = CONV[t, stk(x.t)]; used.add((t, stk(x.t)))
        return Call(f, [x])
    return cast

class CRef(Lit):
    """a named constant"""

def pure_fn(s, k, fns, used):
    """a function without side effects outside its own variables: arithmetic, loops, branches, local arrays"""
    g = G(s); g.marks = []; g.side = True; g.cast = convert(used); g.sp = False
    ps = [V("p%d" % j, s.pick(PRIMS[1:])) for j in range(1 + s.i(3))]
    ret = s.pick(['int', 'int', 'long', 'double', 'short', 'char', 'float', 'bool'])
    f = FuncDef("f%d" % k, ps, ret)
    g.vars = list(ps); g.n = 0; body = []
    g.calls = fns
    orig = g.make
    def make(kk, d, allow, ints):
        if kk == 'mark':
            return call(s, g, d, fns) or g.leaf(allow)
        return orig(kk, d, allow, ints)
    g.make = make
    for j in range(s.i(4)):
        body += stmt(s, g, 2, j)
    body.append(Return(g.e(s.rng(1, 3)), ret)); f.body = body; f.ops = g.ops
    return f

def call(s, g, d, fns):
    if not fns: return None
    f = s.pick(fns)
    return Call(f, [g.e(d - 1) for p in f.params])

def stmt(s, g, d, j):
    k = s.w([(4, 'decl'), (3, 'assign'), (2 if d > 0 else 0, 'for'), (2 if d > 0 else 0, 'if'), (1 if d > 0 else 0, 'sw'), (1, 'arr'), (1 if d > 0 else 0, 'while')])
    if k == 'decl':
        g.k = getattr(g, "k", 0) + 1
        v = V("q%d" % g.k, s.pick(PRIMS)); r = [Decl(v, g.e(2))]; g.vars.append(v); return r
    if k == 'assign':
        return [ExprS(g.assign(s.pick(g.vars), 2))]
    n = len(g.vars)
    def body():
        r = []
        for x in range(1 + s.i(2)): r += stmt(s, g, d - 1, x)
        if s.p(10) : r.append(Jump("break", 1)) if loop else None
        return r
    loop = k in ('for', 'while')
    if k == 'for':
        g.k = getattr(g, "k", 0) + 1
        v = V("i%d" % g.k, 'int', ro=True); g.vars.append(v)
        b = body(); del g.vars[n:]
        c = g.e(1)
        b.append(If(Bin('>', c, g.lit('int')), [Jump(s.pick(["break", "continue"]), 1)])) if s.p(20) else None
        return [For(v, 0, 1 + s.i(5), 1, b)]
    if k == 'while':
        g.k = getattr(g, "k", 0) + 1
        fu = V("w%d" % g.k, 'int', ro=True); b = body(); del g.vars[n:]
        return [While(fu, 1 + s.i(4), g.e(1), b, s.p(40))]
    if k == 'if':
        a = body(); del g.vars[n:]; b = None
        if s.p(50): b = body(); del g.vars[n:]
        return [If(g.e(2), a, b)]
    if k == 'sw':
        e = g.e(1, ('int', 'short', 'char', 'long'))
        cs = []
        for x in range(1 + s.i(3)):
            b = body(); del g.vars[n:]
            cs.append((Lit('int', x, str(x)), b, s.p(25)))
        dd = body() if s.p(60) else None; del g.vars[n:]
        return [Switch(e, cs, dd)]
    g.k = getattr(g, "k", 0) + 1
    v = V("a%d" % g.k, ('arr', s.pick(['int', 'long', 'char', 'double', 'short', 'float']), 2 + s.i(3)))
    el = v.t[1]
    r = [Decl(v)]
    for x in range(v.t[2]): r.append(ExprS(Assign('', Index(Var(v), Lit('int', x, str(x)), el), g.e(1))))
    w = V("e%d" % g.k, el); r.append(Decl(w, Index(Var(v), index(s, g), el))); g.vars.append(w)
    return r

def index(s, g):
    vs = [x for x in g.vars if x.t in ('char', 'short', 'int')]
    if not vs or s.p(20): return Lit('int', 1, "1")
    return Bin('&', Var(s.pick(vs)), Lit('int', 1, "1"))

def value(e, t):
    """predicted value of e converted to t (as stored in a variable of that type)"""
    lang.M = Machine(3000); fr = Frame("t"); lang.M.stack = [fr]
    l = Cell(t, zero(t).v); store(l, ev_as(e, t, fr))
    return l.v

def gen_const(s):
    out = ["import vt;"]; want = []; fns = []; consts = []; used = set()
    for k in range(s.i(3)):
        f = pure_fn(s, k, list(fns), used); fns.append(f)
        o = Out(); FuncS(f).emit(o); out += o.lines
    g = G(s); g.side = False; g.marks = []; g.vars = []; g.cast = convert(used); g.sp = False
    orig = g.make; oleaf = g.leaf
    def make(kk, d, allow, ints):
        if kk in ('leaf', 'un') and fns and s.p(50):
            c = call(s, g, d, fns)
            if c is not None and c.t in allow: return c
        return orig(kk, d, allow, ints)
    def leaf(allow):
        cs = [c for c in consts if c.t in allow]
        if cs and s.p(25): return s.pick(cs)
        return oleaf(allow)
    g.make = make; g.leaf = leaf
    n = 0; deep = 0; bad = False
    for k in range(s.rng(2, 6)):
        kind = s.w([(4, 'array'), (3, 'enum'), (4, 'class'), (3, 'if'), (3, 'default'), (2, 'align'), (2, 'local'), (2, 'classif')])
        o0 = g.ops
        try:
            if kind == 'array':
                e = Bin('+', Bin('&', g.e(s.rng(1, 3), ('char', 'short', 'int', 'long')), Lit('int', 63, "63")), Lit('int', 1, "1"))
                v = value(e, 'long')
                el = s.pick(['int', 'char', 'double', 'long'])
                out.append("%s[%s] a%d;" % (el, e.rp(1), n)); out.append("ti(a%d.size);" % n); want.append("i%d" % v)
                out.append("tl(%s);" % e.rp(1)); want.append("l%d" % v)
            elif kind == 'local':
                # constant initialised local in a function: folded by the optimizer, kept as a constant
                t = s.pick(PRIMS); e = g.e(s.rng(1, 3)); v = value(e, t)
                tr, w = trace(t, v, "c")
                out.append("void h%d(){ %s c = %s; %s }" % (n, t, e.rp(1), tr)); out.append("h%d();" % n); want.append(w)
            elif kind == 'enum':
                names = []; last = None; parts = []
                for j in range(s.rng(1, 4)):
                    nm = "N%d_%d" % (n, j)
                    if j and s.p(45) or (j == 0 and s.p(15)):
                        v = i32(last + 1) if last is not None else 0; parts.append(nm)
                        if last == 0x7fffffff: raise Taint("enum wrap")
                    else:
                        e = g.e(s.rng(1, 2), ('bool', 'char', 'short', 'int') if s.p(80) else PRIMS); v = value(e, 'int'); parts.append("%s = %s" % (nm, e.rp(1)))
                    last = v; names.append((nm, v))
                out.append("enum En%d{ %s }" % (n, ", ".join(parts)))
                for nm, v in names:
                    out.append("ti(int(En%d.%s));" % (n, nm)); want.append("i%d" % v)
            elif kind == 'class':
                t = s.pick(PRIMS[1:] + ('int', 'int', 'bool')); parts = []; last = None; names = []
                for j in range(s.rng(1, 4)):
                    nm = "k%d" % j
                    if j and t in ('char', 'short', 'int', 'long') and s.p(40) and last is not None:
                        v = narrow(t, conv(last + 1, t, t)); parts.append(nm)
                        if last in (0x7fffffff, (1 << 63) - 1): raise Taint("const wrap")
                        if v != last + 1: raise Taint("const wrap")
                    else:
                        e = g.e(s.rng(1, 3)); v = value(e, t); parts.append("%s = %s" % (nm, e.rp(1)))
                    last = v; names.append((nm, v))
                out.append("class K%d{ int m; const %s %s; }" % (n, t, ", ".join(parts)))
                inst = s.p(30)
                if inst: out.append("K%d vk%d;" % (n, n))
                for nm, v in names:
                    tr, w = trace(t, v, ("vk%d.%s" if inst else "K%d.%s") % (n, nm)); out.append(tr); want.append(w)
                    consts.append(CRef(t, v, "K%d.%s" % (n, nm)))
            elif kind == 'if':
                e = g.e(s.rng(1, 3)); v = value(e, 'bool')
                out.append("@if(%s){ ti(1); }else{ ti(2); }" % e.rp(1)); want.append("i1" if v else "i2")
                out.append("if(%s){ ti(1); }else{ ti(2); }" % e.rp(1)); want.append("i1" if v else "i2")
            elif kind == 'classif':
                e = g.e(s.rng(1, 3)); v = value(e, 'bool')
                out.append("class S%d{ @if(%s){ int x; }else{ long x; long y; } }" % (n, e.rp(1))); out.append("ti(sizeof(S%d));" % n); want.append("i4" if v else "i16")
            elif kind == 'default':
                t = s.pick(PRIMS); e = g.e(s.rng(1, 3)); v = value(e, t)
                tr, w = trace(t, v, "x")
                out.append("void d%d(int q, %s x = %s){ %s }" % (n, t, e.rp(1), tr)); out.append("d%d(1);" % n); want.append(w)
            elif kind == 'align':
                e = Bin('+', Bin('&', g.e(s.rng(1, 2), ('int', 'short', 'long')), Lit('int', 3, "3")), Lit('int', 1, "1")); v = value(e, 'int')
                out.append("typedef int[%s][2] T%d; ti(sizeof(T%d));" % (e.rp(1), n, n)); want.append("i%d" % (8 * v))
        except (Taint, Budget, OverflowError): continue
        except Fault:
            continue
        n += 1
        if g.ops > o0 + 1: deep += 1
    if not want: return None
    out.append("return 0;")
    o = Out()
    for k in sorted(used): FuncS(CONV[k]).emit(o)
    out[1:1] = o.lines
    return {"kind": "const", "code": "\n".join(out) + "\n", "want": "".join(w + "\n" for w in want), "deep": deep}

def trace(t, v, x):
    k = stk(t)
    if k == 'double': return "td(%s);" % x, "d" + dblbits(v)
    return ("ti(%s);" if k == 'int' else "tl(%s);") % x, ("i%d" if k == 'int' else "l%d") % v

PRELUDE = """long gacc;
void ti(int x){ gacc = gacc * 31l + x; }
void tl(long x){ gacc = gacc * 131l + x; }
void td(double x){ gacc = gacc * 17l + 1l; if(x != x) gacc += 7l; else if(x > 1.0e15) gacc += 3l; else if(x < -1.0e15) gacc += 5l; else gacc += long(x * 64.0); }
"""

OPTS = [Opt(size=8), Opt(size=6, coroutines=0, fnvals=0, closures=0), Opt(size=6, faults=30, coroutines=0, recursion=10), Opt(size=10, coroutines=60, keep=8), Opt(size=10, arrays=95, refs=90)]

def gen_prog(s, edits=()):
    P = langprop.build(s, OPTS[s.i(len(OPTS))], edits)
    if P is None: return None
    # results are kept in one number instead of being reported to the host
    P.imports = []
    last = P.top[-1] if P.top else None
    tail = []
    if last is not None and type(last).__name__ == "GRet":
        e = last.e; P.top.pop(); tail.append(Trace(e))
    for v in P.gvars:
        if is_prim(v.t): tail.append(Trace(Var(v)))
    P.top += tail
    code = P.render()
    if len(code) > 9000: return None
    try: x = P.predict(6000)
    except (Taint, Budget): return None
    return {"kind": "eval", "code": PRELUDE + code + "return gacc;\n", "fault": x.fault, "steps": x.steps, "opt": s.i(3) if not edits else None, "edits": list(edits)}

def reduce(case, choices):
    """whole programs: delete statements and simplify expressions; constants: delete lines"""
    if case["kind"] == "const":
        ls = case["code"].split("\n")
        return
    from engine import Src
    import langedit
    def src():
        s = Src(prefix=choices); s.p(45); return s
    s = src(); P = langprop.build(s, OPTS[s.i(len(OPTS))], case["edits"])
    if P is None: return
    for e in list(langedit.edits(P)):
        try: c = gen_prog(src(), case["edits"] + [e])
        except Exception: continue
        if c is None: continue
        c["opt"] = case["opt"]
        if len(c["code"]) < len(case["code"]): yield c

# the compiler may decline to evaluate an expression, it must not evaluate it to something else
REFUSE = re.compile("during constant folding|didn't evaluate to a constant|can't get array size|couldn't evaluate condition|can't get condition value|compile-time|constant folding|is not a constant")

def gen(src, ctx):
    if src.p(45): return gen_prog(src)
    return gen_const(src)

def run(case, ctx):
    code = case["code"]
    if case["kind"] == "const":
        n = 0
        for ex, op in ((0, 0), (1, 1), (0, 2)):
            o = langrun.observe(ctx.w.run(langrun.ops(code, ex, op))); n += 1
            where = "executor %d optimization %d: " % (ex, op)
            if o.status != "exit0": return Outcome(where + "process ended with " + o.status + "\n" + code, kind="crash", evals=n)
            m = REFUSE.search(o.err or "")
            if not o.built and m: return Outcome(evals=n, labels=["refused: " + m.group(0)])
            if not o.built: return Outcome(where + "rejected: " + o.err + "\n" + code, kind="reject", evals=n)
            if not o.ok: return Outcome(where + "run-time error: " + o.err + "\n" + code, kind="fault", evals=n)
            if o.trace != case["want"]:
                a, b = o.trace.split("\n"), case["want"].split("\n")
                d = [(k, x, y) for k, (x, y) in enumerate(zip(a, b)) if x != y][:4]
                return Outcome(where + "values differ (position, got, expected): %r\n%s" % (d, code), kind="value", evals=n)
        return Outcome(evals=n, nontrivial=case["deep"] >= 2, labels=["constants"], sample=code[:400])
    r = ctx.w.run([["exec", 0], ["opt", case["opt"]], ["compile", code], ["evalexpr"], ["evalinst"], ["build", code], ["run"], ["resultstr"]])
    if r.status in ("sig27", "sig14", "sig24"): return Outcome("time limit exceeded\n" + code, kind="timeout")
    if r.status != "exit0": return Outcome("%s after operation %d\n%s" % (r.status, len(r.r), code), kind="crash")
    if not r[2].ok: return Outcome("rejected: " + r[2].err + "\n" + code, kind="reject")
    labels = []; got = 0
    for i, nm in ((3, "expression tree"), (4, "intermediate code")):
        q = r[i]
        if not q.ok: labels.append("%s: no answer" % nm); continue
        got += 1; labels.append("%s: answer" % nm)
        if not r[6].ok: 
            if case["fault"] and case["opt"] == 0 or nm != "intermediate code":
                return Outcome("%s evaluator gave %s, execution reports %s\n%s" % (nm, q.data[0], r[6].err, code), kind="evalfault " + nm)
        elif q.data[0] != r[7].data[0]:
            return Outcome("%s evaluator gave %s, execution gives %s (optimization %d)\n%s" % (nm, q.data[0], r[7].data[0], case["opt"], code), kind="eval " + nm)
    return Outcome(evals=3, nontrivial=got > 0 and case["steps"] >= 40, labels=labels, sample=code[:400])

def show(case): return case["code"]
