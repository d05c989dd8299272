"""C11: values crossing the host boundary: a family of host functions bound directly and through wrappers, host calls of script functions, globals, re-entrant calls."""
import random, struct
import interop, scripts, worker, langrun
from interop import SIGS, HSIGS, ST, members, sc, numval, rnum, retval
from engine import Outcome

ID = "C11"
RULE = "at least two calls cross the boundary and at least three argument values are compared on the other side"
ASSUMPTIONS = ["the host side is a fixed family of %d signatures over the numeric types, 30 small structures by value and by reference, references, arrays, function values, auto ref, auto[] and typeid, with 0 to 17 arguments, bound directly and through wrappers, as functions and member functions" % len(SIGS),
               "the host calls script functions of %d signatures; class values are passed to the variadic host functions one argument for every member" % len(HSIGS),
               "x86-64 System V calling convention; NaN payloads are not generated"]
N = {"quick": 1600, "thorough": 60000}
CAP = {"quick": 75, "thorough": 840}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 10000}

class Ctx(scripts.Ctx):
    def __init__(self): self.w = worker.Worker("interop")
def setup(): worker.build_worker("interop")

def val(t, R):
    if t in interop.NUM: return numval(t, R)
    if t in ST: return [numval(m[0], R) for m in members(t)]
    if t in ("iarr", "aarr"): return [numval("int", R) for _ in range(R.choice([0, 1, 2, 3, 7]))]
    if t == "darr": return [numval("double", R) for _ in range(R.choice([0, 1, 2, 3]))]
    if t == "iref": return R.choice([None, numval("int", R), numval("int", R)])
    if t == "aref": return R.choice([None, ["i", numval("int", R)], ["d", numval("double", R)]])
    if t == "fn": return [R.choice([0, 1, 1, 2, 2, 3]), R.randrange(-50, 50)]
    if t == "tid": return R.choice(["int", "double", "S7", "int[]", "S3 ref", "auto ref", "void"])
    return None if R.random() < .2 else [numval(m[0], R) for m in members(t[:-3])]

def gen(src, ctx):
    ops = []
    for _ in range(src.rng(1, 7)):
        k = src.w([(8, "h"), (3, "c"), (3, "d"), (2, "g"), (2, "n"), (1, "e")])
        R = random.Random(src.i(1 << 20))
        if k == "h":
            i = src.i(len(SIGS)); r, a, m, cls = SIGS[i]
            ops.append([k, i, [val(t, R) for t in a], val(cls + "ref", R) if cls else None, src.i(3)])
        elif k in ("c", "d"):
            j = src.i(len(HSIGS)); a = HSIGS[j]; rt = src.pick(["int", "long", "double", "float", "char", "short", "bool", "void", "S7", "S11", "S19", "S3"])
            ops.append([k, j, [val(t, R) for t in a], rt, val(rt, R) if rt != "void" else None, src.i(3)])
        elif k == "g":
            t = src.pick(interop.NUM + list(ST)); ops.append([k, t, val(t, R), val(t, R)])
        elif k == "n": ops.append([k, src.rng(1, 6), src.i(3), src.rng(-100, 100)])
        else: ops.append([k, src.i(3), src.rng(0, 3), src.i(2)])
    return {"ops": ops, "mod": src.pick(["hi", "hw"]), "cfgs": [list(src.pick(scripts.ALL))] if src.p(60) else [list(x) for x in scripts.TWO]}

SHOW = {"bool": "ti(v);", "char": "ti(v);", "short": "ti(v);", "int": "ti(v);", "long": "tl(v);", "float": "td(v);", "double": "td(v);"}
def typename(t): return {"S3 ref": "S3 ref"}.get(t, t)
PRE = "".join("void w_%s(%s v){ %s }\n" % (t, t, c) for t, c in SHOW.items())
PRE += "".join("void w_%s(%s v){ %s }\nvoid w_%sref(%s ref v){ if(v) w_%s(*v); else ts(\"null\"); }\n%s mk%s(%s){ %s r; %s return r; }\n" % (
    s, s, " ".join("w_%s(v.%s);" % (t, n) for t, n in members(s)), s, s, s, s, s, ", ".join("%s p%s" % (t, n) for t, n in members(s)), s, " ".join("r.%s = p%s;" % (n, n) for t, n in members(s))) for s in ST)
PRE += """void w_iref(int ref v){ if(v) ti(*v); else ts("null"); }
void w_aref(auto ref v){ if(!v) ts("null"); else if(typeid(v) == int) ti(int(v)); else td(double(v)); }
void w_iarr(int[] v){ ti(v.size); for(i in v) ti(i); }
void w_darr(double[] v){ ti(v.size); for(i in v) td(i); }
void w_aarr(auto[] v){ ti(v.size); for(int i = 0; i < v.size; i++) ti(int(v[i])); }
void w_tid(typeid v){ ts(v.name); }
void w_fn(int ref(int) v){ if(v) ti(v(7)); else ts("null"); }
void churn(){ for(int i = 0; i < 200; i++){ int[] t = new int[i & 15]; for(k in t) k = -1; } GC.CollectMemory(); for(int i = 0; i < 200; i++){ int[] t = new int[i & 15]; for(k in t) k = -2; } }
"""
def num(t, v):
    if t in ("float", "double"):
        k = int(v * 1024); assert k / 1024 == v
        return "%s(double(%dl) / 1024.0)" % (t, k) if k >= 0 else "%s(-double(%dl) / 1024.0)" % (t, -k)
    if t == "long": return "%dl" % v if v >= 0 else "(-%dl)" % -v
    if t == "int": return "%d" % v if v >= 0 else "(-%d)" % -v
    return "%s(%d)" % (t, v)
def show(t, v):
    """trace lines of w_<t>(v)"""
    if t in ("bool", "char", "short", "int"): return ["i%d" % v]
    if t == "long": return ["l%d" % v]
    if t in ("float", "double"): return [rnum("double", v)]
    if t in ST: return [x for (mt, _), y in zip(members(t), v) for x in show(mt, y)]
    if t == "iref": return ["snull"] if v is None else ["i%d" % v]
    if t == "aref": return ["snull"] if v is None else show("int" if v[0] == "i" else "double", v[1])
    if t in ("iarr", "aarr"): return ["i%d" % len(v)] + ["i%d" % x for x in v]
    if t == "darr": return ["i%d" % len(v)] + [rnum("double", x) for x in v]
    if t == "tid": return ["s" + v]
    if t == "fn": return ["snull"] if v[0] == 0 else ["i7", "i%d" % fnres(v, 7)]
    return ["snull"] if v is None else show(t[:-3], v)
def fnres(v, x): return x * 3 + v[1]
def rec(t, v):
    """text the host records for an argument, and the trace lines made meanwhile"""
    if t in interop.NUM: return rnum(t, v), []
    if t in ST: return "{" + ",".join(rnum(mt, y) for (mt, _), y in zip(members(t), v)) + "}", []
    if t == "iref": return ("null" if v is None else "%d" % v), []
    if t == "aref": return ("null" if v is None else "i:%d" % v[1] if v[0] == "i" else "d:" + rnum("double", v[1])), []
    if t == "iarr": return "[" + ",".join(["%d" % len(v)] + ["%d" % x for x in v]) + "]", []
    if t == "darr": return "[" + ",".join(["%d" % len(v)] + [rnum("double", x) for x in v]) + "]", []
    if t == "aarr": return "<" + ",".join(["%d" % len(v)] + ["%d" % x for x in v]) + ">", []
    if t == "tid": return v, []
    if t == "fn": return ("null", []) if v[0] == 0 else ("fn:%d" % fnres(v, 3), ["i3"])
    return ("null" if v is None else rec(t[:-3], v)[0]), []

def render(case):
    glob, body, main, want, post = [], [], [], [], []
    n = [0]; err = None
    def fresh(p): n[0] += 1; return "%s%d" % (p, n[0])
    def expr(t, v, pre):
        """statements preparing an argument are appended to pre"""
        if t in interop.NUM:
            if n[0] % 3 == 0: x = fresh("n"); pre.append("%s %s = %s;" % (t, x, num(t, v))); return x
            n[0] += 1; return num(t, v)
        if t in ST: return "mk%s(%s)" % (t, ", ".join(num(mt, y) for (mt, _), y in zip(members(t), v)))
        x = fresh("x")
        if t == "iref": pre.append("int ref %s;" % x if v is None else "int ref %s = new int(%s);" % (x, num("int", v)))
        elif t == "aref": pre.append("auto ref %s = nullptr;" % x if v is None else "%s %s = %s;" % (("int", x, num("int", v[1])) if v[0] == "i" else ("double", x, num("double", v[1]))))
        elif t in ("iarr", "darr", "aarr"):
            e = "double" if t == "darr" else "int"
            pre.append("%s[] %s = new %s[%d]; %s" % (e, x, e, len(v), " ".join("%s[%d] = %s;" % (x, q, num(e, y)) for q, y in enumerate(v))))
            if t == "aarr": pre.append("auto[] %sa = %s;" % (x, x)); x += "a"
        elif t == "tid": return typename(v)
        elif t == "fn":
            if v[0] == 0: pre.append("int ref(int) %s;" % x)
            elif v[0] == 1: glob.append("int %s(int x){ ti(x); return x * 3 + %s; }" % (x, num("int", v[1])))
            else: pre.append("int c%s = %s; int ref(int) %s = auto(int x){ ti(x); %s return x * 3 + c%s; };" % (x, num("int", v[1]), x, "churn();" if v[0] == 3 else "int[] t = new int[4]; t[1] = x;", x))
        else:
            s = t[:-3]; pre.append("%s ref %s;" % (s, x) if v is None else "%s %sv = %s; %s ref %s = &%sv;" % (s, x, expr(s, v, pre), s, x, x))
        return x
    def fun(stmts, live):
        f = fresh("q"); a = "int l0 = %d; long l1 = %dl; double l2 = %d.5;" % (live * 7 + 1, live * 100003 + 5, live * 3)
        body.append("void %s(){ %s\n  %s\n  ti(l0); tl(l1); td(l2); }" % (f, a, "\n  ".join(stmts))); main.append("%s();" % f)
        return ["i%d" % (live * 7 + 1), "l%d" % (live * 100003 + 5), rnum("double", live * 3 + .5)]
    def scripted(a, vals, rt, rv, kind):
        """a script function of the given signature which shows its arguments; kind 1: closure"""
        f = fresh("g"); ps = ", ".join("%s a%d" % (sc(t), k) for k, t in enumerate(a))
        ret = " return %s;" % num(rt, rv) if rt != "void" and rt not in ST else (" return mk%s(%s);" % (rt, ", ".join(num(mt, y) for (mt, _), y in zip(members(rt), rv))) if rt in ST else "")
        shows = " ".join("w_%s(a%d);" % (t, k) for k, t in enumerate(a))
        w = [x for t, v in zip(a, vals) for x in show(t, v)]
        gc = "churn(); " if kind == 2 else ""
        return f, ps, "%s%s%s" % (gc, shows, ret), w
    def htext(a, vals, names):
        o = []
        for t, v in zip(a, vals):
            if t in ST: o += ["%r" % y if mt in ("float", "double") else "%d" % y for (mt, _), y in zip(members(t), v)]
            elif t in ("iarr", "aarr"): o.append(",".join("%d" % x for x in v))
            elif t == "iref": o.append("null" if v is None else "%d" % v)
            elif t == "aref": o.append("null" if v is None else v[0] + ("%d" % v[1] if v[0] == "i" else "%r" % v[1]))
            elif t == "fn":
                f = fresh("k"); glob.append("int %s(int x){ ti(x); return x * 3 + %s; }" % (f, num("int", v[1]))); o.append(f if v[0] else "nosuchfunction")
            else: o.append("%r" % v if t in ("float", "double") else "%d" % v)
        return o
    def dump(rt, rv):
        return {"void": "void"}.get(rt, rt)
    for op in case["ops"]:
        k = op[0]
        if k == "h":
            _, i, vals, self, style = op; r, a, m, cls = SIGS[i]; pre = []; L = []
            names = [expr(t, v, pre) for t, v in zip(a, vals)]
            txt = "h%d" % i; tr = []
            for t, v in zip(a, vals):
                x, l = rec(t, v); txt += " " + x; tr += l
            call = "h%d(%s)" % (i, ", ".join(names))
            if cls:
                if self is None: self = [0 for _ in members(cls)]
                o = fresh("o"); pre.append("%s %s = %s;" % (cls, o, expr(cls, self, pre))); call = o + "." + call; txt += " this" + rec(cls, self)[0]
            L += tr + [txt]
            if r == "void": pre.append(call + ";")
            else:
                rv = vals[m] if m is not None else retval(i)
                if m is not None and r == "fn" and rv[0] == 3: pass
                if r in ("int", "long", "double", "short", "char", "float") and style == 1:
                    pre.append("double z = %s; w_double(double(l0) + %s);" % (num("double", 2.0), call)); L += show("double", float(n and 0) + 0) if False else []
                    L.append(None)   # replaced below
                    l0 = (len(main) + 3) * 7 + 1; L[-1] = rnum("double", l0 + float(rv)) if r != "long" else rnum("double", l0 + float(rv))
                else: pre.append("%s res = %s; w_%s(res);" % (sc(r), call, r)); L += show(r, rv)
            want += L; want += fun(pre, len(main) + 3)
        elif k == "c":
            _, j, vals, rt, rv, kind = op; a = HSIGS[j]; f, ps, bd, w = scripted(a, vals, rt, rv, kind)
            t = "".join(x + "|" for x in htext(a, vals, None))
            if kind == 1:
                stm = ["int cap = 41;", "auto %s = auto(%s){ ti(cap); %s };" % (f, ps, bd), "hcb(%d, \"%s\", &%s);" % (j, t, f)]; w = ["i41"] + w
            else:
                body.append("%s %s(%s){ %s }" % (rt, f, ps, bd)); stm = ["%s ref(%s) fv = %s;" % (rt, ", ".join(sc(x) for x in a), f), "hcb(%d, \"%s\", &fv);" % (j, t)]
            want += w + ["hcb " + result(rt, rv)]; want += fun(stm, len(main) + 3)
        elif k == "d":
            _, j, vals, rt, rv, kind = op; a = HSIGS[j]; f, ps, bd, w = scripted(a, vals, rt, rv, kind)
            body.append("%s %s(%s){ %s }" % (rt, f, ps, bd)); t = htext(a, vals, None)
            post.append((["hcall", str(j), f] + t, result(rt, rv), w))
        elif k == "g":
            _, t, v, v2 = op; g = fresh("G"); glob.append("%s %s = %s;" % (t, g, num(t, v)) if t not in ST else "%s %s = mk%s(%s);" % (t, g, t, ", ".join(num(mt, y) for (mt, _), y in zip(members(t), v))))
            body.append("void s%s(){ w_%s(%s); }" % (g, t, g))
            main.append("s%s();" % g); want += show(t, v)
            post.append((["getglobal", g], None, None, t, v))
            post.append((["setglobal", g, pack(t, v2)], None, []))
            post.append((["getglobal", g], None, None, t, v2))
            post.append((["runfn", "s" + g], None, show(t, v2)))
        elif k == "n":
            _, depth, how, x = op; f = fresh("rr"); 
            body.append("int %s(int d){ int[] keep = new int[3]; keep[1] = d * 5; int a = d + %s; if(d == 0){ %s return a; } int r = hrun(\"%s\", d - 1); %s ti(keep[1]); return r * 3 + a + keep[1]; }" % (f, num("int", x), "churn();" if how else "", f, "churn();" if how == 2 else ""))
            r = x; w = []
            for d in range(1, depth + 1): w.append("i%d" % (d * 5)); r = wrap(r * 3 + d + x + d * 5)
            want += w + ["i%d" % r]; want += fun(["ti(%s(%d));" % (f, depth)], len(main) + 3)
        else:
            # an error inside a function called back by the host is caught by the script that called the host
            _, how, depth, caught = op; f = fresh("ee")
            body.append("int %s(int d){ ti(d); if(d == 0){ %s } return hrun(\"%s\", d - 1) + 1; }" % (f, ['stop("inner");', "int[] z = new int[2]; return z[d + 5];", "int ref z; return *z + d;"][how], f))
            w = ["i%d" % d for d in range(depth, -1, -1)]
            want += w + ["sfailed"]; want += fun(["ts(try(auto(){ return %s(%d); }).message.size > 1 ? \"failed\" : \"returned\");" % (f, depth)], len(main) + 3)
    imp = "import vt; import std.gc; import std.error; import std.typeinfo; import %s; import hs;\n" % case["mod"]
    code = imp + PRE + "\n".join(glob) + "\n" + "\n".join(body) + "\n" + "\n".join(main) + "\nreturn 1;"
    return code, want, post
def wrap(v): return (v + 2**31) % 2**32 - 2**31
def result(rt, rv):
    if rt == "void": return "void="
    return "%s=%s" % (rt, dumped(rt, rv))
def dumped(rt, rv):
    if rt in ST: return "{" + ",".join(dumped(mt, y) for (mt, _), y in zip(members(rt), rv)) + "}"
    if rt == "bool": return "true" if rv else "false"
    if rt == "float": return "f:%08x" % struct.unpack("<I", struct.pack("<f", rv))[0]
    if rt == "double": return "d:%016x" % struct.unpack("<Q", struct.pack("<d", rv))[0]
    return "%d" % rv
def pack(t, v):
    F = {"bool": "b", "char": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}
    if t in ST: return struct.pack("@" + "".join(F[mt] for mt, _ in members(t)), *v)
    return struct.pack("<" + F[t], v)

def run(case, ctx):
    try: code, want, post = render(case)
    except AssertionError: raise
    out = Outcome(key=code, sample=code[len(PRE) + 60:][:700], evals=len(case["cfgs"]), labels=[case["mod"]] + sorted({o[0] for o in case["ops"]}))
    out.nontrivial = len(case["ops"]) >= 2 and len(want) + len(post) >= 5
    for ex, op in case["cfgs"]:
        where = "executor %d optimization %d, %s binding: " % (ex, op, "direct" if case["mod"] == "hi" else "wrapped")
        def bad(kind, t): return scripts.fail(out, kind, where + t, code[:80] + "...\n" + code[len(PRE) + 60:])
        ops = [["exec", ex], ["opt", op], ["build", code], ["run"], ["trace"]]
        for p in post: ops += [p[0], ["trace"]]
        r = ctx.w.run(ops, timeout_ms=6000)
        if len(r.r) > 2 and not r[2].ok: return bad("rejected", "the program is rejected: " + r[2].err)
        if r.timeout: return bad("time", "the program does not finish")
        if not r.clean: return bad("crash", "the host ended with " + r.status + (" in " + repr(ops[len(r.r)])[:200] if len(r.r) < len(ops) else ""))
        got = scripts.trace_lines(r[4].data[0])
        if not r[3].ok: return bad("error", "the run ended with " + r[3].err + "; recorded %r" % got[-5:])
        if got != want:
            k = next((q for q, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            return bad("trace", "record %d is %r and not %r" % (k, got[k:k + 2], want[k:k + 2]))
        for q, p in enumerate(post):
            a, b = r[5 + 2 * q], r[6 + 2 * q]; g = scripts.trace_lines(b.data[0])
            if not a.ok: return bad("post", "%r failed: %s" % (p[0], a.err))
            if p[0][0] == "hcall" and a.data[0] != p[1]: return bad("result", "the host called %r and got %r and not %r" % (p[0], a.data[0], p[1]))
            if p[0][0] == "getglobal":
                w = (p[3], dumped(p[3], p[4]))
                if tuple(a.data[:2]) != w: return bad("global", "global %r reads as %r and not %r" % (p[0], a.data[:2], w))
            if p[2] is not None and g != p[2]: return bad("post", "after %r the script saw %r and not %r" % (p[0], g, p[2]))
    return out
reduce = scripts.dropper()
def show_case(case): return render(case)[0][len(PRE):]
