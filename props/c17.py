"""C17: generic functions and classes against hand-written copies with the types substituted; overload choice against the documented rule."""
import worker, itertools
from engine import Outcome
from scripts import Ctx, setup, ALL, dropper, check, fail, trace_lines, Bad

ID = "C17"
RULE = "a generic case whose program makes at least two different instances and traces at least six values, or an overload case where a call has at least two candidates that accept it"
ASSUMPTIONS = ["type arguments are the numeric types, instances of generated generic classes, arrays and functions over them; overloads take numeric types, arrays, references, classes, derived classes, functions, auto ref, auto[] and generic arguments"]
N = {"quick": 3600, "thorough": 110000}
CAP = {"quick": 200, "thorough": 840}
MIN_NONTRIVIAL = {"quick": 1200, "thorough": 30000}

NUM = ["char", "short", "int", "long", "float", "double"]
RANK = {n: i for i, n in enumerate(NUM)}

# ---------------------------------------------------------------- generic against hand-written
# symbolic types: numeric name, ("v", alias), ("g", parameter) for typeof(parameter), ("arr", t), ("cls", k, [t, u]), ("fn", ret, [args])
class Gen:
    def __init__(self, s):
        self.s = s; self.classes = []; self.funcs = []
    def lit(self): return ["lit", self.s.rng(-9, 20)] if not self.s.p(25) else ["lit", self.s.pick([0.5, 1.25, -2.5, 3.75])]
    def num(self, env, d, tv):
        """a numeric expression"""
        s = self.s; nums = [v for v in env if not isinstance(v[1], (list, tuple)) or v[1][0] in "vg"]
        r = s.rng(0, 99)
        if d <= 0 or r < 14: return ["v", s.pick(nums)[0]] if nums and not s.p(25) else self.lit()
        if r < 44: return ["bin", s.pick(["+", "-", "*"]), self.num(env, d - 1, tv), self.num(env, d - 1, tv)]
        if r < 54: return ["cast", s.pick(tv + ["int", "long", "double"]), self.num(env, d - 1, tv)]
        if r < 62: return ["cond", s.pick(["<", ">", "==", "<="]), self.num(env, d - 1, tv), self.num(env, d - 1, tv), self.num(env, d - 1, tv), self.num(env, d - 1, tv)]
        if r < 70:
            a = [v for v in env if isinstance(v[1], list) and v[1][0] == "arr"]
            if a: v = s.pick(a); return ["idx", v[0], s.rng(0, 2)]
        if r < 80:
            a = [v for v in env if isinstance(v[1], list) and v[1][0] == "cls"]
            if a:
                v = s.pick(a); c = self.classes[v[1][1]]
                if c["methods"] and s.p(55):
                    m = s.pick(c["methods"]); return ["meth", v[0], m["name"], [self.num(env, d - 1, tv) for _ in m["params"]]]
                f = s.pick([f for f in c["fields"] if f[2] == "n"]); return ["fld", v[0], f[0]]
        if r < 86:
            a = [v for v in env if isinstance(v[1], list) and v[1][0] == "fn"]
            if a: v = s.pick(a); return ["callv", v[0], [self.num(env, d - 1, tv)]]
        if self.funcs: return self.call(env, d - 1, tv)
        return self.lit()
    def call(self, env, d, tv):
        s = self.s; k = s.rng(0, len(self.funcs) - 1); f = self.funcs[k]
        if f["explicit"] and s.p(60) or f["noinfer"]: ex = [s.pick(tv + NUM) for _ in f["aliases"]]
        else: ex = None
        args = []
        for p in f["params"]:
            t = p[1]
            if t[0] == "fn": args.append(["fnval", s.pick([0, 1, 2]), s.pick(NUM[2:]), s.pick(NUM[2:])])
            elif t[0] == "arr": args.append(["arrval", [self.lit() for _ in range(3)], s.pick(tv + NUM[2:])])
            elif t[0] == "cls": args.append(["newobj", t[1], [s.pick(tv + NUM[2:]) for _ in range(2)], [self.num(env, d - 1, tv) for _ in range(2)]])
            elif ex is None and t[0] == "v": args.append(["cast", s.pick(tv + NUM), self.num(env, d - 1, tv)] if sum(1 for q in f["params"] if q[1] == t) > 1 else self.num(env, d - 1, tv))
            else: args.append(self.num(env, d - 1, tv))
        # equal aliases need equal types
        if ex is None:
            seen = {}
            for p, a in zip(f["params"], args):
                if p[1][0] == "v":
                    if p[1][1] in seen: a[1] = seen[p[1][1]]
                    elif a[0] == "cast": seen[p[1][1]] = a[1]
        return ["call", k, args, ex]
    def stmts(self, env, d, tv, n, loop=0):
        s = self.s; out = []; env = list(env)
        for _ in range(n):
            r = s.rng(0, 99); nums = [v for v in env if (not isinstance(v[1], (list, tuple)) or v[1][0] in "vg") and not v[0].startswith("it")]
            if r < 22:
                nm = "x%d" % self.uid(); t = s.pick(tv + tv + ["int", "double", "long"]); out.append(["decl", nm, t, self.num(env, 2, tv)]); env.append((nm, t))
            elif r < 30:
                nm = "y%d" % self.uid(); e = self.num(env, 2, tv); out.append(["auto", nm, e]); self.autos.append(nm); out.append(["trace", ["v", nm]])
            elif r < 44 and nums:
                v = s.pick(nums); out.append(["set", v[0], s.pick(["=", "=", "+=", "-="]) if not loop else "=", self.num(env, 2, tv)])
            elif r < 54:
                nm = "a%d" % self.uid(); t = s.pick(tv + ["int"]); out.append(["arr", nm, t, [self.num(env, 1, tv) for _ in range(3)]]); env.append((nm, ["arr", t]))
            elif r < 62 and self.classes:
                nm = "o%d" % self.uid(); k = s.rng(0, len(self.classes) - 1); ts = [s.pick(tv + NUM[2:]) for _ in range(2)]
                out.append(["obj", nm, k, ts, [self.num(env, 1, tv) for _ in range(2)]]); env.append((nm, ["cls", k, ts]))
            elif r < 68:
                o = [v for v in env if isinstance(v[1], list) and v[1][0] == "cls"]
                if o: v = s.pick(o); f = s.pick([f for f in self.classes[v[1][1]]["fields"] if f[2] == "n"]); out.append(["setf", v[0], f[0], self.num(env, 2, tv)])
            elif r < 72 and d > 0: out.append(["if", s.pick(["<", ">", "=="]), self.num(env, 1, tv), self.num(env, 1, tv), self.stmts(env, d - 1, tv, s.rng(1, 2), loop), self.stmts(env, d - 1, tv, s.rng(0, 1), loop)])
            elif r < 77 and d > 0 and tv: out.append(["static", s.pick(tv), s.pick(NUM), self.stmts(env, d - 1, tv, s.rng(1, 2), loop), self.stmts(env, d - 1, tv, s.rng(1, 2), loop)])
            elif r < 81 and d > 0 and not loop:
                a = [v for v in env if isinstance(v[1], list) and v[1][0] == "arr"]
                if a:
                    nm = "it%d" % self.uid(); v = s.pick(a); out.append(["each", nm, v[0], self.stmts(env + [(nm, v[1][1])], 0, tv, s.rng(1, 2), 1)])
            else: out.append(["trace", self.num(env, 3, tv)])
        return out
    def uid(self): self.n = getattr(self, "n", 0) + 1; return self.n
    def cls(self, k):
        s = self.s; c = {"fields": [["p", ["v", "T"], "n"], ["q", ["v", "U"], "n"], ["r", s.pick(["int", "double", ["v", "T"]]), "n"], ["w", ["arr", s.pick([["v", "T"], ["v", "U"], "int"])], "a"]], "methods": [], "ctor": s.p(70)}
        tv = [["v", "T"], ["v", "U"]]
        env = [(f[0], f[1]) for f in c["fields"]]
        for m in range(s.rng(0, 3)):
            ps = [["m%d" % i, s.pick(tv + ["int"])] for i in range(s.rng(0, 2))]
            e2 = env + [(a, b) for a, b in ps]
            old, self.funcs2 = self.funcs, None
            body = self.stmts(e2, 1, tv, s.rng(0, 2)); ret = self.num(e2, 2, tv)
            c["methods"].append({"name": "f%d_%d" % (k, m), "params": ps, "body": body, "ret": ret, "ext": s.p(35), "spec": None})
            if c["methods"][-1]["ext"] and s.p(40):
                c["methods"][-1]["spec"] = [[s.pick(NUM[2:]), s.pick(NUM[2:])], self.num([(a, b) for a, b in ps], 1, ["int"])]
        return c
    def func(self, k):
        s = self.s; ps = []; al = []; kind = s.rng(0, 9)
        noinfer = kind == 0
        for i in range(s.rng(1, 3)):
            n = "p%d" % i; r = s.rng(0, 99)
            if noinfer: ps.append([n, s.pick(["int", "double"])]); continue
            if r < 45:
                a = s.pick(["T", "U"]); ps.append([n, ["v", a]])
                if a not in al: al.append(a)
            elif r < 57: ps.append([n, ["g", n]])
            elif r < 67: ps.append([n, "int"])
            elif r < 79 and not kind == 1:
                a = "V%d" % i; ps.append([n, ["arr", ["v", a]]]); al.append(a)
            elif r < 88 and self.classes:
                a, b = "C%d" % i, "D%d" % i; ps.append([n, ["cls", s.rng(0, len(self.classes) - 1), [["v", a], ["v", b]]]]); al += [a, b]
            elif r < 95:
                a, b = "R%d" % i, "S%d" % i; ps.append([n, ["fn", ["v", a], [["v", b]]]]); al += [a, b]
            else: ps.append([n, "double"])
        if noinfer: al = ["T", "U"][:s.rng(1, 2)]
        simple = all(not isinstance(p[1], list) or p[1][0] == "v" for p in ps)
        explicit = noinfer or (simple and al and s.p(30))
        tv = [["v", a] for a in al] + [p[1] for p in ps if p[1][0] == "g"]
        env = [(p[0], p[1]) for p in ps]
        return {"params": ps, "aliases": al, "noinfer": noinfer, "explicit": explicit, "body": self.stmts(env, 1, tv, s.rng(0, 4)), "ret": self.num(env, 3, tv)}

def gen_generic(s):
    g = Gen(s); g.autos = []
    for k in range(s.pick([0,1,1,2])): g.classes.append(g.cls(k))
    for k in range(s.rng(1, 4)): g.funcs.append(g.func(k))
    main = []
    for _ in range(s.rng(2, 7)):
        if s.p(70): main.append(["trace", g.call([], 2, ["int"])])
        else: main += g.stmts([], 0, ["int"], s.rng(1, 3)) if False else [["trace", g.num([], 3, ["int"])]]
    main += g.stmts([], 1, ["int"], s.rng(0, 4))
    return {"kind": "generic", "classes": g.classes, "funcs": g.funcs, "ops": main, "module": s.p(30), "order": s.rng(0, 10**6), "cfgs": [s.pick(ALL)]}

NO = {"x": 0}
class Mono:
    """renders one case: generic text (G) and the hand-written text (M); both are walked with concrete types"""
    def __init__(self, case): self.c = case; self.cls = {}; self.fn = {}; self.out = []; self.defs = []; self.ninst = 0
    def conc(self, t, b):
        if isinstance(t, str): return t
        if t[0] in ("v", "g"): return b[t[1]]
        if t[0] == "arr": return ("arr", self.conc(t[1], b))
        if t[0] == "cls": return ("cls", t[1], tuple(self.conc(x, b) for x in t[2]))
        if t[0] == "fn": return ("fn", self.conc(t[1], b), tuple(self.conc(x, b) for x in t[2]))
    def name(self, t):
        """hand-written name"""
        if isinstance(t, str): return t
        if t[0] == "arr": return self.name(t[1]) + "[]"
        if t[0] == "cls": self.need_class(t); return "K%d_%s_%s" % (t[1], t[2][0], t[2][1])
        if t[0] == "fn": return "%s ref(%s)" % (t[1], ",".join(t[2]))
    def gname(self, t):
        if isinstance(t, str): return t
        if t[0] == "v": return t[1]
        if t[0] == "g": return "typeof(%s)" % t[1]
        if t[0] == "cls": return "K%d<%s,%s>" % (t[1], self.gname(t[2][0]), self.gname(t[2][1]))
    # --- expressions: (generic text, hand-written text, concrete type)
    def ex(self, e, env, b):
        k = e[0]
        if k == "lit":
            t = "(%s)" % e[1] if e[1] < 0 else str(e[1]); return t, t, "double" if isinstance(e[1], float) else "int"
        if k == "v": return e[1], e[1], env[e[1]]
        if k == "bin":
            x, y = self.ex(e[2], env, b), self.ex(e[3], env, b)
            return "(%s %s %s)" % (x[0], e[1], y[0]), "(%s %s %s)" % (x[1], e[1], y[1]), max(x[2], y[2], key=RANK.get)
        if k == "cast":
            x = self.ex(e[2], env, b); t = self.conc(e[1], b)
            g = self.gname(e[1]); 
            return "%s(%s)" % (g, x[0]), "%s(%s)" % (t, x[1]), t
        if k == "cond":
            v = [self.ex(q, env, b) for q in e[2:]]
            return tuple("(%s %s %s ? %s : %s)" % (v[0][i], e[1], v[1][i], v[2][i], v[3][i]) for i in (0, 1)) + (max(v[2][2], v[3][2], key=RANK.get),)
        if k == "idx": return "%s[%d]" % (e[1], e[2]), "%s[%d]" % (e[1], e[2]), env[e[1]][1]
        if k == "fld": return "%s.%s" % (e[1], e[2]), "%s.%s" % (e[1], e[2]), self.field(env[e[1]], e[2])
        if k == "meth":
            t = env[e[1]]; self.need_class(t); a = [self.ex(q, env, b) for q in e[3]]
            return "%s.%s(%s)" % (e[1], e[2], ", ".join(x[0] for x in a)), "%s.%s(%s)" % (e[1], e[2], ", ".join(x[1] for x in a)), self.cls[t]["ret"][e[2]]
        if k == "callv":
            a = self.ex(e[2][0], env, b); return "%s(%s)" % (e[1], a[0]), "%s(%s)" % (e[1], a[1]), env[e[1]][1]
        if k == "fnval":
            t = "h%d_%s_%s" % (e[1], e[2], e[3]); self.hs.add((e[1], e[2], e[3])); return t, t, ("fn", e[2], (e[3],))
        if k == "arrval":
            v = [self.ex(q, env, b) for q in e[1]]; t = self.conc(e[2], b); g = self.gname(e[2])
            return "{%s}" % ", ".join("%s(%s)" % (g, x[0]) for x in v), "{%s}" % ", ".join("%s(%s)" % (t, x[1]) for x in v), ("arr", t if t not in ("char", "short", "float") else t)
        if k == "newobj":
            t = ("cls", e[1], tuple(self.conc(q, b) for q in e[2])); v = [self.ex(q, env, b) for q in e[3]]; n = self.name(t)
            gn = "K%d<%s,%s>" % (e[1], self.gname(e[2][0]), self.gname(e[2][1]))
            if not self.c["classes"][e[1]]["ctor"]: raise Bad()
            return "%s(%s, %s)" % (gn, v[0][0], v[1][0]), "%s(%s, %s)" % (n, v[0][1], v[1][1]), t
        if k == "call":
            f = self.c["funcs"][e[1]]; a = [self.ex(q, env, b) for q in e[2]]
            bind = {}
            if e[3] is not None:
                for al, t in zip(f["aliases"], e[3]): bind[al] = self.conc(t, b)
            for p, x in zip(f["params"], a): self.bind(p[1], x[2], bind, e[3] is not None)
            inst = self.need_func(e[1], bind, tuple(self.conc(p[1], bind) for p in f["params"]))
            w = " with<%s>" % ", ".join(self.gname(t) for t in e[3]) if e[3] is not None else ""
            return "g%d%s(%s)" % (e[1], w, ", ".join(x[0] for x in a)), "%s(%s)" % (inst["name"], ", ".join(x[1] for x in a)), inst["ret"]
        raise Exception(k)
    def bind(self, t, c, bind, explicit):
        if isinstance(t, str): return
        if t[0] in ("v", "g"):
            if t[1] in bind and bind[t[1]] != c and not explicit: raise Bad()
            bind.setdefault(t[1], c)
        elif t[0] == "arr":
            if c[0] != "arr": raise Bad()
            self.bind(t[1], c[1], bind, explicit)
        elif t[0] == "cls":
            if c[0] != "cls" or c[1] != t[1]: raise Bad()
            for x, y in zip(t[2], c[2]): self.bind(x, y, bind, explicit)
        elif t[0] == "fn":
            self.bind(t[1], c[1], bind, explicit)
            for x, y in zip(t[2], c[2]): self.bind(x, y, bind, explicit)
    def field(self, t, f):
        self.need_class(t); b = dict(T=t[2][0], U=t[2][1])
        return self.conc(next(x for x in self.c["classes"][t[1]]["fields"] if x[0] == f)[1], b)
    def need_class(self, t):
        if t in self.cls: return
        c = self.c["classes"][t[1]]; b = dict(T=t[2][0], U=t[2][1]); n = "K%d_%s_%s" % (t[1], t[2][0], t[2][1])
        I = self.cls[t] = {"ret": {}}; self.ninst += 1
        env0 = {x[0]: self.conc(x[1], b) for x in c["fields"]}; ms = []
        fl = " ".join("%s %s;" % ((env0[x[0]][1] + "[3]") if x[2] == "a" else env0[x[0]], x[0]) for x in c["fields"])
        ct = " void %s(%s a, %s b){ p = a; q = b; r = 7; w[0] = 1; w[1] = a; w[2] = b; }" % (n, b["T"], b["U"]) if c["ctor"] else ""
        inner, ext = [], []
        for m in c["methods"]:
            env = dict(env0); 
            for q in m["params"]: env[q[0]] = self.conc(q[1], b)
            sp = m["spec"] and tuple(m["spec"][0]) == t[2]
            if sp: body = []; r = self.ex(m["spec"][1], {q[0]: self.conc(q[1], b) for q in m["params"]}, b)
            else: body = self.st(m["body"], env, b)[1]; r = self.ex(m["ret"], env, b)
            I["ret"][m["name"]] = r[2]
            ps = ", ".join("%s %s" % (self.conc(q[1], b), q[0]) for q in m["params"])
            if m["ext"]: ext.append("auto %s:%s(%s){ %s return %s; }" % (n, m["name"], ps, " ".join(body), r[1]))
            else: inner.append("auto %s(%s){ %s return %s; }" % (m["name"], ps, " ".join(body), r[1]))
        self.defs.append("class %s { %s%s %s }" % (n, fl, ct, " ".join(inner))); self.defs += ext
    def need_func(self, k, bind, pt):
        key = (k, tuple(sorted(bind.items(), key=str)), pt)
        if key in self.fn:
            if self.fn[key] is None: raise Bad()
            return self.fn[key]
        self.fn[key] = None; self.ninst += 1
        f = self.c["funcs"][k]; env = {p[0]: t for p, t in zip(f["params"], pt)}
        names = [self.name(t) for t in pt]
        body = self.st(f["body"], env, bind)[1]; r = self.ex(f["ret"], env, bind)
        n = "m%d_%d" % (k, len(self.fn))
        self.defs.append("auto %s(%s){ %s return %s; }" % (n, ", ".join("%s %s" % (q, p[0]) for q, p in zip(names, f["params"])), " ".join(body), r[1]))
        self.fn[key] = {"name": n, "ret": r[2]}; return self.fn[key]
    def tr(self, x):
        f = "ti" if x[2] in ("char", "short", "int") else "tl" if x[2] == "long" else "td"
        g = "ti" if f == "ti" else f
        return "%s(%s);" % (f, x[0]), "%s(%s);" % (g, x[1])
    def st(self, body, env, b):
        G, M = [], []; env = env if env is None else env
        for q in body:
            k = q[0]
            if k == "decl": x = self.ex(q[3], env, b); env[q[1]] = self.conc(q[2], b); G.append("%s %s = %s;" % (self.gname(q[2]), q[1], x[0])); M.append("%s %s = %s;" % (env[q[1]], q[1], x[1]))
            elif k == "auto": x = self.ex(q[2], env, b); env[q[1]] = x[2]; G.append("auto %s = %s;" % (q[1], x[0])); M.append("auto %s = %s;" % (q[1], x[1]))
            elif k == "set": x = self.ex(q[3], env, b); G.append("%s %s %s;" % (q[1], q[2], x[0])); M.append("%s %s %s;" % (q[1], q[2], x[1]))
            elif k == "arr":
                v = [self.ex(z, env, b) for z in q[3]]; t = self.conc(q[2], b); env[q[1]] = ("arr", t)
                for L, i, n in ((G, 0, self.gname(q[2])), (M, 1, t)): L.append("%s[3] %s; %s" % (n, q[1], " ".join("%s[%d] = %s;" % (q[1], j, x[i]) for j, x in enumerate(v))))
            elif k == "obj":
                t = ("cls", q[2], tuple(self.conc(z, b) for z in q[3])); n = self.name(t); v = [self.ex(z, env, b) for z in q[4]]
                gn = "K%d<%s,%s>" % (q[2], self.gname(q[3][0]), self.gname(q[3][1])); env[q[1]] = t
                for L, i, nn in ((G, 0, gn), (M, 1, n)):
                    if self.c["classes"][q[2]]["ctor"]: L.append("%s %s = %s(%s, %s);" % (nn, q[1], nn, v[0][i], v[1][i]))
                    else: L.append("%s %s; %s.p = %s; %s.q = %s;" % (nn, q[1], q[1], v[0][i], q[1], v[1][i]))
            elif k == "setf": x = self.ex(q[3], env, b); self.field(env[q[1]], q[2]); G.append("%s.%s = %s;" % (q[1], q[2], x[0])); M.append("%s.%s = %s;" % (q[1], q[2], x[1]))
            elif k == "if":
                x, y = self.ex(q[2], env, b), self.ex(q[3], env, b); a, c = self.st(q[4], dict(env), b), self.st(q[5], dict(env), b)
                for L, i in ((G, 0), (M, 1)): L.append("if(%s %s %s){ %s } else { %s }" % (x[i], q[1], y[i], " ".join(a[i]), " ".join(c[i])))
            elif k == "static":
                t = self.conc(q[1], b); hit = t == q[2]
                # the branch that is not taken is never compiled in the generic text: it is rendered with its own names only
                a, c = self.st(q[3], dict(env), b), self.st(q[4], dict(env), b)
                G.append("@if(%s == %s){ %s } else { %s }" % (self.gname(q[1]), q[2], " ".join(a[0]), " ".join(c[0]))); M.append("{ %s }" % " ".join((a if hit else c)[1]))
            elif k == "each":
                e2 = dict(env); e2[q[1]] = env[q[2]][1]; a = self.st(q[3], e2, b)
                for L, i in ((G, 0), (M, 1)): L.append("for(%s in %s){ %s }" % (q[1], q[2], " ".join(a[i])))
            elif k == "trace": x = self.tr(self.ex(q[1], env, b)); G.append(x[0]); M.append(x[1])
        return G, M
    def pat(self, t, p, seen):
        if isinstance(t, str): return t
        if t[0] == "g": return "generic"
        if t[0] == "v": return "@" + t[1]
        if t[0] == "arr": return self.pat(t[1], p, seen) + "[]"
        if t[0] == "cls": return "K%d<%s, %s>" % (t[1], self.pat(t[2][0], p, seen), self.pat(t[2][1], p, seen))
        if t[0] == "fn": return "%s ref(%s)" % (self.pat(t[1], p, seen), ", ".join(self.pat(x, p, seen) for x in t[2]))
    def render(self):
        c = self.c; self.hs = set()
        G, M = self.st(c["ops"], {}, {})
        gt = []
        for k, q in enumerate(c["classes"]):
            b = {"T": "int", "U": "int"}; env0 = {x[0]: self.conc(x[1], b) for x in q["fields"]}
            fl = " ".join("%s%s %s;" % (self.gname(x[1][1]) if x[2] == "a" else self.gname(x[1]), "[3]" if x[2] == "a" else "", x[0]) for x in q["fields"])
            ct = " void K%d(T a, U b){ p = a; q = b; r = 7; w[0] = 1; w[1] = a; w[2] = b; }" % k if q["ctor"] else ""
            inner, ext, spec = [], [], []
            for m in q["methods"]:
                body, ret = self.gen_body(m["body"], m["ret"], env0, m["params"], b); ps = ", ".join("%s %s" % (self.gname(z[1]), z[0]) for z in m["params"])
                if m["ext"]: ext.append("auto K%d:%s(%s){ %s return %s; }" % (k, m["name"], ps, body, ret))
                else: inner.append("auto %s(%s){ %s return %s; }" % (m["name"], ps, body, ret))
                if m["spec"]:
                    b2 = {"T": m["spec"][0][0], "U": m["spec"][0][1]}; e = Silent(self).ex(m["spec"][1], {z[0]: self.conc(z[1], b2) for z in m["params"]}, b2)
                    spec.append("auto K%d<%s, %s>:%s(%s){ return %s; }" % (k, b2["T"], b2["U"], m["name"], ", ".join("%s %s" % (self.conc(z[1], b2), z[0]) for z in m["params"]), e[0]))
            gt.append("class K%d<T, U>{ %s%s %s }" % (k, fl, ct, " ".join(inner))); gt += ext + spec
        for k, f in enumerate(c["funcs"]):
            b = {}; 
            for a in f["aliases"]: b[a] = "int"
            for p in f["params"]:
                if p[1][0] == "g": b[p[1][1]] = "int"
            body, ret = self.gen_body(f["body"], f["ret"], {}, f["params"], b)
            ex = "<%s>" % ", ".join("@" + a for a in f["aliases"]) if f["explicit"] else ""
            gt.append("auto g%d%s(%s){ %s return %s; }" % (k, ex, ", ".join("%s %s" % (self.pat(p[1], p[0], set()), p[0]) for p in f["params"]), body, ret))
        hs = ["%s h%d_%s_%s(%s x){ return x %s; }" % (r, i, r, a, a, ["+ 1", "* 2", "- 3"][i]) for i, r, a in sorted(self.hs)]
        return hs, gt, G, M
    def gen_body(self, body, ret, env0, params, b):
        """the generic text of a body; walked with placeholder types, which only decide nothing but the trace function"""
        S = Silent(self); env = dict(env0)
        for z in params: env[z[0]] = self.conc(z[1], b)
        g = S.st(body, env, b)[0]; r = S.ex(ret, env, b)[0]
        return " ".join(g), r

class Silent(Mono):
    """generic text only; trace through a generic helper as the type is not known"""
    def __init__(self, m): self.c = m.c; self.m = m; self.hs = m.hs; self.cls = {}; self.fn = {}; self.ninst = 0; self.defs = []
    def need_class(self, t):
        if t in self.cls: return
        self.cls[t] = {"ret": {m["name"]: "int" for m in self.c["classes"][t[1]]["methods"]}}
    def need_func(self, k, bind, pt): return {"name": "?", "ret": "int"}
    def bind(self, t, c, bind, explicit):
        if isinstance(t, (list, tuple)):
            if t[0] in ("v", "g"): bind.setdefault(t[1], c if isinstance(c, str) else "int")
            elif t[0] == "arr": self.bind(t[1], "int", bind, explicit)
            elif t[0] == "cls" or t[0] == "fn":
                for x in (t[2] if t[0] == "cls" else [t[1]] + list(t[2])): self.bind(x, "int", bind, explicit)

# both texts trace through the same overloaded helper so that the static type decides
HELP = "void tv(char x){ ts(\"char\"); ti(x); } void tv(short x){ ts(\"short\"); ti(x); } void tv(int x){ ts(\"int\"); ti(x); } void tv(long x){ ts(\"long\"); tl(x); } void tv(float x){ ts(\"float\"); td(x); } void tv(double x){ ts(\"double\"); td(x); }\n"
Mono.tr = lambda self, x: ("tv(%s);" % x[0], "tv(%s);" % x[1])

def texts(case):
    m = Mono(case); hs, gt, G, M = m.render()
    return m, hs, gt, G, m.defs, M

def run_generic(case, ctx):
    try: m, hs, gt, G, defs, M = texts(case)
    except (Bad, KeyError, TypeError, StopIteration): return Outcome(labels=["not applicable"])
    imp = "import vt;\n"
    mod = HELP + "\n".join(hs) + "\n"
    hand = imp + mod + "\n".join(defs) + "\n" + "\n".join(M) + "\nreturn 1;"
    prep = []
    if case["module"]:
        prep = [["loadsrc", "m0", imp + mod + "\n".join(gt)]]; gene = "import m0;\n" + imp.replace("import vt;\n", "") + "\n".join(G) + "\nreturn 1;"
    else: gene = imp + mod + "\n".join(gt) + "\n" + "\n".join(G) + "\nreturn 1;"
    ex, op = case["cfgs"][0]
    shown = ("--- module m0\n" + prep[0][2] + "\n--- generic\n" if prep else "--- generic\n") + gene
    out = Outcome(key=shown, labels=["generic", "in a module" if prep else "one file"], sample=shown[:900], evals=2, nontrivial=False)
    conf = [["exec", ex], ["opt", op]]
    a = ctx.w.run(conf + [["build", hand], ["run"], ["trace"]])
    if not a.clean or not a[2].ok: out.labels = ["hand-written rejected"]; out.rejected = True; out.violation = None; case["_rej"] = a[2].err if a.clean else a.status; return out
    r = ctx.w.run(conf + prep + [["build", gene], ["run"], ["trace"]]); k = 2 + len(prep)
    where = "executor %d optimization %d: " % (ex, op); both = shown + "\n--- hand-written\n" + hand
    if not r.clean: return fail(out, "crash", where + "the generic program ended the host with %s" % r.status, both)
    if prep and not r[2].ok: return fail(out, "module", where + "the module of generic functions was rejected: " + r[2].err, both)
    if not r[k].ok: return fail(out, "rejected", where + "the generic program was rejected while its hand-written form is accepted: " + r[k].err, both)
    ta, tb = trace_lines(a[4].data[0]), trace_lines(r[k + 2].data[0])
    out.nontrivial = m.ninst >= 2 and len(ta) >= 6
    if ta != tb:
        d = next(i for i in range(max(len(ta), len(tb))) if i >= len(ta) or i >= len(tb) or ta[i] != tb[i])
        return fail(out, "trace", where + "line %d of the trace differs: generic %r, hand-written %r" % (d + 1, tb[d] if d < len(tb) else None, ta[d] if d < len(ta) else None), both, ta, tb)
    if a[3].ok != r[k + 1].ok: return fail(out, "run", where + "one of the two runs failed: %s / %s" % (a[3].err, r[k + 1].err), both)
    return out

# ---------------------------------------------------------------- overloads
ARGV = [("bool", "true"), ("char", "vc"), ("short", "vs"), ("int", "vi"), ("int", "5"), ("long", "vl"), ("float", "vf"), ("double", "vd"), ("double", "1.5"), ("int[3]", "va3"), ("int[4]", "va4"), ("int[]", "vau"), ("double[2]", "vd2"),
        ("int ref", "ri"), ("double ref", "rd"), ("A", "oa"), ("B", "ob"), ("E", "oe"), ("A ref", "pa"), ("B ref", "pb"), ("C ref", "pc"), ("E ref", "pe"), ("void ref", "nullptr"), ("auto ref", "va"), ("auto[]", "vaa"), ("fn", "fii"), ("char[4]", '"abc"'), ("G<int>", "gi"), ("G<double>", "gd")]
PARAM = ["bool", "char", "short", "int", "long", "float", "double", "int[]", "double[]", "int[3]", "int ref", "double ref", "A", "B", "A ref", "B ref", "C ref", "E", "E ref", "auto ref", "auto[]", "fn", "char[]", "generic", "generic ref", "generic[]", "G<generic>", "G<int>", "G<generic> ref", "int[] ref"]
FN = "int ref(int)"
BASE = {"B": "A", "C": "B"}; EXT = {"A", "B", "C"}
def derived(a, b):
    """a is b or derived from it"""
    while a:
        if a == b: return True
        a = BASE.get(a)
    return False
def isref(t): return t.endswith(" ref") and t != "auto ref"
def isarr(t): return t.endswith("]") and t != "auto[]"
def unsized(t): return t.endswith("[]") and t != "auto[]"
def sub(t): return t[:t.rindex("[")]
def match(p, a):
    """the type a generic parameter takes for an argument type, None if it does not match"""
    if a == "void ref": return Unjudged
    if p == "generic": return sub(a) + "[]" if isarr(a) else a
    if p == "generic ref": return Unjudged if a == "auto ref" else a if isref(a) else a + " ref"
    if p == "generic[]": return sub(a) + "[]" if isarr(a) else None
    if p == "G<generic>": return a if a.startswith("G<") and a.endswith(">") else None
    if p == "G<generic> ref": return a + " ref" if a.startswith("G<") and a.endswith(">") else (a if a.startswith("G<") and isref(a) else None)
def rate(p, a, value):
    """cost of passing a as p by the documented conversions, None when it cannot be passed"""
    if p == a: return 0
    if a == "void ref": return 0 if isref(p) or unsized(p) or p == "fn" else 5 if p in ("auto ref", "auto[]") else None
    if unsized(p) and isarr(a) and not unsized(a) and sub(p) == sub(a): return 2
    if p == "auto[]" and isarr(a): return 5
    if isref(p) and isref(a):
        x, y = p[:-4], a[:-4]
        if unsized(x) and isarr(y) and not unsized(y) and sub(x) == sub(y): return 10
        if x in EXT and y in EXT:
            if derived(y, x): return 5
            if derived(x, y): return 10
    if p == "fn": return None
    if isref(p) and p[:-4] == a: return 5
    if p == "auto ref": return 5 if isref(a) else 10
    if p in NUMB and a in NUMB: return 1
    return None
class Unjudged: pass
NUMB = ["bool"] + NUM

def gen_over(s):
    n = s.rng(2, 6); k = s.pick([1,1,1,2,2,2,3])
    fam = s.pick([PARAM, PARAM, ["char", "short", "int", "long", "float", "double", "bool", "generic"], ["A", "A ref", "B", "B ref", "C ref", "auto ref", "generic", "generic ref"], ["int[]", "int[3]", "auto[]", "auto ref", "generic", "generic[]", "int[] ref", "generic ref"]])
    fs = []
    for _ in range(n):
        ps = [s.pick(fam) for _ in range(k if not s.p(15) else s.rng(1, 3))]
        d = s.rng(1, len(ps)) if s.p(15) and ps[-1] in ("int", "double", "long") else 0
        fs.append([ps, 1 if d else 0])
    calls = []
    args = [a for a in ARGV if fam is PARAM or any(p in a[0] for p in fam) or a[0] in fam or (fam[0] == "A" and a[0][0] in "ABC" and a[0][:1] != "b") or (fam[0] == "int[]" and "int" in a[0])] or ARGV
    for _ in range(s.rng(1, 6)): calls.append([s.pick(args) for _ in range(k if not s.p(8) else s.rng(1, 3))])
    return {"kind": "over", "ops": fs, "calls": calls, "perm": [s.rng(0, 100) for _ in range(n)], "method": s.p(25), "cfgs": [s.pick(ALL)]}

PRE = """import vt;
class A extendable { int x; } class B : A { int y; } class C : B { int z; } class E { int x; } class G<T>{ T g; }
char vc = 1; short vs = 2; int vi = 3; long vl = 4; float vf = 5; double vd = 6; int[3] va3; int[4] va4; int[] vau = va4; double[2] vd2;
int ref ri = new int(7); double ref rd = new double(8); A oa; B ob; E oe; A ref pa = new C(); B ref pb = new C(); C ref pc = new C(); E ref pe = new E();
auto ref va = 9; auto[] vaa = va3; int fii(int x){ return x; } G<int> gi; G<double> gd;
"""
def decide(fs, call):
    """-> ('f', index, signature) | ('none',) | ('many',)"""
    best = {}; cands = 0
    for i, (ps, d) in enumerate(fs):
        if not (len(ps) - d <= len(call) <= len(ps)): continue
        gen = any("generic" in p for p in ps); tot = 0; ok = True
        for p, (a, v) in zip(ps, call):
            q = p
            if "generic" in p:
                q = match(p, a)
                if q is Unjudged: raise Bad()
                if q is None: ok = False; break
            r = rate(q, "fn" if a == "fn" else a, v)
            if r is None: ok = False; break
            tot += r
        if ok: cands += 1; best.setdefault((tot), []).append((gen, i))
    if not best: return ("none",), 0
    m = min(best); c = best[m]; ng = [x for x in c if not x[0]]
    if ng: c = ng
    return (("f", c[0][1]) if len(c) == 1 else ("many",)), cands

def render_over(case, order):
    fs = case["ops"]; out = []
    for i in order:
        ps, d = fs[i]
        out.append("void %sf(%s){ ts(\"f%d\"); }" % ("E:" if case["method"] else "", ", ".join("%s q%d%s" % (FN if p == "fn" else p, j, " = 1" if d and j == len(ps) - 1 else "") for j, p in enumerate(ps)), i))
    return PRE + "\n".join(out) + "\n"

def run_over(case, ctx):
    fs = case["ops"]; n = len(fs)
    sigs = [tuple(ps) for ps, d in fs]
    if len(set(sigs)) < n: return Outcome(labels=["not applicable"])
    try: want = [decide(fs, c) for c in case["calls"]]
    except Bad: return Outcome(labels=["not applicable"])
    ex, op = case["cfgs"][0]
    orders = [list(range(n)), sorted(range(n), key=lambda i: (case["perm"][i], i)), list(range(n))[::-1]]
    out = Outcome(key=str((sigs, case["calls"], case["method"])), labels=["overloads"] + sorted({w[0][0] for w in want}), sample=render_over(case, orders[0])[len(PRE):] + str(want), evals=0, nontrivial=any(w[1] >= 2 for w in want))
    for o in orders:
        text = render_over(case, o); good = []
        for c, (w, nc) in zip(case["calls"], want):
            call = ("oe." if case["method"] else "") + "f(%s);" % ", ".join(v for t, v in c)
            if w[0] == "f": good.append((call, w[1])); continue
            r = ctx.w.run([["exec", ex], ["opt", op], ["build", text + call + " return 1;"], ["build", "return 1;"]]); out.evals += 1
            if not r.clean: return fail(out, "crash", "the compiler ended the host with %s" % r.status, text + call)
            need = "can't find" if w[0] == "none" else "ambiguity"
            if r[2].ok: return fail(out, "accepted", "a call that %s was accepted" % ("no overload takes" if w[0] == "none" else "fits several overloads equally"), text + call)
            alt = w[0] == "none" and ("Cannot convert" in r[2].err or "cannot convert" in r[2].err or "none of the" in r[2].err or "can't" in r[2].err or "doesn't" in r[2].err or "does not" in r[2].err)
            if need not in r[2].err and not alt: return fail(out, "other error", "expected %r, the error is %s" % (need, r[2].err), text + call)
        if good:
            code = text + "\n".join(c for c, i in good) + "\nreturn 1;"
            r = ctx.w.run([["exec", ex], ["opt", op], ["build", code], ["run"], ["trace"]]); out.evals += 1
            if not r.clean: return fail(out, "crash", "the host ended with %s" % r.status, code)
            if not r[2].ok: return fail(out, "rejected", "the calls have one best overload each (%s), but: %s" % (["f%d" % i for c, i in good], r[2].err), code)
            got = trace_lines(r[4].data[0]); exp = ["sf%d" % i for c, i in good]
            if got != exp: return fail(out, "choice", "calls went to %s instead of %s" % (got, exp), code)
    return out

def gen(s, ctx): return gen_generic(s) if s.p(70) else gen_over(s)
def run(case, ctx): return (run_generic if case["kind"] == "generic" else run_over)(case, ctx)
def reduce(case, choices):
    if case["kind"] == "over":
        for i in range(len(case["calls"])):
            if len(case["calls"]) > 1: yield dict(case, calls=case["calls"][:i] + case["calls"][i + 1:])
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1: yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:], perm=case["perm"][:i] + case["perm"][i + 1:])
        return
    for r in dropper()(case, choices): yield r
    if case["module"]: yield dict(case, module=False)
    def cut(b):
        for i in range(len(b)):
            yield b[:i] + b[i + 1:]
    for i, f in enumerate(case["funcs"]):
        for b in cut(f["body"]): yield dict(case, funcs=case["funcs"][:i] + [dict(f, body=b)] + case["funcs"][i + 1:])
        if f["ret"] != ["lit", 1]: yield dict(case, funcs=case["funcs"][:i] + [dict(f, body=[], ret=["lit", 1])] + case["funcs"][i + 1:]); yield dict(case, funcs=case["funcs"][:i] + [dict(f, ret=["lit", 1])] + case["funcs"][i + 1:])
        for sub_ in f["ret"][1:]:
            if isinstance(sub_, list) and sub_ and isinstance(sub_[0], str): yield dict(case, funcs=case["funcs"][:i] + [dict(f, ret=sub_)] + case["funcs"][i + 1:])
    for i, c in enumerate(case["classes"]):
        for j, m in enumerate(c["methods"]):
            def put(m2): return dict(case, classes=case["classes"][:i] + [dict(c, methods=c["methods"][:j] + ([m2] if m2 else []) + c["methods"][j + 1:])] + case["classes"][i + 1:])
            yield put(None)
            for b in cut(m["body"]): yield put(dict(m, body=b))
            if m["ret"] != ["lit", 1]: yield put(dict(m, ret=["lit", 1], body=[]))
