"""C16: reflection on generated types: a walk of every type and object compared with the declarations, conversions through auto ref and auto[]."""
import scripts
from scripts import Ctx, setup, ALL, TWO, dropper, check, Bad
from engine import Outcome

ID = "C16"
RULE = "the program declares at least two classes and performs at least six operations"
ASSUMPTIONS = ["types are built from the basic types, enumerations, classes with inheritance, generic classes, references, sized and unsized arrays, function types, auto ref and auto[] to depth 3"]
N = {"quick": 3000, "thorough": 90000}
CAP = {"quick": 75, "thorough": 840}
MIN_NONTRIVIAL = {"quick": 1000, "thorough": 30000}

BAS = ["bool", "char", "short", "int", "long", "float", "double"]
SIZE = {"bool": 1, "char": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8, "void": 0}
def T(x): return tuple(T(y) for y in x) if isinstance(x, (list, tuple)) else x
def subst(t, b):
    if not isinstance(t, tuple) or not t: return t
    if t[0] == "v": return b[t[1]]
    return tuple(subst(x, b) if isinstance(x, tuple) else x for x in t)
def nm(t):
    k = t[0]
    if k == "b": return t[1]
    if k == "e": return "En%d" % t[1]
    if k == "c": return "C%d" % t[1]
    if k == "g": return "G%d<%s>" % (t[1], ",".join(nm(x) for x in t[2]))
    if k == "r": return nm(t[1]) + " ref"
    if k == "a": return "%s[%d]" % (nm(t[2]), t[1])
    if k == "u": return nm(t[1]) + "[]"
    if k == "f": return "%s ref(%s)" % (nm(t[1]), ",".join(nm(x) for x in t[2]))
    return {"ar": "auto ref", "aa": "auto[]", "ti": "typeid"}[k]
def dc(t):
    """source text; array dimensions are written outermost first"""
    k = t[0]
    if k in "au":
        d = ""
        while t[0] in ("a", "u"): d += "[%s]" % (t[1] if t[0] == "a" else ""); t = t[-1]
        return dc(t) + d
    if k == "v": return t[1]
    if k == "g": return "G%d<%s>" % (t[1], ", ".join(dc(x) for x in t[2]))
    if k == "r": return dc(t[1]) + " ref"
    if k == "f": return "%s ref(%s)" % (dc(t[1]), ", ".join(dc(x) for x in t[2]))
    return nm(t)

def gtype(s, case, d, lim=None, tv=()):
    """lim: number of classes that may be used by value"""
    lim = len(case["classes"]) if lim is None else lim
    r = s.rng(0, 99)
    if d <= 0 or r < 34:
        if tv and s.p(45): return ("v", s.pick(tv))
        return ("b", s.pick(BAS))
    if r < 38 and case["enums"]: return ("e", s.rng(0, len(case["enums"]) - 1))
    if r < 54 and lim: return ("c", s.rng(0, lim - 1))
    if r < 60 and case["generics"] and not tv: return ("g", s.rng(0, len(case["generics"]) - 1), (gtype(s, case, d - 1, lim), gtype(s, case, d - 1, lim)))
    if r < 72: return ("r", gtype(s, case, d - 1, lim, tv))
    if r < 87:
        e = gtype(s, case, d - 1, lim, tv)
        if e == ("aa",): e = ("ar",)
        return ("a", s.rng(1, 4), e) if r < 81 else ("u", e)
    if r < 94: return ("f", gtype(s, case, 1, lim, tv) if s.p(70) else ("b", "void"), tuple(gtype(s, case, 1, lim, tv) for _ in range(s.rng(0, 3))))
    return s.pick([("ar",), ("aa",), ("ti",)])

NAMES = ["a", "b", "size_", "x", "value", "next_", "m0", "m1", "name_", "qq", "zz", "w_1"]
def gen(s, ctx):
    case = {"classes": [], "enums": [s.rng(1, 4) for _ in range(s.rng(0, 2))], "generics": [], "vars": [], "ops": []}
    for k in range(s.rng(1, 5)):
        base = s.rng(0, k - 1) if k and s.p(40) and any(c["ext"] for c in case["classes"]) else None
        if base is not None and not case["classes"][base]["ext"]: base = None
        used = set(fields_of(case, base)) if base is not None else set()
        fs = []
        for n in s.shuffle(NAMES)[:s.rng(0 if base is not None else 1, 4)]:
            if n not in used: fs.append([n, gtype(s, case, 2)])
        if not fs: fs = [["only%d" % k, ("b", "int")]]
        case["classes"].append({"base": base, "ext": base is not None or s.p(35), "fields": fs, "meth": s.p(50), "consts": s.p(20)})
    for k in range(s.rng(0, 2)):
        case["generics"].append([[n, gtype(s, case, 2, None, ("T", "U"))] for n in s.shuffle(NAMES)[:s.rng(1, 3)]])
    for i in range(s.rng(2, 6)):
        t = gtype(s, case, 3); init = []
        case["vars"].append([t, s.i(10 ** 6)])
    for _ in range(s.rng(3, 14)):
        v = s.rng(0, len(case["vars"]) - 1)
        case["ops"].append([s.w([(22, "walk"), (18, "obj"), (18, "conv"), (9, "arr"), (8, "make"), (6, "makearr"), (8, "static"), (8, "func"), (6, "wrong"), (8, "poly"), (6, "eq"), (6, "member"), (5, "switch")]), v, s.rng(0, len(case["vars"]) - 1), s.i(1000), gtype(s, case, 3)])
    case["cfgs"] = [s.pick(ALL)] if s.p(70) else TWO
    return case

def fields_of(case, k):
    c = case["classes"][k]; r = dict(fields_of(case, c["base"])) if c["base"] is not None else {}
    for n, t in c["fields"]: r[n] = T(t)
    return r
def all_fields(case, t):
    """(name, type) in declaration order, base members first"""
    if t[0] == "c":
        c = case["classes"][t[1]]
        return (all_fields(case, ("c", c["base"])) if c["base"] is not None else []) + [(n, T(q)) for n, q in c["fields"]]
    if t[0] == "g": return [(n, subst(T(q), {"T": t[2][0], "U": t[2][1]})) for n, q in case["generics"][t[1]]]
    if t[0] == "ar": return [("type", ("ti",)), ("ptr", ("r", ("b", "void")))]
    if t[0] == "aa": return [("type", ("ti",)), ("ptr", ("r", ("b", "void"))), ("size", ("b", "int"))]
    return []
def derived(case, a, b):
    """class number a is b or derived from it"""
    while a is not None:
        if a == b: return True
        a = case["classes"][a]["base"]
    return False

HELP = """
int same(auto ref a, b){ return a == b; }
void walk(typeid t, int d){
 ts(t.name); ti(isFunction(t) + isClass(t) * 2 + isSimple(t) * 4 + isArray(t) * 8 + isPointer(t) * 16);
 if(d == 0) return;
 if(isClass(t)){ ti(t.memberCount()); for(i in t.members()){ ts(i.name); walk(i.type, d - 1); } for(int k = 0; k < t.memberCount(); k++){ ts(t.memberName(k)); ts(t.memberType(k).name); } }
 if(isArray(t)){ ti(t.arraySize()); walk(t.subType(), d - 1); }
 if(isPointer(t)) walk(t.subType(), d - 1);
 if(isFunction(t)){ walk(t.returnType(), d - 1); ti(t.argumentCount()); for(i in t.arguments()) walk(i, d - 1); for(int k = 0; k < t.argumentCount(); k++) ts(t.argumentType(k).name); }
}
void obj(auto ref v, int d){
 typeid t = typeid(v); ts(t.name); ti(isFunction(v) + isClass(v) * 2 + isSimple(v) * 4 + isArray(v) * 8 + isPointer(v) * 16);
 if(t == bool) ti(bool(v)); else if(t == char) ti(char(v)); else if(t == short) ti(short(v)); else if(t == int) ti(int(v)); else if(t == long) tl(long(v)); else if(t == float) td(float(v)); else if(t == double) td(double(v));
 else if(t == typeof(auto ref) || t == typeof(auto[])) ts("special");
 else if(isClass(t)){ int n = 0; for(i in t.members(v)){ ts(i.name); ts(i.type.name); if(d > 0) obj(i.value, d - 1); ti(i.value == typeGetMember(v, i.name)); ti(i.value == typeGetMember(v, n)); n++; } ti(typeGetMember(v, "nosuch") == nullptr); ti(typeGetMember(v, n) == nullptr); }
 else if(isPointer(t)){ auto ref x = pointerGetTarget(v); ts(typeid(x).name); ti(x == nullptr); if(d > 0 && x != nullptr) obj(x, d - 1); }
}
"""
def kind(t):
    k = t[0]
    return 1 if k == "f" else 2 if k in ("c", "g", "ar", "aa", "e") else 8 if k in "au" else 16 if k == "r" else 4
def walk(case, t, d, out):
    out.append("s" + nm(t)); out.append("i%d" % kind(t))
    if d == 0: return
    k = t[0]
    if kind(t) == 2:
        fs = all_fields(case, t); out.append("i%d" % len(fs))
        for n, q in fs: out.append("s" + n); walk(case, q, d - 1, out)
        for n, q in fs: out += ["s" + n, "s" + nm(q)]
    elif k in ("a", "u"): out.append("i%d" % (t[1] if k == "a" else -1)); walk(case, t[-1], d - 1, out)
    elif k == "r": walk(case, t[1], d - 1, out)
    elif k == "f":
        walk(case, t[1], d - 1, out); out.append("i%d" % len(t[2]))
        for q in t[2]: walk(case, q, d - 1, out)
        for q in t[2]: out.append("s" + nm(q))

import struct
def tr(t, v):
    if t[1] == "long": return "l%d" % v
    if t[1] in ("float", "double"): return "d%016x" % struct.unpack("<Q", struct.pack("<d", float(v)))[0]
    return "i%d" % v
def val(case, t, seed, path):
    """initial value of the basic members of a variable: {path: value}"""
    h = (seed * 31 + sum(ord(c) * (i + 7) for i, c in enumerate(path))) & 0xffff
    if t[1] == "bool": return h & 1
    if t[1] in ("float", "double"): return (h % 200 - 100) / 2.0
    return h % 100 - 30 if t[1] != "char" else h % 100
def assign(case, t, seed, path, out, vals):
    if t[0] == "b":
        v = val(case, t, seed, path); vals[path] = v
        out.append("%s = %s;" % (path, ("true" if v else "false") if t[1] == "bool" else v))
    elif t[0] in ("c", "g"):
        for n, q in all_fields(case, t): assign(case, q, seed, path + "." + n, out, vals)
    elif t[0] == "a" and t[2][0] == "b":
        for i in range(t[1]): assign(case, t[2], seed, "%s[%d]" % (path, i), out, vals)
    elif t[0] == "r" and t[1][0] == "b" and t[1][1] != "void":
        out.append("%s = new %s;" % (path, t[1][1])); v = val(case, t[1], seed, path); vals["*" + path] = v
        out.append("*%s = %s;" % (path, ("true" if v else "false") if t[1][1] == "bool" else v))
def odump(case, t, path, d, vals, out, isnull=False):
    out.append("s" + nm(t)); out.append("i%d" % kind(t))
    if t[0] == "b": out.append(tr(t, vals[path]))
    elif t[0] in ("ar", "aa"): out.append("sspecial")
    elif kind(t) == 2:
        for n, q in all_fields(case, t):
            out += ["s" + n, "s" + nm(q)]
            if d > 0: odump(case, q, path + "." + n, d - 1, vals, out)
            out += ["i1", "i1"]
        out += ["i1", "i1"]
    elif t[0] == "r":
        has = "*" + path in vals
        out += ["s" + nm(t[1]), "i%d" % (0 if has else 1)]
        if d > 0 and has: odump(case, t[1], "*" + path, d - 1, vals, out)

def dist(t, u): return nm(t) != nm(u)
def refused(case, t, u): return dist(t, u) and not (t[0] == "c" and u[0] == "c" and (derived(case, t[1], u[1]) or derived(case, u[1], t[1])))

def render(case):
    L, want = ["import vt; import std.typeinfo; import std.error;"], []
    for i, n in enumerate(case["enums"]): L.append("enum En%d { %s }" % (i, ", ".join("E%d_%d" % (i, j) for j in range(n))))
    for k, c in enumerate(case["classes"]):
        L.append("class C%d%s%s { %s%s%s }" % (k, " extendable" if c["ext"] else "", " : C%d" % c["base"] if c["base"] is not None else "", " ".join("%s %s;" % (dc(T(t)), n) for n, t in c["fields"]),
            " int meth%d(int q){ return q + %d; } int acc%d{ get { return 1; } set {} };" % (k, k, k) if c["meth"] else "", " const int cc%d = 5;" % k if c["consts"] else ""))
    for k, g in enumerate(case["generics"]): L.append("class G%d<T, U>{ %s }" % (k, " ".join("%s %s;" % (dc(T(t)), n) for n, t in g)))
    L.append(HELP)
    vals = {}
    vs = [(T(t), s) for t, s in case["vars"]]
    for i, (t, s) in enumerate(vs):
        L.append("%s v%d;" % (dc(t), i)); assign(case, t, s, "v%d" % i, L, vals)
    uid = 0
    for k, a, b, r, gt in case["ops"]:
        t, u, gt = vs[a][0], vs[b][0], T(gt); uid += 1
        plain = t[0] not in ("ar", "aa")
        if k == "walk":
            d = r % 3; form = r // 3 % 3; w = gt if form == 0 else t
            L.append("walk(%s, %d);" % (("typeof(%s)" % dc(w)) if form == 0 and w[0] != "c" else dc(w) if form == 0 else "typeof(v%d)" % a if form == 1 or not plain else "typeid(&v%d)" % a, d)); walk(case, w, d, want)
        elif k == "obj" and plain: L.append("obj(%sv%d, %d);" % ("&" if t[0] != "r" else "&", a, r % 3)); odump(case, t, "v%d" % a, r % 3, vals, want)
        elif k == "conv" and plain:
            to = t if r % 2 else (u if r % 4 == 0 else gt)
            if to[0] in ("ar", "aa"): continue
            ok = nm(to) == nm(t)
            if not ok and not refused(case, t, to): continue
            L.append("auto ref q%d = &v%d; ts(try(auto(){ %s ref p = q%d; ti(p == &v%d); return 1; }).message);" % (uid, a, dc(to), uid, a) if ok else "auto ref q%d = &v%d; ts(try(auto(){ %s ref p = q%d; ti(9); return 1; }).message);" % (uid, a, dc(to), uid))
            want += ["i1", "s"] if ok else ["sERROR: cannot convert from %s ref to %s ref" % (nm(t), nm(to))]
            if ok and t[0] == "b":
                L.append("%s z%d = %s(q%d); %s(z%d); %s ref y%d = q%d; *y%d = 1; %s(v%d); *y%d = z%d; ti(typeid(q%d) == %s); ti(typeid(q%d) != %s);" % (dc(t), uid, dc(t), uid, TF(t), uid, dc(t), uid, uid, uid, TF(t), a, uid, uid, uid, dc(t), uid, dc(t)))
                want += [tr(t, vals["v%d" % a]), tr(t, 1), "i1", "i0"]
        elif k == "arr" and t[0] == "a":
            i = r % t[1]; e = t[2]
            L.append("auto[] w%d = v%d; ti(w%d.size); ts(typeid(w%d[%d]).name); ti(same(w%d[%d], &v%d[%d])); ti(w%d.type == typeof(%s));" % (uid, a, uid, uid, i, uid, i, a, i, uid, dc(e)) if e[0] not in ("ar",) else "")
            if e[0] == "ar": continue
            want += ["i%d" % t[1], "s" + nm(e), "i1", "i1"]
            if e[0] == "b": L.append("%s(%s(w%d[%d]));" % (TF(e), dc(e), uid, i)); want.append(tr(e, vals["v%d[%d]" % (a, i)]))
            L.append("ts(try(auto(){ auto x = w%d[%d]; return 1; }).message);" % (uid, t[1] + r % 3)); want.append("sERROR: array index out of bounds")
            L.append("ts(try(auto(){ %s[] x = w%d; ti(x.size); ti(&x[%d] == &v%d[%d]); return 1; }).message);" % (dc(e), uid, i, a, i) if e[0] not in ("a", "u") else ""); 
            if e[0] not in ("a", "u"): want += ["i%d" % t[1], "i1", "s"]
            if gt[0] not in ("a", "u", "ar", "aa") and dist(gt, e):
                L.append("ts(try(auto(){ %s[] x = w%d; ti(9); return 1; }).message);" % (dc(gt), uid)); want.append("sERROR: cannot convert from 'auto[]' (actual type '%s[%d]') to '%s[]'" % (nm(e), t[1], nm(gt)))
        elif k == "make" and gt[0] not in ("f",):
            if gt[0] == "v" : continue
            L.append("typeid k%d = typeof(%s); auto ref n%d = %s; ts(typeid(n%d).name); ti(typeid(n%d) == k%d); ti(n%d == nullptr); ti(getType(k%d.name) == k%d);" % (uid, dc(gt), uid, "createInstanceByType(k%d)" % uid if r % 2 else "createInstanceByName(\"%s\")" % nm(gt), uid, uid, uid, uid, uid, uid))
            want += ["s" + nm(gt), "i1", "i0", "i1"]
            if gt[0] == "b": L.append("%s(%s(n%d));" % (TF(gt), dc(gt), uid)); want.append(tr(gt, 0))
        elif k == "makearr":
            if gt[0] in ("ar",): continue
            n = 1 + r % 5
            L.append("typeid k%d = typeof(%s); auto[] n%d = %s; ti(n%d.size); ts(typeid(n%d[%d]).name); ti(n%d.type == k%d);" % (uid, dc(gt), uid, "createArrayByType(k%d, %d)" % (uid, n) if r % 2 else "createArrayByName(\"%s\", %d)" % (nm(gt), n), uid, uid, n - 1, uid, uid))
            want += ["i%d" % n, "s" + nm(gt), "i1"]
        elif k == "static":
            L.append("ti(typeof(v%d).isReference + typeof(v%d).isArray * 2 + typeof(v%d).isFunction * 4);" % (a, a, a)); want.append("i%d" % ({"r": 1, "a": 2, "u": 2, "f": 4}.get(t[0], 0)))
            if t[0] in ("a", "u"): L.append("ti(typeof(v%d).arraySize); ti(typeof(v%d).target == typeof(%s));" % (a, a, dc(t[-1]))); want += ["i%d" % (t[1] if t[0] == "a" else -1), "i1"]
            if t[0] == "r": L.append("ti(typeof(v%d).target == typeof(%s));" % (a, dc(t[1]))); want.append("i1")
            if t[0] == "f":
                L.append("ti(typeof(v%d).argument.size); ti(typeof(v%d).return == typeof(%s));" % (a, a, dc(t[1])) ); want += ["i%d" % len(t[2]), "i1"]
                for j, q in enumerate(t[2]): L.append("ti(typeof(v%d).argument[%d] == typeof(%s));" % (a, j, dc(q))); want.append("i1")
                if t[2]: L.append("ti(typeof(v%d).argument.first == typeof(%s)); ti(typeof(v%d).argument.last == typeof(%s));" % (a, dc(t[2][0]), a, dc(t[2][-1]))); want += ["i1", "i1"]
            if t[0] in ("c", "g"):
                fs = all_fields(case, t); n, q = fs[r % len(fs)] if fs else ("nosuch", None)
                L.append("ti(typeof(v%d).hasMember(%s)); ti(typeof(v%d).hasMember(nosuch));" % (a, n, a)); want += ["i1" if q else "i0", "i0"]
                if q: L.append("ti(typeof(v%d.%s) == typeof(%s)); ti(typeof(v%d) == typeof(%s));" % (a, n, dc(q), a, dc(t))); want += ["i1", "i1"]
            if t[0] == "b": L.append("ti(sizeof(v%d)); ti(sizeof(%s));" % (a, dc(t))); want += ["i%d" % SIZE[t[1]]] * 2
            if t[0] == "a": L.append("ti(sizeof(v%d) >= %d * sizeof(%s)); ti(sizeof(v%d) < %d * sizeof(%s) + 8);" % (a, t[1], dc(t[2]), a, t[1], dc(t[2]))); want += ["i1", "i1"]
            L.append("ti(sizeof(v%d) == typeof(v%d).size);" % (a, a) if False else "")
        elif k == "func":
            cs = [i for i, c in enumerate(case["classes"]) if c["meth"] and not c["ext"]]
            if not cs: continue
            c = cs[r % len(cs)]
            L.append("C%d o%d, p%d; int ref(int) f%d = o%d.meth%d; ti(f%d(10)); ts(functionGetContextType(f%d).name); ts(typeid(functionGetContext(f%d)).name); ti(same(functionGetContext(f%d), &o%d)); functionSetContext(f%d, p%d); ti(same(functionGetContext(f%d), &p%d)); ti(f%d(20));" % (c, uid, uid, uid, uid, c, uid, uid, uid, uid, uid, uid, uid, uid, uid, uid))
            want += ["i%d" % (10 + c), "sC%d ref" % c, "sC%d" % c, "i1", "i1", "i%d" % (20 + c)]
            L.append("ts(try(auto(){ functionSetContext(f%d, 5); return 1; }).message.size > 1 ? \"refused\" : \"accepted\"); ts(try(auto(){ functionGetContext(v%d); return 1; }).message.size > 1 ? \"refused\" : \"accepted\");" % (uid, a) if t[0] not in ("f", "ar", "aa") else "")
            if t[0] not in ("f", "ar", "aa"): want += ["srefused", "srefused"]
        elif k == "wrong":
            w = gt; kd = kind(w); n = nm(w); calls = []
            if kd != 2: calls += [("memberCount()", "typeid::memberCount: type (%s) is not a class" % n), ("memberType(0)", "typeid::memberType: type (%s) is not a class" % n), ("memberName(0)", "typeid::memberName: type (%s) is not a class" % n)]
            else:
                m = len(all_fields(case, w)); calls += [("memberType(%d)" % m, "typeid::memberType: member number illegal, type (%s) has only %d members" % (n, m)), ("memberName(-1)", "typeid::memberName: member number illegal, type (%s) has only %d members" % (n, m))]
            if kd not in (8, 16): calls.append(("subType()", "typeid::subType received type (%s) that neither pointer nor array" % n))
            if kd != 8: calls.append(("arraySize()", "typeid::arraySize received type (%s) that is not an array" % n))
            if kd != 1: calls += [("returnType()", "typeid::returnType received type (%s) that is not a function" % n), ("argumentCount()", "typeid::argumentCount received type (%s) that is not a function" % n), ("argumentType(0)", "typeid::argumentType received type (%s) that is not a function" % n)]
            else: calls.append(("argumentType(%d)" % len(w[2]), "typeid::argumentType: argument number illegal, function (%s) has only %d argument(s)" % (n, len(w[2]))))
            c, e = calls[r % len(calls)]
            L.append("typeid k%d = typeof(%s); ts(try(auto(){ k%d.%s; return 1; }).message);" % (uid, dc(w), uid, c)); want.append("s" + e)
        elif k == "poly":
            ps = [(i, j) for i, c in enumerate(case["classes"]) for j in range(len(case["classes"])) if case["classes"][i]["ext"] and case["classes"][j]["ext"] and derived(case, i, j)]
            if not ps: continue
            i, j = ps[r % len(ps)]
            L.append("C%d ref b%d = new C%d; auto ref q%d = b%d; ts(typeid(q%d).name); ts(typeid(b%d).name); ti(typeid(*b%d) == C%d); ts(typeof(b%d).target == C%d ? \"static\" : \"no\"); obj(b%d, 0);" % (j, uid, i, uid, uid, uid, uid, uid, i, uid, j, uid))
            want += ["sC%d" % i, "sC%d" % i, "i1", "sstatic"]; odump(case, ("c", i), "?", 0, {}, want)
        elif k == "eq":
            L.append("ti(typeof(v%d) == typeof(v%d)); ti(typeof(v%d) != typeof(%s)); ti(typeof(%s) == typeof(v%d));" % (a, b, a, dc(gt), dc(gt), b)); want += ["i%d" % (nm(t) == nm(u)), "i%d" % dist(t, gt), "i%d" % (not dist(gt, u))]
        elif k == "member" and t[0] in ("c", "g"):
            fs = all_fields(case, t); cand = [(i, n, q) for i, (n, q) in enumerate(fs) if q[0] == "b"]
            if not cand: continue
            i, n, q = cand[r % len(cand)]; old = vals["v%d.%s" % (a, n)]
            L.append("auto ref m%d = typeGetMember(v%d, %s); ts(typeid(m%d).name); ti(same(m%d, &v%d.%s)); %s ref i%d = m%d; *i%d = 1; %s(v%d.%s);" % (uid, a, i if r % 2 else '"%s"' % n, uid, uid, a, n, dc(q), uid, uid, uid, TF(q), a, n))
            want += ["s" + nm(q), "i1", tr(q, 1)]; vals["v%d.%s" % (a, n)] = 1
        elif k == "switch" and plain:
            w = [u, gt, t][:2 + r % 2]
            L.append("auto ref q%d = &v%d; switch(typeid(q%d)){ %s default: ts(\"other\"); }" % (uid, a, uid, " ".join("case typeof(%s): ts(\"c%d\"); break;" % (dc(x), j) for j, x in enumerate(w))))
            hit = next((j for j, x in enumerate(w) if nm(x) == nm(t)), None); want.append("sother" if hit is None else "sc%d" % hit)
    L.append("return 1;")
    return "\n".join(L), want
def TF(t): return "tl" if t[1] == "long" else "td" if t[1] in ("float", "double") else "ti"

def run(case, ctx):
    return check(case, ctx, render, labels=sorted({o[0] for o in case["ops"]}), nontrivial=len(case["classes"]) >= 2 and len(case["ops"]) >= 6)
reduce = dropper()
