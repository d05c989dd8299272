"""Programs made of every kind of declaration that a module can export, each with uses that later items make of it."""

import re
INT = ["0", "1", "-1", "7", "100", "-128", "127"]
def lit(src, t):
    if t == "bool": return src.pick(["true", "false"])
    if t == "char": return src.pick(["'a'", "'\\n'", "-5", "127", "0"])
    if t == "short": return src.pick(["-32768", "32767", "300", "-1"])
    if t == "int": return src.pick(["2147483647", "-2147483647", "123456", "-7", "0"])
    if t == "long": return src.pick(["9223372036854775807l", "-5000000000l", "1l", "4294967296l", "-1l"])
    if t == "float": return src.pick(["0.5", "-1.25", "3.0", "0.1", "100000.5"])
    return src.pick(["0.1", "-0.25", "12345.678", "1e15", "3.0", "1.0000001", "0.0"])
NUM = ["bool", "char", "short", "int", "long", "float", "double"]

def program(src):
    """list of top-level items; values go to globals g0, g1, ..."""
    items = []; uses = []; ng = [0]
    def g(t, e): ng[0] += 1; return "%s g%d = %s;" % (t, ng[0], e)
    def num(t): return "double" if t in ("float", "double") else "long" if t == "long" else "int"
    kinds = ["const", "const", "enum", "default", "generic", "gclass", "namespace", "typedef", "operator", "accessor", "variadic", "global", "virtual", "fnptr", "static if", "coroutine", "nested", "overload", "overload", "ctor", "final", "arrays", "autoret", "explicit", "alias", "extend"]
    cls = []; consts = []; enums = []; tdefs = []; ovl = 0
    for i in range(src.rng(4, 9)):
        k = src.pick(kinds); n = i
        if k == "const":
            ts = [src.pick(NUM) for _ in range(src.rng(1, 4))]
            items.append("class K%d{ %s%s}" % (n, "int q; " if src.p(50) else "", "".join("const %s k%d = %s; " % (t, j, lit(src, t)) for j, t in enumerate(ts))))
            consts.append((n, ts))
            for j, t in enumerate(ts): uses.append(lambda t=t, j=j, n=n: src.pick([g(num(t), "K%d.k%d" % (n, j)), g("int", "K%d.k%d == %s" % (n, j, lit(src, t))), "K%d v%d_%d; " % (n, n, ng[0]) + g(num(t), "v%d_%d.k%d" % (n, ng[0], j))]))
        elif k == "enum":
            m = src.rng(2, 4); vals = [src.w([(6, ""), (2, " = " + src.pick(["5", "-3", "100", "1 << 4"]))]) for _ in range(m)]
            items.append("enum E%d{ %s }" % (n, ", ".join("V%d%s" % (j, v) for j, v in enumerate(vals)))); enums.append((n, m))
            uses.append(lambda n=n, m=m: src.pick([g("int", "int(E%d.V%d)" % (n, src.i(m))), "E%d e%d_%d = E%d.V%d; " % (n, n, ng[0], n, src.i(m)) + g("int", "int(e%d_%d)" % (n, ng[0])), g("int", "E%d.V%d == E%d.V%d" % (n, src.i(m), n, src.i(m)))]))
        elif k == "default":
            t = src.pick(["int", "long", "double"]); d1 = lit(src, t); d2 = src.pick(["3", "-1", "g_d%d" % n, "f_d%d()" % n]); pre = ""
            if d2.startswith("g"): pre = "int g_d%d = 11; " % n
            if d2.startswith("f"): pre = "int f_d%d(){ return 13; } " % n
            items.append(pre + "%s f%d(%s a = %s, int b = %s, char[] c = \"%s\"){ return a + b * 2 + c.size; }" % (t, n, t, d1, d2, src.pick(["", "xyz", "a\\n", "q\\\"w"])))
            uses.append(lambda t=t, n=n: g(t, "f%d(%s)" % (n, src.pick(["", "2", "2, 3", "2, 3, \"zz\"", "b: 5", "c: \"four\"", "b: 1, a: 4"]))))
        elif k == "generic":
            items.append(src.pick(["auto f%d(generic x, int y){ return x + y; }", "auto f%d(@T x, int y){ T r = x; for(int i = 0; i < y; i++) r += x; return r; }", "auto f%d(@T x, int y){ T[] a = { x, x, x }; a[1] += y; return a[1]; }", "auto f%d(generic x, int y){ auto h(){ return x * y; } return h(); }"]) % n)
            uses.append(lambda n=n: src.pick([g("int", "f%d(4, 5)" % n), g("long", "f%d(4l, 2)" % n), g("double", "f%d(1.5, 3)" % n)]))
        elif k == "gclass":
            items.append("class G%d<T>{ T a; int b; typedef T item; } void G%d:G%d(T x){ a = x; b = %s; } %s" % (n, n, n, src.pick(["3", "sizeof(T)"]), src.pick(["auto G%d:get(){ return a + b; }" % n, "auto G%d:get(){ T r = a; r += b; return r; }" % n])))
            uses.append(lambda n=n: src.pick([g("int", "G%d<int>(7).get()" % n), g("double", "G%d<double>(0.5).get()" % n), "G%d<%s> v%d_%d = G%d<%s>(9); " % (n, "long", n, ng[0], n, "long") + g("long", "v%d_%d.get() + v%d_%d.b" % (n, ng[0], n, ng[0]))]))
        elif k == "namespace":
            items.append("namespace N%d{ int x = %d; int f(int a){ return a * x; } class C{ int a; const double d = %s; } int C:m(){ return a + x; } namespace I{ int f(int a){ return a - x; } } }" % (n, src.rng(1, 9), lit(src, "double")))
            uses.append(lambda n=n: src.pick([g("int", "N%d.f(3)" % n), g("int", "N%d.I.f(3)" % n), g("int", "N%d.x" % n), "N%d.C v%d_%d; v%d_%d.a = 4; " % (n, n, ng[0], n, ng[0]) + g("int", "v%d_%d.m()" % (n, ng[0])), g("double", "N%d.C.d" % n), "N%d.x = 20;" % n]))
        elif k == "typedef":
            t = src.pick(["int", "long[2]", "double ref", "int ref(int)", "char[]", "int[2][3]"])
            items.append("typedef %s T%d;" % (t, n)); uses.append(lambda n=n: g("int", "sizeof(T%d)" % n)); uses.append(lambda n=n: "T%d v%d_%d;" % (n, n, ng[0]) + g("int", "sizeof(v%d_%d)" % (n, ng[0])))
        elif k == "operator":
            op = src.pick(["+", "-", "*", "%", "<<", "==", "<", "in"])
            rt = "int" if op in ("==", "<", "&&", "in") else "O%d" % n
            items.append("class O%d{ int x, y; } O%d o%d(int x, y){ O%d r; r.x = x; r.y = y; return r; } %s operator %s(O%d a, b){ %s }" % (n, n, n, n, rt, op, n, "return a.x * 10 + b.y;" if rt == "int" else "return o%d(a.x + b.y, a.y - b.x);" % n))
            uses.append(lambda n=n, op=op, rt=rt: g("int", "o%d(1, 2) %s o%d(3, 4)" % (n, op, n) if rt == "int" else "(o%d(1, 2) %s o%d(3, 4)).%s" % (n, op, n, src.pick("xy"))))
        elif k == "accessor":
            items.append("class P%d{ int v; int dbl{ get{ return v * 2; } set(x){ v = x; return x / 2; } }; }" % n if src.p(60) else "class P%d{ int v; } int P%d.dbl(){ return v * 2; } void P%d.dbl(int x){ v = x; }" % (n, n, n))
            uses.append(lambda n=n: "P%d v%d_%d; v%d_%d.dbl = 5; " % (n, n, ng[0], n, ng[0]) + g("int", "v%d_%d.dbl + v%d_%d.v" % (n, ng[0], n, ng[0])))
        elif k == "variadic":
            items.append("int f%d(int a, auto ref[] b){ int r = a; for(i in b) r = r * 3 + (i.type == int ? int(i) : 1); return r; }" % n)
            uses.append(lambda n=n: g("int", "f%d(%s)" % (n, src.pick(["1", "1, 2", "1, 2, 3.5", "1, \"s\", 4, 5"]))))
        elif k == "global":
            t, v, e = src.pick([("int[4]", "{ 1, 2, 3, 4 }", "[2]"), ("double", "0.75", ""), ("long", "-9000000000l", ""), ("char[]", "\"text\"", "[1]"), ("int[]", "{ 5, 6, 7 }", "[2]"), ("auto", "auto(int x){ return x * 3; }", "(5)"), ("int[3][2]", "{ { 1, 2 }, { 3, 4 }, { 5, 6 } }", "[1][0]")])
            items.append("%s w%d = %s;" % (t, n, v)); uses.append(lambda n=n, e=e: g("double", "w%d%s" % (n, e)))
        elif k == "virtual":
            items.append("class B%d extendable{ int x; } int B%d:f(int a){ return a + x; } %sclass D%d : B%d{ int y; } int D%d:f(int a){ return a * 2 + y; }" % (n, n, src.pick(["", "int call%d_(B%d ref b){ return b.f(1); } " % (n, n)]), n, n, n)); cls.append(n)
            uses.append(lambda n=n: "D%d v%d_%d; v%d_%d.y = 5; B%d ref p%d_%d = &v%d_%d; " % (n, n, ng[0], n, ng[0], n, n, ng[0], n, ng[0]) + g("int", "p%d_%d.f(3)" % (n, ng[0])))
            uses.append(lambda n=n: "B%d v%d_%d; v%d_%d.x = 4; auto ref p%d_%d = &v%d_%d; " % (n, n, ng[0], n, ng[0], n, ng[0], n, ng[0]) + g("int", "p%d_%d.f(3)" % (n, ng[0])))
        elif k == "extend" and cls:
            b = src.pick(cls)
            items.append("class X%d : %s{ int z; } int X%d:f(int a){ return a * 100 + z + x; }" % (n, src.pick(["B%d", "D%d"]) % b, n))
            uses.append(lambda n=n, b=b: "X%d v%d_%d; v%d_%d.z = 6; B%d ref p%d_%d = &v%d_%d; " % (n, n, ng[0], n, ng[0], b, n, ng[0], n, ng[0]) + g("int", "p%d_%d.f(3)" % (n, ng[0])))
        elif k == "fnptr":
            items.append("int f%d(int a){ return a * %d + 1; } int ref(int) h%d = f%d; int k%d(int ref(int) q, int a){ return q(q(a)); }" % (n, src.rng(2, 9), n, n, n))
            uses.append(lambda n=n: g("int", src.pick(["k%d(f%d, 3)" % (n, n), "k%d(h%d, 2)" % (n, n), "k%d(<x>{ x + 4; }, 2)" % n, "h%d(9)" % n])))
        elif k == "static if" and consts:
            m, ts = src.pick(consts); j = src.i(len(ts))
            items.append("@if(K%d.k%d == %s){ int s%d(){ return 1; } }else{ int s%d(){ return 2; } }" % (m, j, lit(src, ts[j]), n, n)); uses.append(lambda n=n: g("int", "s%d()" % n))
        elif k == "coroutine":
            items.append("coroutine int c%d(int a){ int i = 0; while(1){ i += a; yield i; } return 0; }" % n); uses.append(lambda n=n: g("int", "c%d(%d)" % (n, src.rng(1, 5))))
        elif k == "nested":
            items.append("class A%d{ int a; short b; char c; double d; int[3] e; int ref f; typedef double real; } class M%d{ A%d x; A%d[2] y; A%d ref z; A%d[] w; }" % (n, n, n, n, n, n))
            uses.append(lambda n=n: "M%d v%d_%d; v%d_%d.y[1].e[2] = 8; v%d_%d.x.d = 2.5; v%d_%d.z = &v%d_%d.x; " % ((n,) + (n, ng[0]) * 5) + g("double", "v%d_%d.y[1].e[2] + v%d_%d.z.d + sizeof(M%d)" % (n, ng[0], n, ng[0], n)))
        elif k == "overload":
            ts = ["int", "long", "double", "char[]", "int[]", "auto ref", "int ref", "int ref(int)"]
            if ovl < len(ts): items.append("int ov(%s x){ return %d; }" % (ts[ovl], ovl + 1)); ovl += 1; uses.append(lambda: g("int", "ov(%s)" % src.pick(["1", "2l", "1.5", "\"s\"", "{ 1, 2 }", "new int(4)", "'a'", "true", "2", "3l"][:max(1, min(5, ovl))] if src.p(80) else ["1", "'a'", "true"])))
        elif k == "ctor":
            items.append("class R%d{ int a; double b; } void R%d:R%d(){ a = 3; b = 0.5; } void R%d:R%d(int x){ a = x; b = x * 0.25; }%s" % (n, n, n, n, n, " void R%d:finalize(){ }" % n if src.p(30) else ""))
            uses.append(lambda n=n: src.pick([g("double", "R%d().b" % n), g("double", "R%d(6).b" % n), "R%d v%d_%d; " % (n, n, ng[0]) + g("int", "v%d_%d.a" % (n, ng[0])), "R%d ref v%d_%d = new R%d(5); " % (n, n, ng[0], n) + g("int", "v%d_%d.a" % (n, ng[0]))]))
        elif k == "arrays":
            items.append("int f%d(int[] a){ int s = 0; for(i in a) s = s * 2 + i; return s; } int[] l%d = { for(int i = 0; i < 4; i++) yield i * i; };" % (n, n)); uses.append(lambda n=n: g("int", src.pick(["f%d({ 1, 2, 3 })" % n, "f%d(l%d)" % (n, n), "f%d({ for(i in l%d) yield i + 1; })" % (n, n)])))
        elif k == "autoret":
            items.append("auto f%d(int a){ class L%d{ int x, y; } L%d r; r.x = a; r.y = a * 2; return r; }" % (n, n, n)); uses.append(lambda n=n: g("int", "f%d(%d).y" % (n, src.rng(1, 9))))
        elif k == "explicit":
            items.append("int f%d(explicit long x){ return 1; } int f%d(explicit double x){ return 2; }" % (n, n)); uses.append(lambda n=n: g("int", "f%d(%s)" % (n, src.pick(["1l", "1.5"]))))
        elif k == "alias" and enums:
            m, c = src.pick(enums)
            items.append("int f%d(E%d e){ switch(e){ case E%d.V0: return 10; case E%d.V1: return 20; default: return 30; } return 0; }" % (n, m, m, m)); uses.append(lambda n=n, m=m, c=c: g("int", "f%d(E%d.V%d)" % (n, m, src.i(c))))
        elif k == "final":
            items.append("int f%d(int a){ int ref p = new int(a); return *p + %s; }" % (n, src.pick(["1", "g_f%d" % n])) if False else "int g_f%d = %d; int f%d(int a){ g_f%d++; return a + g_f%d; }" % (n, src.rng(1, 9), n, n, n)); uses.append(lambda n=n: g("int", "f%d(2)" % n))
        if uses and src.p(45): items.append(src.pick(uses)())
    if not uses: return None
    for u in uses: items.append(u())
    for _ in range(src.i(4)): items.append(src.pick(uses)())
    if src.p(50): items.append("return %s;" % src.pick(re.findall(r"\b(g\d+) = ", "\n".join(items)) or ["1"]))
    return items
