"""C12: containers behave as the abstract sequences and maps they name (operation sequences against a Python model)."""
import struct
import scripts
from scripts import Ctx, setup, Bad, TWO
from engine import Outcome

ID = "C12"
RULE = "at least eight operations of which three change a container, and at least one lookup, iteration or error is observed after a change"
ASSUMPTIONS = ["the contents of elements that resize adds are the zero value of the element type", "list nodes are only used while they are in the list they were taken from, except where the use must be reported as an error",
               "callbacks do not change the container that calls them"]
N = {"quick": 3000, "thorough": 60000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2000}

HEAD = """import std.vector;
import std.list;
import std.hashmap;
import std.error;
import vt;
class P{ int a; int b; }
P mk(int a, b){ P r; r.a = a; r.b = b; return r; }
bool operator==(P ref x, y){ return x.a == y.a && x.b == y.b; }
bool operator<(P ref x, y){ return x.a < y.a || (x.a == y.a && x.b < y.b); }
bool operator>(P ref x, y){ return y < x; }
int hash_value(P x){ return x.a * 31 + x.b; }
int hash_value(int x){ return x; }
int hash_value(long x){ return int(x ^ (x >> 32)); }
int hash_value(double x){ return int(x * 8); }
void sh(int x){ ti(x); }
void sh(long x){ tl(x); }
void sh(double x){ td(x); }
void sh(P x){ ti(x.a); ti(x.b); }
int w(int x){ return x; }
int w(long x){ return int(x); }
int w(double x){ return int(x * 2); }
int w(P x){ return x.a - x.b; }
void er(try_result<int> r){ if(r) ti(r.value); else ts(r.message ? "error" : "no message"); }
int narr(int x){ return x; }
"""
KINDS = ["int", "int", "long", "double", "P"]
def lit(k, v):
    if k == "int": return str(v) if v >= 0 else "(%d)" % v
    if k == "long": return "%dl" % v if v >= 0 else "(%dl)" % v
    if k == "double": return "%.1f" % (v / 2) if v >= 0 else "(%.1f)" % (v / 2)
    return "mk(%d, %d)" % (v // 4, v % 4)
def sh(k, v):
    if k == "int": return ["i%d" % v]
    if k == "long": return ["l%d" % v]
    if k == "double": return ["d%s" % dbl(v / 2)]
    return ["i%d" % (v // 4), "i%d" % (v % 4)]
def dbl(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
def wt(k, v): return v // 4 - v % 4 if k == "P" else v
# every element is the integer v; kinds map it to a value with the same order and equality

STR = ["a", "ab", "abc", "b", "", "key", "Key", "kez", "ba", "aab", "zzzzzzzz"]

VOPS = ["push", "push", "push", "push", "pop", "back", "front", "get", "get", "set", "size", "reserve", "resize", "clear", "destroy", "sum", "min", "max", "minf", "maxf", "countif", "all", "any", "sort", "in", "pushm", "fill", "foldl", "foldr", "map",
        "filter", "each", "eachset", "slice", "assign", "sortd", "swapalias", "avg", "gen"]
LOPS = ["pushb", "pushb", "pushb", "pushf", "pushf", "popb", "popf", "insert", "insert", "erase", "erase", "clear", "back", "front", "empty", "find", "each", "rev", "eachset", "sum", "in", "countif", "all", "any", "setval", "min", "max", "eraseother", "begin", "erasetwice", "minf", "maxf", "avg"]
MOPS = ["put", "put", "put", "put", "put", "get", "get", "find", "find", "find", "remove", "remove", "clear", "inc", "ref", "findset", "each"]

def gen(src, ctx):
    conts = []
    for i in range(src.rng(1, 3)):
        t = src.w([(4, "v"), (4, "l"), (4, "m")])
        if t == "m": conts.append([t, src.pick(["int", "P", "str", "long", "double", "str"]), src.pick(["int", "P", "double"]), src.i(4)])
        else: conts.append([t, src.pick(KINDS)])
    small = src.p(60); ops = []
    hi = src.pick([5, 12, 40])
    for _ in range(src.rng(4, src.pick([14, 30, 60]))):
        c = src.i(len(conts)); t = conts[c][0]
        name = src.pick({"v": VOPS, "l": LOPS, "m": MOPS}[t])
        ops.append([c, name, src.i(hi), src.i(hi), src.i(13), src.i(4)])
    return {"conts": conts, "ops": ops, "cfgs": [list(src.pick(scripts.ALL))] if src.p(70) else [list(x) for x in TWO]}

reduce = scripts.dropper()

def render(case):
    code = [HEAD]; out = []; M = []; nodes = {}
    for i, c in enumerate(case["conts"]):
        if c[0] == "v": code.append("vector<%s> c%d;" % (c[1], i)); M.append([])
        elif c[0] == "l": code.append("list<%s> c%d;" % (c[1], i)); M.append([])
        else:
            k = {"str": "char[]"}.get(c[1], c[1])
            h = ["", "auto(%s x){ return 0; }" % k, "auto(%s x){ return hash_value(x) & 3; }" % k, "auto(%s x){ return hash_value(x) * 1024 + 7; }" % k][c[3]]
            code.append("hashmap<%s, %s> c%d%s;" % (k, c[2], i, " = hashmap<%s, %s>(%s)" % (k, c[2], h) if h else "")); M.append({})
    n = 0
    def err(stmts, ok, vals):
        """an operation that may be an error: `stmts` has to set r"""
        code.append("er(try(auto(){ int r = 0; %s return r; }));" % stmts)
        if ok: out.extend(vals)
        else: out.append('serror')
    def I(v): out.append("i%d" % v)
    changed = 0; seen = 0
    for n, (c, name, a, b, s, q) in enumerate(case["ops"]):
        t = case["conts"][c][0]; V = "c%d" % c
        if t in "vl":
            k = case["conts"][c][1]; L = M[c]; x = lit(k, a); y = lit(k, b)
        # ---------------------------------------------------------------- vector
        if t == "v":
            if name == "push": code.append("%s.push_back(%s);" % (V, x)); L.append(a)
            elif name == "pop":
                err("%s.pop_back();" % V, bool(L), ["i0"])
                if L: L.pop()
            elif name in ("back", "front"): err("sh(*%s.%s());" % (V, name), bool(L), sh(k, L[-1 if name == "back" else 0]) + ["i0"] if L else [])
            elif name == "get":
                i = a % (len(L) + 2) - (1 if s == 0 else 0)
                err("sh(%s[%s]);" % (V, lit("int", i)), 0 <= i < len(L), sh(k, L[i]) + ["i0"] if 0 <= i < len(L) else [])
            elif name == "set":
                i = b % (len(L) + 2) - (1 if s == 0 else 0)
                err("%s[%s] = %s;" % (V, lit("int", i), x), 0 <= i < len(L), ["i0"])
                if 0 <= i < len(L): L[i] = a
            elif name == "size": code.append("ti(%s.size()); ti(%s.capacity() >= %s.size());" % (V, V, V)); I(len(L)); I(1)
            elif name == "reserve": err("%s.reserve(%s);" % (V, lit("int", a - 1)), a >= 1, ["i0"])
            elif name == "resize":
                err("%s.resize(%s);" % (V, lit("int", a - 1)), a >= 1, ["i0"])
                if a >= 1: M[c] = L = (L + [0] * a)[:a - 1]
            elif name in ("clear", "destroy"): code.append("%s.%s();" % (V, name)); L.clear()
            elif name == "sum": code.append("ti(%s.sum(auto(%s x){ return w(x) + %d; }));" % (V, k, s)); I(sum(wt(k, v) + s for v in L))
            elif name == "avg":
                if not L: continue
                code.append("ti(%s.average(auto(%s x){ return w(x) + %d; }));" % (V, k, s)); z = sum(wt(k, v) + s for v in L); I(int(z / len(L)))
            elif name in ("min", "max"):
                err("sh(%s.%s_element());" % (V, name), bool(L), sh(k, (min if name == "min" else max)(L)) + ["i0"] if L else [])
            elif name in ("minf", "maxf"):
                err("ti(%s.%s_element(auto(%s x){ return w(x) * %d; }));" % (V, name[:3], k, q - 1), bool(L), ["i%d" % (min if name == "minf" else max)(wt(k, v) * (q - 1) for v in L), "i0"] if L else [])
            elif name == "countif": code.append("ti(%s.count_if(auto(%s x){ return x < %s; }));" % (V, k, y)); I(sum(v < b for v in L))
            elif name == "all":
                if not L: continue
                code.append("ti(%s.all(auto(%s x){ return x < %s; }) != 0);" % (V, k, y)); I(all(v < b for v in L))
            elif name == "any": code.append("ti(%s.any(auto(%s x){ return x == %s; }) != 0);" % (V, k, y)); I(b in L)
            elif name == "sort":
                if not L: continue
                code.append("%s.sort(auto(%s x, y){ return x < y; });" % (V, k)); L.sort()
            elif name == "sortd":
                if not L: continue
                code.append("%s.sort(auto(%s x, y){ return x > y; });" % (V, k)); L.sort(reverse=True)
            elif name == "in": code.append("ti(%s in %s);" % (y, V)); I(b in L)
            elif name in ("pushm", "fill", "assign"):
                arr = [(a + i * (b + 1)) % 17 for i in range(1 + s % 5)]
                code.append((("%s.push_back_mult({%s});" if name == "pushm" else "%s.fill({%s});" if name == "fill" else "%s = {%s};") % (V, ", ".join(lit(k, v) for v in arr))))
                if name != "pushm": L.clear()
                L.extend(arr)
            elif name == "gen":
                code.append("%s.%s(coroutine auto(){ %s z; for(int i = 0; i < %d; i++) yield %s; return z; });" % (V, "push_back_mult" if q else "fill", k, s % 4, x))
                if not q: L.clear()
                L.extend([a] * (s % 4))
            elif name in ("foldl", "foldr"):
                f = "auto(%s x, y){ return %s; }" % (k, "mk(w(x) + 2 * w(y), 0)" if k == "P" else "x + %s * y" % lit(k, 3 if k != "double" else 6))
                def F(p, r): return (p[0] + 2 * r[0], 0) if k == "P" else p + 3 * r
                if L:
                    if k == "P":
                        W = [(v // 4, v % 4) for v in L]
                        def F(p, r): return (p[0] - p[1] + 2 * (r[0] - r[1]), 0)
                    else: W = L[:]
                    if name == "foldr": W.reverse()
                    z = W[0]
                    for r in W[1:]: z = F(z, r)
                    if k != "P" and abs(z) > 2**31 - 1: raise Bad
                    if k == "P" and abs(z[0]) > 2**30: raise Bad
                    vals = (["i%d" % z[0], "i%d" % z[1]] if k == "P" else sh(k, z)) + ["i0"]
                else: vals = []
                err("sh(%s.%s(%s));" % (V, name, f), bool(L), vals)
            elif name == "map": code.append("{ auto t = %s.map(auto(%s x){ return w(x) * 3 - %d; }); ti(t.size()); for(i in t) ti(i); }" % (V, k, s)); I(len(L)); [I(wt(k, v) * 3 - s) for v in L]
            elif name == "filter":
                code.append("{ auto t = %s.filter(auto(%s x){ return x < %s; }); ti(t.size()); for(i in t) sh(i); }" % (V, k, y)); W = [v for v in L if v < b]; I(len(W))
                for v in W: out.extend(sh(k, v))
            elif name == "each":
                code.append("for(i in %s) sh(i);" % V)
                for v in L: out.extend(sh(k, v))
            elif name == "eachset": code.append("for(i in %s) if(i == %s) i = %s;" % (V, y, x)); L[:] = [a if v == b else v for v in L]
            elif name == "slice":
                i, j = a % (len(L) + 1), b % (len(L) + 2)
                # the end is inclusive, positions outside of the vector are errors
                ok = i < len(L) and j >= i and j < len(L) + 0
                if j >= len(L) and i < len(L): continue    # an end past the vector is not specified
                z = s % 6
                ok2 = ok and i + z <= j
                err("auto t = %s[%d, %d]; sh(t[%d]);" % (V, i, j, z), ok2, sh(k, L[i + z]) + ["i0"] if ok2 else [])
            elif name == "swapalias":
                # a copy of the object shares elements until one of them grows: only sizes are separate
                code.append("{ vector<%s> t = %s; t.clear(); ti(t.size()); ti(%s.size()); }" % (k, V, V)); I(0); I(len(L))
            changed += name in ("push", "pop", "set", "resize", "pushm", "fill", "sort", "sortd", "eachset", "assign"); seen += name in ("get", "each", "back", "front", "size", "foldl", "filter", "map", "in", "sum")
        # ---------------------------------------------------------------- list
        elif t == "l":
            if name in ("pushb", "pushf"):
                code.append("%s.push_%s(%s);" % (V, "back" if name == "pushb" else "front", x))
                if name == "pushb": L.append(a)
                else: L.insert(0, a)
            elif name in ("popb", "popf"):
                err("%s.pop_%s();" % (V, "back" if name == "popb" else "front"), bool(L), ["i0"])
                if L: L.pop(-1 if name == "popb" else 0)
            elif name == "insert":
                if b in L:
                    code.append("%s.insert(%s.find(%s), %s);" % (V, V, y, x)); L.insert(L.index(b) + 1, a)
                else: err("%s.insert(%s.find(%s), %s);" % (V, V, y, x), False, [])
            elif name == "erase":
                err("%s.erase(%s.find(%s));" % (V, V, y), b in L, ["i0"])
                if b in L: L.remove(b)
            elif name == "erasetwice":
                if b not in L: continue
                code.append("{ auto t = %s.find(%s); %s.erase(t); er(try(auto(){ %s.erase(t); return 1; })); }" % (V, y, V, V)); L.remove(b); out.append("serror")
            elif name == "eraseother":
                o = next((j for j, cc in enumerate(case["conts"]) if j != c and cc == case["conts"][c]), None)
                if o is None or not M[o]: continue
                err("%s.%s;" % (V, "erase(c%d.begin())" % o if q & 1 else "insert(c%d.begin(), %s)" % (o, x)), False, [])
            elif name == "clear": code.append("%s.clear();" % V); L.clear()
            elif name in ("back", "front"): err("sh(*%s.%s());" % (V, name), bool(L), sh(k, L[-1 if name == "back" else 0]) + ["i0"] if L else [])
            elif name == "empty": code.append("ti(%s.empty());" % V); I(not L)
            elif name == "find":
                code.append("if(auto t = %s.find(%s)) sh(t.value); else ti(-1);" % (V, y)); out.extend(sh(k, b) if b in L else ["i-1"])
            elif name == "each":
                code.append("for(i in %s) sh(i);" % V)
                for v in L: out.extend(sh(k, v))
            elif name == "rev":
                code.append("{ auto t = %s.end(); while(t){ sh(t.value); t = t.prev; } }" % V)
                for v in L[::-1]: out.extend(sh(k, v))
            elif name == "begin":
                code.append("{ auto t = %s.begin(); while(t){ sh(t.value); t = t.next; } }" % V)
                for v in L: out.extend(sh(k, v))
            elif name == "eachset": code.append("for(i in %s) if(i == %s) i = %s;" % (V, y, x)); L[:] = [a if v == b else v for v in L]
            elif name == "setval":
                if b not in L: continue
                code.append("%s.find(%s).value = %s;" % (V, y, x)); L[L.index(b)] = a
            elif name == "sum": code.append("ti(%s.sum(auto(%s x){ return w(x) + %d; }));" % (V, k, s)); I(sum(wt(k, v) + s for v in L))
            elif name == "avg":
                if not L: continue
                code.append("ti(%s.average(auto(%s x){ return w(x) + %d; }));" % (V, k, s)); z = sum(wt(k, v) + s for v in L); I(int(z / len(L)))
            elif name in ("min", "max"): err("sh(%s.%s_element());" % (V, name), bool(L), sh(k, (min if name == "min" else max)(L)) + ["i0"] if L else [])
            elif name in ("minf", "maxf"):
                err("ti(%s.%s_element(auto(%s x){ return w(x) * %d; }));" % (V, name[:3], k, q - 1), bool(L), ["i%d" % (min if name == "minf" else max)(wt(k, v) * (q - 1) for v in L), "i0"] if L else [])
            elif name == "in": code.append("ti(%s in %s);" % (y, V)); I(b in L)
            elif name == "countif": code.append("ti(%s.count_if(auto(%s x){ return x < %s; }));" % (V, k, y)); I(sum(v < b for v in L))
            elif name == "all":
                if not L: continue
                code.append("ti(%s.all(auto(%s x){ return x < %s; }) != 0);" % (V, k, y)); I(all(v < b for v in L))
            elif name == "any": code.append("ti(%s.any(auto(%s x){ return x == %s; }) != 0);" % (V, k, y)); I(b in L)
            changed += name in ("pushb", "pushf", "popb", "popf", "insert", "erase", "setval"); seen += name in ("each", "rev", "begin", "back", "front", "find", "empty", "sum", "in")
        # ---------------------------------------------------------------- hash map
        else:
            D = M[c]; kk, vk = case["conts"][c][1:3]
            K = STR[a % len(STR)] if kk == "str" else a
            key = '"%s"' % K if kk == "str" else lit(kk, a); val = lit(vk, b)
            if name == "put": code.append("%s[%s] = %s;" % (V, key, val)); D[K] = b
            elif name == "get": code.append("sh(%s[%s]);" % (V, key)); D.setdefault(K, 0); out.extend(sh(vk, D[K]))
            elif name == "find":
                code.append("if(auto t = %s.find(%s)) sh(*t); else ti(-1);" % (V, key)); out.extend(sh(vk, D[K]) if K in D else ["i-1"])
            elif name == "findset":
                if K not in D: continue
                code.append("*%s.find(%s) = %s;" % (V, key, val)); D[K] = b
            elif name == "remove":
                err("%s.remove(%s);" % (V, key), K in D, ["i0"]); D.pop(K, None)
            elif name == "clear": code.append("%s.clear();" % V); D.clear()
            elif name == "inc":
                if vk == "P": continue
                D.setdefault(K, 0); code.append("%s[%s] += %s; sh(%s[%s]);" % (V, key, val, V, key)); D[K] += b; out.extend(sh(vk, D[K]))
            elif name == "ref":
                # a key that changes after it was used
                if kk == "str":
                    code.append("{ char[] t = duplicate(\"%s\"); %s[t] = %s; if(t.size > 1) t[0] = '!'; }" % (K, V, val)); D[K] = b
                elif kk == "P": code.append("{ P t = %s; %s[t] = %s; t.a = 1000; }" % (key, V, val)); D[K] = b
                else: continue
            elif name == "each":
                for z in sorted(set(STR[:6] if kk == "str" else range(6))):
                    code.append("if(auto t = %s.find(%s)) sh(*t); else ti(-1);" % (V, '"%s"' % z if kk == "str" else lit(kk, z))); out.extend(sh(vk, D[z]) if z in D else ["i-1"])
            changed += name in ("put", "remove", "inc", "findset", "ref"); seen += name in ("get", "find", "each")
    # everything once more at the end
    for i, c in enumerate(case["conts"]):
        if c[0] == "m":
            for K in sorted(M[i]):
                code.append("if(auto t = c%d.find(%s)) sh(*t); else ti(-1);" % (i, '"%s"' % K if c[1] == "str" else lit(c[1], K))); out.extend(sh(c[2], M[i][K]))
        else:
            code.append("for(i in c%d) sh(i);" % i)
            for v in M[i]: out.extend(sh(c[1], v))
    code.append("return 1;")
    case_stats[0] = (changed, seen, len(case["ops"]))
    return "\n".join(code) + "\n", out
case_stats = [None]

def run(case, ctx):
    o = scripts.check(case, ctx, render, labels=sorted(set(c[0] + ":" + "/".join(map(str, c[1:3])) for c in case["conts"])))
    if o.key: ch, se, n = case_stats[0]; o.nontrivial = n >= 8 and ch >= 3 and se >= 1; o.key = o.key[len(HEAD):]; o.sample = o.key[:700]
    return o
def show(case): return render(case)[0]
