"""C13: string, algorithm, math, range and number formatting functions against their Python definitions."""
import struct, math, functools
import scripts
from scripts import Ctx, setup, Bad, TWO
from engine import Outcome

ID = "C13"
RULE = "at least five calls are made, of which one has a string, array or number that is not empty or zero"
ASSUMPTIONS = ["strings hold no null characters; positions are between 0 and the length unless an error is expected",
               "libm results may differ from the host's Python in the last bits: 4 units in the last place are allowed for transcendental functions, none for sqrt, ceil, floor, abs, clamp and saturate",
               "sorting promises an ordered permutation, not stability", "length and normalize of float4 take the first three components (as the implementation and its C++ translation both do)"]
N = {"quick": 4000, "thorough": 80000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

HEAD = """import std.string;
import std.algorithm;
import std.math;
import std.range;
import std.error;
import vt;
void ss(string ref s){ ti(s.size); ti(s.length()); ti(s.empty()); for(int i = 0; i < s.size; i++) ti(s[i]); }
void sd(char[] s){ ti(s.size); for(i in s) ti(i); }
void er(try_result<int> r){ if(r) ti(r.value); else ts("error"); }
class Q{ int k; int v; }
Q mq(int k, v){ Q r; r.k = k; r.v = v; return r; }
"""
AL = "ab"
def word(src, hi=8):
    n = src.i(hi + 1); al = src.pick(["a", "ab", "ab", "abc", "aB-", "xyzabc", "\xe9a"]) if 0 else src.pick(["a", "ab", "ab", "abc", "aB-", "xyzabc"])
    return "".join(src.pick(al) for _ in range(n))
def word1(src): return word(src) or "a"

def naive(s):
    neg = s[0] == "-"; w = s.lstrip("-"); a, _, b = w.partition("."); v = float(int(a)); p = 0.1
    for c in b: v += int(c) * p; p *= 0.1
    return -v if neg else v
DBL = ["0.0", "1.0", "0.5", "2.0", "-1.0", "3.25", "-0.75", "10.0", "100.5", "-7.5", "0.125", "1e10", "123456789.0", "-2.0", "0.0009765625", "1048576.0", "0.75", "-0.5", "4.0", "9.0", "1e300", "1e-5"]
DBL = [s for s in DBL if "e" in s or naive(s) == float(s)]
def bits(x): return "d%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return math.copysign(math.inf, x)

FAM = ["str2"] * 6 + ["strm"] * 8 + ["find"] * 8 + ["cstr"] * 3 + ["num"] * 5 + ["parse"] * 3 + ["sort"] * 4 + ["seq"] * 3 + ["range"] * 2 + ["math"] * 4 + ["vec"] * 3 + ["arr"] * 3 + ["fmt"] * 3 + ["bind"] * 1
def gen(src, ctx):
    ops = []; big = src.p(15)
    for _ in range(src.rng(5, 22)):
        f = src.pick(FAM); o = [f]
        if f in ("str2", "strm", "find"): o += [word(src), word(src, 4), src.i(40), src.i(12), src.i(12), src.i(4)]
        elif f == "cstr": o += [word(src), word(src, 3), src.i(8), src.i(6), src.i(3)]
        elif f == "num": o += [src.w([(2, src.rng(-20, 20)), (2, src.rng(-2**31, 2**31 - 1)), (2, src.rng(-2**63 + 1, 2**63 - 1)), (1, src.pick([0, -1, 2**31 - 1, -2**31, 32767, -32768, 2**63 - 1, -2**63, 10, 100, 99, -10])), (1, src.pick([1, -1]) * 10 ** src.i(19))])]
        elif f == "parse": o += [src.i(4), src.w([(2, src.rng(-99, 99)), (2, src.rng(-32768, 32767)), (2, src.rng(-2**31, 2**31 - 1)), (2, src.rng(-2**63, 2**63 - 1))]), src.i(4), src.pick(["", "", "x", " 5", ".5", "-"]), src.rng(-999999, 999999)]
        elif f == "fmt": o += [src.pick(DBL), src.rng(0, 12) if src.p(90) else src.rng(13, 60), src.i(2), src.i(3), src.i(3)]
        elif f == "sort":
            n = src.w([(3, src.i(6)), (3, src.rng(0, 45)), (2, src.rng(33, 150) if big else 40)]); hi = src.pick([2, 5, 50, 10000])
            sh = src.i(5); a = [src.i(hi) for _ in range(n)]
            if sh == 1: a.sort()
            elif sh == 2: a.sort(reverse=True)
            elif sh == 3: a = sorted(a)[::2] + sorted(a)[1::2][::-1]
            o += [src.pick(["int", "double", "Q", "long"]), a, src.i(4), src.i(n + 1), src.i(n + 1)]
        elif f == "seq": o += [src.i(6), [src.rng(-20, 20) for _ in range(src.i(9))], src.i(10)]
        elif f == "range": o += [src.rng(-10, 10), src.rng(-10, 14), src.rng(1, 5), src.i(2)]
        elif f == "math": o += [src.pick(["cos", "sin", "tan", "ctg", "cosh", "sinh", "tanh", "coth", "acos", "asin", "atan", "atan2", "ceil", "floor", "exp", "log", "sqrt", "clamp", "saturate", "abs", "ceil", "floor", "sqrt", "clamp"]), src.pick(DBL), src.pick(DBL), src.pick(DBL), src.i(2)]
        elif f == "vec": o += [src.rng(2, 4), [src.rng(-16, 16) for _ in range(4)], [src.rng(-16, 16) for _ in range(4)], src.i(14), src.rng(-8, 8), src.i(6)]
        elif f == "arr": o += [src.i(8), [src.rng(-5, 5) for _ in range(src.i(7))], [src.rng(-5, 5) for _ in range(src.i(7))], src.i(9), src.i(9), src.i(9)]
        elif f == "bind": o += [src.rng(1, 8), src.i(2), src.rng(-9, 9)]
        ops.append(o)
    return {"ops": ops, "cfgs": [list(src.pick(scripts.ALL))] if src.p(75) else [list(x) for x in TWO]}

reduce = scripts.dropper()
def lit(v): return str(v) if v >= 0 else "(%d)" % v if v != -2147483648 else "(-2147483647 - 1)"
def llit(v): return "%dl" % v if v >= 0 else "(%dl)" % v if v > -2**63 else "(-9223372036854775807l - 1l)"
def dl(x): return x if x[0] != "-" else "(%s)" % x
def S(s): return ["i%d" % len(s), "i%d" % len(s), "i%d" % (not s)] + ["i%d" % ord(c) for c in s]
def cmp(a, b): return (a > b) - (a < b)

# transcendental functions: (function, largest allowed difference in units of the last place)
def ulps(x, y):
    if x == y: return 0
    if x != x or y != y or math.isinf(x) or math.isinf(y): return 1 << 60
    def k(v):
        b = struct.unpack("<q", struct.pack("<d", v))[0]
        return b if b >= 0 else -(b & 0x7fffffffffffffff)
    return abs(k(x) - k(y))

def render(case):
    code = [HEAD]; out = []; n = 0
    def I(v): out.append("i%d" % v)
    def err(expr, ok, vals, pre=""):
        code.append("er(try(auto(){ %s %s; return 0; }));" % (pre, expr))
        out.extend(list(vals) + ["i0"] if ok else ["serror"])
    def SS(expr, val): code.append("{ string t = %s; ss(t); }" % expr); out.extend(S(val))
    for o in case["ops"]:
        f = o[0]; n += 1
        if f in ("str2", "strm", "find"):
            a, b, op, p, q, form = o[1:]
            code.append('string s%d = string("%s"); string r%d = string("%s");' % (n, a, n, b)); s = "s%d" % n; r = "r%d" % n; L = len(a)
            # some empty strings keep a terminator of their own
            if form == 3 and a: code.append("%s += %s; %s = %s.erase(%d, %d);" % (s, s, s, s, L, L))
            lit_b = '"%s"' % b
            B = r if form % 2 == 0 else lit_b
        if f == "str2":
            k = op % 14
            if k < 6:
                c = ["==", "!=", "<", "<=", ">", ">="][k]; v = [a == b, a != b, a < b, a <= b, a > b, a >= b][k]
                A = s
                if form == 2: A = '"%s"' % a
                if form == 2: B = r
                code.append("ti((%s %s %s) != false);" % (A, c, B)); I(v)
            elif k == 6: SS("%s + %s" % (s, B), a + b)
            elif k == 7: SS("\"%s\" + %s" % (b, s), b + a)
            elif k == 8: code.append("%s += %s; ss(%s);" % (s, B, s)); out.extend(S(a + b))
            elif k == 9: code.append("%s = %s; ss(%s); ss(%s);" % (s, B, s, r)); out.extend(S(b) + S(b))
            elif k == 10: code.append("%s.swap(%s); ss(%s); ss(%s);" % (s, r, s, r)); out.extend(S(b) + S(a))
            elif k == 11: code.append("{ string t = string(%s); %s += \"!\"; ss(t); }" % (s, s)); out.extend(S(a))
            elif k == 12: SS("string(%d, '%s')" % (p, "xyz"[q % 3]), "xyz"[q % 3] * p)
            else: code.append("%s = 'w'; ss(%s); %s.clear(); ss(%s);" % (s, s, s, s)); out.extend(S("w") + S(""))
        elif f == "strm":
            k = op % 11; i = p % (L + 2); j = q % (L + 2)
            if k == 0: err("ti(%s[%d])" % (s, i), i < L or (i == L and a), ["i%d" % (ord(a[i]) if i < L else 0)]) if not (i == L and (not a)) else None
            elif k == 1:
                ok = i < L and j < L and i <= j
                if ok: SS("%s[%d, %d]" % (s, i, j), a[i:j + 1])
                else: err("string t = %s[%d, %d]; ss(t)" % (s, i, j), False, [])
            elif k == 2:
                if not a: continue
                code.append("ti(*%s.front()); ti(*%s.back());" % (s, s)); I(ord(a[0])); I(ord(a[-1]))
            elif k == 3: err("%s.insert(%d, %s); ss(%s)" % (s, i, B, s), i <= L or not b, S(a[:i] + b + a[i:] if b else a))
            elif k == 4: err("%s.insert(%d, %d, 'q'); ss(%s)" % (s, i, q, s), i <= L or not q, S(a[:i] + "q" * q + a[i:] if q else a))
            elif k == 5:
                if i > L: err("%s.erase(%d)" % (s, i), False, []); continue
                code.append("%s.erase(%d); ss(%s);" % (s, i, s)); out.extend(S(a[:i]))
            elif k == 6:
                if i > L: err("%s.erase(%d, 1)" % (s, i), False, []); continue
                code.append("%s.erase(%d, %d); ss(%s);" % (s, i, q, s)); out.extend(S(a[:i] + a[i + q:]))
            elif k == 7:
                if i > L: err("%s.replace(%d, %d, %s)" % (s, i, q, B), False, []); continue
                code.append("%s.replace(%d, %d, %s); ss(%s);" % (s, i, q, B, s)); out.extend(S(a[:i] + b + a[i + q:]))
            elif k == 8:
                if i > L: continue
                code.append("%s.replace(%d, %d, %d, 'z'); ss(%s);" % (s, i, q, p % 4, s)); out.extend(S(a[:i] + "z" * (p % 4) + a[i + q:]))
            elif k == 9: SS("%s.substr(%d%s)" % (s, i, ", %d" % q if form else ""), a[i:i + q] if form else a[i:])
            else:
                if i >= L: continue
                code.append("%s[%d] = 'W'; ss(%s);" % (s, i, s)); out.extend(S(a[:i] + "W" + a[i + 1:]))
        elif f == "find":
            k = op % 10; i = p % (L + 1); off = form != 1; ch = (b or "a")[0]; so = ", %d" % i if off else ""
            e = i if off else L - 1
            if k == 0: code.append("ti(%s.find(%s%s));" % (s, B, so)); I(a.find(b, i if off else 0))
            elif k == 1: code.append("ti(%s.find('%s'%s));" % (s, ch, so)); I(a.find(ch, i if off else 0))
            elif k == 2: code.append("ti(%s.rfind(%s%s));" % (s, B, so)); I(a.rfind(b, 0, (i if off else L) + len(b)))
            elif k == 3: code.append("ti(%s.rfind('%s'%s));" % (s, ch, so)); I(a.rfind(ch, 0, e + 1))
            elif k == 4: code.append("ti(%s.find_first_of(%s%s));" % (s, B, so)); I(next((x for x in range(i if off else 0, L) if a[x] in b), -1))
            elif k == 5: code.append("ti(%s.find_last_of(%s%s));" % (s, B, so)); I(next((x for x in range(min(e, L - 1), -1, -1) if a[x] in b), -1))
            elif k == 6: code.append("ti(%s.find_first_not_of(%s%s));" % (s, B, so)); I(next((x for x in range(i if off else 0, L) if a[x] not in b), -1))
            elif k == 7: code.append("ti(%s.find_last_not_of(%s%s));" % (s, B, so)); I(next((x for x in range(min(e, L - 1), -1, -1) if a[x] not in b), -1))
            elif k == 8: code.append("ti(('%s' in %s) != false);" % (ch, s)); I(ch in a)
            else:
                code.append("ti(%s.find_first_of('%s'%s)); ti(%s.find_last_of('%s'%s)); ti(%s.find_first_not_of('%s'%s)); ti(%s.find_last_not_of('%s'%s));" % (s, ch, so, s, ch, so, s, ch, so, s, ch, so))
                I(a.find(ch, i if off else 0)); I(a.rfind(ch, 0, e + 1)); I(next((x for x in range(i if off else 0, L) if a[x] != ch), -1)); I(next((x for x in range(min(e, L - 1), -1, -1) if a[x] != ch), -1))
        elif f == "cstr":
            a, b, k, i, form = o[1:]; k %= 8
            if k == 0: code.append('ti(strlen("%s"));' % a); I(len(a))
            elif k == 1: code.append('ti(strstr("%s", "%s"));' % (a, b)); I(a.find(b))
            elif k == 2:
                ch = (b or "\0")[0]; code.append("ti(strchr(\"%s\", '%s'));" % (a, ch if b else "\\0")); I(a.find(ch) if b else len(a))
            elif k == 3: code.append('ti(strcmp("%s", "%s"));' % (a, b)); I(cmp(a, b))
            elif k == 4:
                m = len(a) + 1 + i - 2
                if m < 1: continue
                err('char[] t = new char[%d]; ti(strcpy(t, "%s")); sd(t)' % (m, a), m >= len(a) + 1, ["i%d" % len(a), "i%d" % m] + ["i%d" % ord(c) for c in a] + ["i0"] * (m - len(a)))
            elif k == 5: err("char[] t = nullptr; ti(%s)" % ["strlen(t)", "strcmp(t, \"a\")", "strstr(\"a\", t)"][form], False, [])
            elif k == 6: err("char[] t = new char[2]; t[0] = 'a'; t[1] = 'b'; ti(%s)" % ["strlen(t)", "strcmp(\"a\", t)", "strchr(t, 'b')"][form], False, [])
            else:
                code.append('{ char[] t = "%s" + "%s"; sd(t); }' % (a, b)); w = a + b; out.append("i%d" % (len(w) + 1)); out.extend("i%d" % ord(c) for c in w + "\0")
        elif f == "num":
            v = o[1]; t = str(v)
            if -2**31 <= v < 2**31: code.append("{ int t = %s; sd(t.str()); ti(int(t.str()) == t); }" % lit(v)); out.append("i%d" % (len(t) + 1)); out.extend("i%d" % ord(c) for c in t + "\0"); I(1)
            if -32768 <= v < 32768: code.append("{ short t = %s; sd(t.str()); ti(short(t.str()) == t); }" % lit(v)); out.append("i%d" % (len(t) + 1)); out.extend("i%d" % ord(c) for c in t + "\0"); I(1)
            code.append("{ long t = %s; sd(t.str()); ti(long(t.str()) == t); }" % llit(v)); out.append("i%d" % (len(t) + 1)); out.extend("i%d" % ord(c) for c in t + "\0"); I(1)
        elif f == "parse":
            k, v, kind, tail, fr = o[1:]; tail = tail if kind != 3 else ""
            if kind == 0: v = (v + 32768) % 65536 - 32768
            if kind == 1: v = (v + 2**31) % 2**32 - 2**31
            if kind < 3:
                T = ["short", "int", "long"][kind]
                code.append('tl(%s("%d%s"));' % (T, v, tail)); out.append("l%d" % v)
                if k == 0:
                    # digits that are not followed by a terminator
                    w = str(v); code.append("{ char[] t = new char[%d]; char[] u = \"%s\"; for(i in t, j in u) i = j; char[] z = \"777\"; tl(%s(t)); }" % (len(w), w, T)); out.append("l%d" % v)
            else:
                w = "%d.%d" % (fr, abs(v) % 1000); code.append('td(double("%s")); td(float("%s"));' % (w, w)); out.append(bits(float(w))); out.append(bits(f32(float(w))))
        elif f == "fmt":
            x, prec, exp, k, isf = o[1:]; v = float(x); T = "float" if isf == 2 else "double"
            if T == "float": v = f32(v)
            if math.isinf(v): continue
            w = ("%.*e" if exp and k else "%.*f") % (prec if k else 6, v); w = w if not (exp and k) else w
            code.append("{ %s t = %s; sd(t.str(%s)); }" % (T, dl(x), "%d, %s" % (prec, "true" if exp else "false") if k else "")); out.append("i%d" % (len(w) + 1)); out.extend("i%d" % ord(c) for c in w + "\0")
        elif f == "sort":
            T, a, k, i, j = o[1:]; N_ = len(a)
            vals = {"int": [lit(v) for v in a], "long": ["%dl" % v for v in a], "double": ["%d.5" % v for v in a], "Q": ["mq(%d, %d)" % (v, x) for x, v in enumerate(a)]}[T]
            code.append("{ %s[] t = new %s[%d]; %s" % (T, T, N_, " ".join("t[%d] = %s;" % (x, v) for x, v in enumerate(vals))))
            key = ".k" if T == "Q" else ""
            opr = "<" if k % 2 == 0 else ">"; pred = "x.k %s y.k" % opr if T == "Q" else "*x %s *y" % opr; cast = "int" 
            lo, hi = (0, N_) if k < 2 else (min(i, j), max(i, j))
            if k < 2: code.append("sort(t, auto(%s ref x, y){ return int(%s); });" % (T, pred))
            elif lo < hi: code.append("sort(t, %d, %d, auto(%s x, y){ return %s; });" % (lo, hi, T, pred.replace("*", "")))
            b = a[:lo] + sorted(a[lo:hi], reverse=k % 2 == 1) + a[hi:]
            if T == "Q":
                # keys in order, and every element still there exactly once
                code.append("for(i in t) ti(i.k); int m%d = 0; for(i in t){ m%d += i.v * i.v + 1; } ti(m%d); { int ok = 1; for(i in t) for(j in t) ok = ok && (i.v != j.v || i.k == j.k); ti(ok); } }" % (n, n, n)); [I(v) for v in b]; I(sum(x * x + 1 for x in range(N_))); I(1)
            elif T == "int": code.append("for(i in t) ti(i); }"); [I(v) for v in b]
            elif T == "long": code.append("for(i in t) tl(i); }"); out.extend("l%d" % v for v in b)
            else: code.append("for(i in t) td(i); }"); out.extend(bits(v + .5) for v in b)
        elif f == "seq":
            k, a, m = o[1:]
            code.append("{ int[] t = new int[%d]; %s" % (len(a), " ".join("t[%d] = %s;" % (x, lit(v)) for x, v in enumerate(a))))
            if k == 0: code.append("auto u = map(t, auto(int ref x){ return *x * 2 - %d; }); ti(u.size); for(i in u) ti(i); }" % m); I(len(a)); [I(v * 2 - m) for v in a]
            elif k == 1: code.append("auto u = filter(t, auto(auto ref x){ return int(int(x) > %d); }); ti(u.size); for(int i = 0; i < u.size; i++) ti(int(u[i])); }" % (m - 5)); w = [v for v in a if v > m - 5]; I(len(w)); [I(v) for v in w]
            elif k in (2, 3):
                nm = "foldl" if k == 2 else "foldr"
                if a:
                    w = a if k == 2 else a[::-1]; z = w[0]
                    for v in w[1:]: z = z * 2 + v
                    code.append("ti(%s(t, auto(int x, y){ return x * 2 + y; })); }" % nm); I(z)
                else: code.append("er(try(auto(){ ti(%s(t, auto(int x, y){ return x + y; })); return 0; })); }" % nm); out.append("serror")
            elif k == 4: code.append("auto g = bind_first(auto(int x, y){ return x * 3 - y; }, %d); for(i in t) ti(g(i)); }" % m); [I(m * 3 - v) for v in a]
            else: code.append("auto g = bind_last(auto(int x, y){ return x * 3 - y; }, %d); for(i in t) ti(g(i)); }" % m); [I(v * 3 - m) for v in a]
        elif f == "bind":
            m, last, v = o[1:]
            ps = ["x%d" % i for i in range(m)]; body = " + ".join("%s * %d" % (p, 7 ** i % 1000 + i) for i, p in enumerate(ps))
            args = list(range(1, m)); full = args + [v] if last else [v] + args
            code.append("{ auto g = bind_%s(auto(%s){ return %s; }, %s); ti(g(%s)); }" % ("last" if last else "first", ", ".join("int " + p for p in ps), body, lit(v), ", ".join(map(str, args))))
            I(sum(x * (7 ** i % 1000 + i) for i, x in enumerate(full)))
        elif f == "range":
            a, b, st, k = o[1:]
            code.append("for(i in range(%s, %s%s)) ti(i); ti(12345);" % (lit(a), lit(b), ", %d" % st if st > 1 or k else "")); [I(v) for v in range(a, b + 1, st)]; I(12345)
        elif f == "math":
            g, x, y, z, var = o[1:]; X, Y, Z = float(x), float(y), float(z)
            call = "%s(%s)" % (g, dl(x)); tol = 4
            try:
                if g in ("cos", "sin", "tan", "ctg") and abs(X) > 1e11: continue
                if g == "ctg": v = 1 / math.tan(X)
                elif g == "coth": v = 1 / math.tanh(X)
                elif g == "atan2": v = math.atan2(X, Y); call = "atan2(%s, %s)" % (dl(x), dl(y))
                elif g == "clamp":
                    if Y > Z: Y, Z, y, z = Z, Y, z, y
                    v = min(max(X, Y), Z); call = "clamp(%s, %s, %s)" % (dl(x), dl(y), dl(z)); tol = 0
                elif g == "saturate": v = min(max(X, 0.0), 1.0); tol = 0
                elif g == "abs": v = abs(X); tol = 0
                elif g == "ceil": v = float(math.ceil(X)); tol = 0
                elif g == "floor": v = float(math.floor(X)); tol = 0
                else: v = getattr(math, g)(X); tol = 0 if g == "sqrt" else 4
                if tol == 0 and v == 0: v = abs(v)     # the sign of a zero is not looked at
            except (ValueError, OverflowError, ZeroDivisionError): continue
            if var: code.append("double a%d = %s;" % (n, dl(x))); call = call.replace("(%s" % dl(x), "(a%d" % n, 1)
            if tol: code.append("td(%s);" % call); out.append(("~", v, tol))
            else: code.append("td(%s + 0.0);" % call); out.append(bits(v))
        elif f == "vec":
            d, a, b, k, m, idx = o[1:]; a = [v / 2 for v in a[:d]]; b = [v / 2 for v in b[:d]]; C = "xyzw"[:d]; t = "float%d" % d
            def V(v): return "%s(%s)" % (t, ", ".join(dl("%.1f" % x) for x in v))
            code.append("{ %s a = %s, b = %s;" % (t, V(a), V(b)))
            def comp(e, vals): code.append("auto r = %s; %s" % (e, " ".join("td(r.%s);" % c for c in C))); out.extend(bits(f32(v)) for v in vals)
            if k == 0: comp("a + b", [x + y for x, y in zip(a, b)])
            elif k == 1: comp("a - b", [x - y for x, y in zip(a, b)])
            elif k == 2: comp("a * b", [x * y for x, y in zip(a, b)])
            elif k == 3 and all(b): comp("a / b", [x / y for x, y in zip(a, b)])
            elif k == 4: comp("a * %s" % dl("%.1f" % m), [x * m for x in a])
            elif k == 5: comp("%s * a" % dl("%.1f" % m), [x * m for x in a])
            elif k == 6 and m: comp("a / %s" % dl("%.1f" % m), [x / m for x in a])
            elif k in (7, 8): comp("a; r %s= b" % "+-"[k - 7], [x + y if k == 7 else x - y for x, y in zip(a, b)])
            elif k == 9: comp("a; r *= %s" % dl("%.1f" % m), [x * m for x in a])
            elif k == 10: code.append("td(dot(a, b));"); out.append(bits(f32(sum(x * y for x, y in zip(a, b)))))
            elif k == 11: code.append("td(a.length());"); out.append(bits(f32(math.sqrt(sum(x * x for x in a[:3])))))
            elif k == 12: 
                code.append("er(try(auto(){ td(a[%d]); a[%d] = 5; td(a.%s); return 0; }));" % (idx, idx, C[idx % d])); out.extend([bits(a[idx]), bits(5.0), "i0"] if idx < d else ["serror"])
            elif k == 13 and any(a[:3]):
                l = f32(math.sqrt(f32(sum(x * x for x in a[:3])))); inv = f32(1 / l); code.append("td(a.normalize());"); out.append(bits(l)); code.append(" ".join("td(a.%s);" % c for c in C)); out.extend(bits(f32(f32(x) * inv) if i < 3 else x) for i, x in enumerate(a))
            code.append("}")
        elif f == "arr":
            k, a, b, i, j, l = o[1:]
            code.append("{ int[] a = new int[%d], b = new int[%d]; %s %s" % (len(a), len(b), " ".join("a[%d] = %s;" % (x, lit(v)) for x, v in enumerate(a)), " ".join("b[%d] = %s;" % (x, lit(v)) for x, v in enumerate(b))))
            def A(nm, v): code.append("ti(%s.size); for(i in %s) ti(i);" % (nm, nm)); I(len(v)); [I(z) for z in v]
            if k == 0:
                code.append("int[] c = duplicate(a); if(c.size) c[0] = 99;"); A("a", a); A("c", ([99] + a[1:]) if a else [])
            elif k == 1:
                if len(b) >= len(a) : code.append("array_copy(b, a);"); A("b", a + b[len(a):])
            elif k == 2:
                i %= len(b) + 1; j %= len(a) + 1; l %= min(len(b) - i, len(a) - j) + 1
                code.append("array_copy(b, %d, a, %d, %d);" % (i, j, l)); A("b", b[:i] + a[j:j + l] + b[i + l:])
            elif k == 3: code.append("swap(&a, &b);") if 0 else code.append("int x = %d, y = %d; swap(&x, &y); ti(x); ti(y);" % (i, j)); I(j); I(i)
            elif k == 4: code.append("int x = %d, y = %d; ti(equal(&x, &y)); ti(equal(&x, &x));" % (i, j)); I(i == j); I(1)
            elif k == 5: code.append("int x = %d; replace(&x, %d); ti(x);" % (i, j)) ; I(j)
            elif k == 6: code.append("tl(as_unsigned(%s)); ti(as_unsigned(char(%s))); ti(as_unsigned(short(%s)));" % (lit(i * 300000000 - 2**31 + 7), lit(i * 30 - 128), lit(i * 8000 - 32768))); out.append("l%d" % ((i * 300000000 - 2**31 + 7) % 2**32)); I((i * 30 - 128) % 256); I((i * 8000 - 32768) % 65536)
            elif k == 7: code.append('char[] s = "%s", u = "%s"; ti(s == u); ti(s != u); ti(hash_value(i%d()));' % ("x" * i, "x" * j, n) if 0 else 'char[] s = "%s", u = "%s"; ti((s == u) != 0); ti((s != u) != 0);' % ("x" * i, "x" * j)); I(i == j); I(i != j)
            code.append("}")
    code.append("return 1;")
    return "\n".join(code) + "\n", out

def run(case, ctx):
    # tolerant lines are compared after the run
    try: code, want = render(case)
    except Bad: return Outcome(labels=["not applicable"])
    def r2(c):
        return code, Loose(want)
    o = scripts.check(case, ctx, r2, labels=sorted(set(x[0] for x in case["ops"])))
    o.key = o.key[len(HEAD):] if o.key else o.key; o.sample = (o.key or "")[:700]
    o.nontrivial = len(want) >= 12 and len(case["ops"]) >= 5 and any(any(bool(v) for v in x[1:3]) for x in case["ops"])
    return o

class Near(str):
    """a trace line for a number that may differ in the last places"""
    def __new__(c, v, tol):
        s = str.__new__(c, bits(v)); s.v = v; s.tol = tol; return s
    def __eq__(self, o):
        if str.__eq__(self, o): return True
        try: x = struct.unpack("<d", struct.pack("<Q", int(o[1:], 16)))[0]
        except Exception: return False
        return ulps(x, self.v) <= self.tol
    def __ne__(self, o): return not self == o
    __hash__ = str.__hash__
class Loose(list):
    def __init__(self, w): list.__init__(self, [Near(x[1], x[2]) if isinstance(x, tuple) else x for x in w])
def show(case): return render(case)[0]
