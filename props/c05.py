"""C05: the compiler survives any source text and explains every rejection."""
import re, os, json
import worker, langgen, lang
from langgen import Opt
from engine import Outcome, VERIF

ID = "C05"
RULE = "a generated source text whose compilation finished, counted separately as accepted or rejected"
ASSUMPTIONS = ["nesting families run without sanitizers under an 8 MB host stack; every other text runs under AddressSanitizer with bounds and object-size checks",
               "a compilation that uses more than 20 s of processor time under the sanitizer counts as not terminating; families that grow exponentially by construction are kept below 14 levels",
               "the text is only compiled, never run; a fixed program is built and run after it"]
N = {"quick": 22000, "thorough": 600000}
CAP = {"quick": 90, "thorough": 820}
MIN_NONTRIVIAL = {"quick": 1500, "thorough": 20000}

CORPUS = json.load(open(os.path.join(VERIF, "corpus", "snippets.json")))
GOOD = [s for s in CORPUS["good"] if len(s) < 900]
CORPUS = CORPUS["good"] + CORPUS["bad"]
SHORT = [s for s in CORPUS if len(s) < 700]
TOK = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|\s+|0x[0-9a-fA-F]+|\d+\.?\d*(?:e[+-]?\d+)?[lLfb]?|[A-Za-z_]\w*|\*\*=?|<<=?|>>=?|&&|\|\||\^\^|[-+*/%&|^=!<>]=|\+\+|--|\.\.|//[^\n]*|.', re.S)
VOCAB = """( ) { } [ ] ; , . : :: ? @ = == != < > <= >= << >> >>= + - * / % ** & && | || ^ ^^ ! ~ ++ -- += -= *= /= **= &= |= ^= %= ' " \\ # $ ` // /* */
if else for while do switch case default break continue return yield coroutine class enum namespace import typedef typeof auto ref new with noalign align in sizeof operator generic true false nullptr const extendable @if accessor get set this isType
int int[] int[4] int[][] char char[] short long float double bool void void ref int ref int ref(int) auto ref auto ref[] auto[] typeid generic @T @U explicit override function type bool[] string const_string float2 float3 float4
0 1 -1 2147483648 9223372036854775808 99999999999999999999 0x 0xffffffffffffffffff 1e999 0.0 1.5f 7l 101b 'a' '' "" "abc" "\\x" '\\' 0b 09 1e 1..2 .5 @"raw" x y a b i f foo bar A B C Foo main T list vector""".split()
VOCAB += ["int x", "int x = 5;", "class A{ int x; }", "int f(int a){ return a; }", "f(1)", "auto x = 4;", "@T", "typeof(x)", "x.type", "x.target", ".hasMember(x)", "@if(1){}", "for(i in a)", "{ for(i in 1..4) yield i; }", "<@T>", "<int>", "auto(int a){ return a; }", "generic a", "import std.vector;", "import std.list;", "import std.hashmap;", "\0", "\xff", "coroutine int c(){ yield 1; }", "operator+", "(@A)", "$x", "int[x]", "new int[4]", "new int(4)", "return 1;", "class B: A{}", "enum E{ A, B }", "typedef int T;", "namespace N{}", "A a;", "a.", "&x", "*x", "{1, 2}", "<a>{a;}", "@operator", "@T ref", "arg.first", "arguments.size", "int:x(){}", "int A:x(){}", "void A:A(){}", "void finalize(){}"]

AFTER = "class K5{ int a; int f(int b){ return a * b; } } int fact(int n){ return n < 2 ? 1 : n * fact(n - 1); } K5 k; k.a = 7; int[] l = { for(i in {1, 2, 3}) yield i * i; }; auto g = auto(int x){ return x + k.a; }; return fact(5) + k.f(3) + l[2] + g(1);"
AFTER_RESULT = str(120 + 21 + 9 + 8)

def tokens(s): return TOK.findall(s)

def mutate(src, code):
    t = tokens(code)
    n = src.w([(40, 1), (25, 2), (15, 3), (12, 5), (8, 9)])
    ops = []
    for _ in range(n):
        if not t: t = ["x"]
        i = src.i(len(t))
        k = src.w([(16, "del"), (10, "dup"), (10, "swap"), (26, "rep"), (22, "ins"), (8, "splice"), (6, "cut"), (6, "range"), (5, "rename"), (6, "num"), (4, "byte"), (3, "deltoend")])
        ops.append(k)
        if k == "del": del t[i:i + src.w([(6, 1), (2, 2), (1, 4), (1, 12)])]
        elif k == "dup":
            m = src.w([(6, 1), (2, 3), (1, 10)]); t[i:i] = t[i:i + m]
        elif k == "swap":
            j = src.i(len(t)); t[i], t[j] = t[j], t[i]
        elif k == "rep":
            if src.p(35): t[i] = src.pick(t)
            else: t[i] = src.pick(VOCAB)
        elif k == "ins":
            v = src.pick(t) if src.p(25) else src.pick(VOCAB)
            t[i:i] = [" ", v, " "]
        elif k == "splice":
            o = tokens(src.pick(SHORT)); a = src.i(len(o)); b = src.w([(1, len(o)), (3, a + 1 + src.i(12))])
            t[i:i] = o[a:b]
        elif k == "cut": t = t[i:]
        elif k == "deltoend": t = t[:i]
        elif k == "range":
            j = src.i(len(t)); a, b = min(i, j), max(i, j)
            seg = t[a:b][:60]
            if src.p(50): del t[a:a + len(seg)]
            else:
                p = src.i(len(t)); t[p:p] = seg
        elif k == "rename":
            w = [x for x in t if re.match(r"[A-Za-z_]\w*$", x)]
            if w:
                a = src.pick(w); b = src.pick(w) if src.p(60) else src.pick(VOCAB)
                if src.p(50): t = [b if x == a else x for x in t]
                else: t[t.index(a)] = b
        elif k == "num": t[i] = src.pick(["0", "-1", "1000000", "2147483647", "4294967295", "9223372036854775807", "70000", "1e308", "0x7fffffffffffffff"])
        elif k == "byte":
            s = "".join(t); p = src.i(len(s) + 1) if s else 0
            s = s[:p] + chr(src.i(256)) + s[p + src.i(2):]
            t = tokens(s)
    return "".join(t)[:6000], ops

TYPES = ["int", "char", "short", "long", "float", "double", "bool", "void", "auto", "generic", "auto ref", "int ref", "int[]", "char[]", "auto[]", "auto ref[]", "int ref(int)", "void ref()", "@T", "T", "Foo", "typeid", "function", "type", "float4", "int[3]", "int ref ref", "int[][]", "Foo ref", "Foo<int>", "Foo<@T>", "Foo[]", "typeof(x)", "generic ref"]
TYPEWORD = {"int", "char", "short", "long", "float", "double", "bool", "void", "auto", "generic", "typeid", "const_string", "string"}
BINOPS = ["+", "-", "*", "/", "%", "**", "&", "|", "^", "&&", "||", "^^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "=", "+=", "-=", "*=", "&=", "in"]
KEY = set("if else for while do switch case default break continue return yield coroutine class enum namespace import typedef typeof ref new with noalign align in sizeof operator true false nullptr const extendable".split())

def close(t, i):
    """index after the bracket that matches t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in "([{" and len(t[j]) == 1: d += 1
        elif t[j] in ")]}" and len(t[j]) == 1:
            d -= 1
            if d <= 0: return j + 1
    return None

def statements(t):
    """[(start, end)] of pieces ending in ; or a closed block"""
    out = []; st = 0; i = 0
    while i < len(t):
        if t[i] == ";": out.append((st, i + 1)); st = i + 1
        elif t[i] == "{": st = i + 1
        elif t[i] == "}": st = i + 1
        elif t[i] == "(":
            j = close(t, i)
            if j: i = j - 1
        i += 1
    i = 0; st = 0
    for m in range(len(t)):
        if t[m] == "{":
            j = close(t, m)
            if j:
                b = m
                while b > 0 and t[b - 1] not in (";", "{", "}"): b -= 1
                out.append((b, j))
    return [(a, b) for a, b in out if b - a < 300]

def semantic(src, code):
    """mutations that mostly keep the text parsable"""
    t = tokens(code); ops = []
    for _ in range(src.w([(40, 1), (30, 2), (15, 3), (10, 5)])):
        k = src.w([(20, "ident"), (20, "type"), (10, "op"), (8, "num"), (14, "stmt_ins"), (6, "stmt_del"), (6, "stmt_swap"), (8, "expr"), (5, "args"), (4, "wrap"), (4, "modifier"), (5, "member")])
        ops.append(k)
        idx = lambda f: [i for i, x in enumerate(t) if f(x)]
        ids = idx(lambda x: re.match(r"[A-Za-z_]\w*$", x) and x not in KEY and x not in TYPEWORD)
        if k == "ident" and ids:
            i = src.pick(ids); t[i] = t[src.pick(ids)]
        elif k == "type":
            c = idx(lambda x: x in TYPEWORD) or ids
            if c: t[src.pick(c)] = src.pick(TYPES)
        elif k == "op":
            c = idx(lambda x: x in BINOPS)
            if c: t[src.pick(c)] = src.pick(BINOPS)
        elif k == "num":
            c = idx(lambda x: x[:1].isdigit())
            if c: t[src.pick(c)] = src.pick(["0", "-1", "1.5", "2l", "'a'", "true", '"str"', "nullptr", "{1, 2}", "70000", "1000000000", "x", "auto(int a){ return a; }", "<x>{ x; }", "{ for(i in 1..3) yield i; }", "new int(4)", "int", "sizeof(int)", "typeof(1)"])
        elif k in ("stmt_ins", "stmt_del", "stmt_swap"):
            sts = statements(t)
            if not sts: continue
            a, b = src.pick(sts)
            if k == "stmt_del": del t[a:b]
            elif k == "stmt_swap":
                c, d = src.pick(sts)
                if b <= c: t[:] = t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:]
            else:
                if src.p(50): o = t[:]
                else: o = tokens(src.pick(SHORT))
                os_ = statements(o)
                if os_:
                    c, d = src.pick(os_); p = src.pick([a, b]); t[p:p] = [" "] + o[c:d] + [" "]
        elif k == "expr" and ids:
            i = src.pick(ids); x = t[i]
            t[i] = src.pick(["(%s)", "%s.x", "%s[0]", "%s()", "&%s", "*%s", "-%s", "!%s", "%s + 1", "%s == %s", "typeof(%s)", "%s.type", "{%s}", "{%s, %s}", "%s(%s)", "auto(){ return %s; }", "%s ? %s : 0", "sizeof(%s)", "%s++", "new int(%s)", "%s.size", "int(%s)", "%s = %s", "duplicate(%s)", "%s with <int>(%s)", "%s.%s", "auto ref(%s)", "<i>{ %s; }", "%s ref"]).replace("%s", x)
        elif k == "args":
            c = idx(lambda x: x == "(")
            if c:
                i = src.pick(c); j = close(t, i)
                if j:
                    w = src.i(4)
                    if w == 0: t[i + 1:j - 1] = []
                    elif w == 1: t[j - 1:j - 1] = [", ", src.pick(t) if src.p(50) else "1"]
                    elif w == 2: t[i + 1:j - 1] = t[i + 1:j - 1] + [", "] + t[i + 1:j - 1]
                    else: t[i + 1:i + 1] = [src.pick(["int a, ", "generic a, ", "auto ref[] a, ", "@T a, ", "1, ", "x, "])]
        elif k == "wrap":
            sts = statements(t)
            if sts:
                a, b = src.pick(sts); w = src.pick([("if(1){ ", " }"), ("class Q{ ", " }"), ("namespace Q{ ", " }"), ("auto q(generic x){ ", " }"), ("coroutine int q(){ ", " yield 1; }"), ("for(i in {1, 2}){ ", " }"), ("@if(1){ ", " }"), ("auto z = auto(){ ", " };"), ("switch(1){ case 1: ", " }"), ("class W<T>{ ", " } W<int> w;"), ("int int:q(){ ", " }"), ("enum Q{ ", " }"), ("{ ", " }"), ("while(0) ", "")])
                t[b:b] = [w[1]]; t[a:a] = [w[0]]
        elif k == "modifier":
            i = src.i(len(t) + 1); t[i:i] = [" ", src.pick(["coroutine ", "explicit ", "ref ", "[] ", "override ", "extendable ", ": ", "align(8) ", "noalign ", "const ", "<T> ", "<@T> ", ".", "@ ", "auto ", "new ", "&", "*", "accessor "])]
        elif k == "member" and ids:
            i = src.pick(ids); t[i] = src.pick(["this", "x", "size", "type", "target", "isReference", "argument", "first", "last", "rest", "hasMember", "finalize", "operator+", "Foo", "Foo:Foo", "yield", "create", "value", "$"])
        if not t: t = ["x"]
    return "".join(t)[:6000], ops

# families of deep or long texts: f(n) -> text
def _rep(a, m, b): return lambda n: a * n + m + b * n
FAM = {
    "paren": lambda n: "return " + "(" * n + "1" + ")" * n + ";",
    "paren_open": lambda n: "return " + "(" * n,
    "bracket": lambda n: "int[] a; return " + "a[" * n + "0" + "]" * n + ";",
    "block": lambda n: "{" * n + "int a;" + "}" * n,
    "block_open": lambda n: "{" * n,
    "if": lambda n: "if(1) " * n + "return 1;",
    "if_block": lambda n: "if(1){" * n + "}" * n,
    "elseif": lambda n: "int x; " + "".join("if(x == %d) x = 1; else " % i for i in range(n)) + "x = 5;",
    "for": lambda n: "for(;;) " * n + ";",
    "while": lambda n: "while(1) " * n + "int x;",
    "dowhile": lambda n: "do{ " * n + "}while(0);" * n,
    "switch": lambda n: "switch(1){ case 1: " * n + "}" * n,
    "ternary": lambda n: "return " + "1 ? " * n + "1" + " : 0" * n + ";",
    "ternary_r": lambda n: "return " + "1 ? 2 : " * n + "3;",
    "neg": lambda n: "return " + "- " * n + "1;",
    "not": lambda n: "return " + "!" * n + "true;",
    "bitnot": lambda n: "return " + "~" * n + "1;",
    "deref": lambda n: "int ref a; return " + "*" * n + "a;",
    "addr": lambda n: "int a; return " + "&" * n + "a;",
    "addr2": lambda n: "int a; auto b = " + "& " * n + "a;",
    "plus": lambda n: "return 1" + " + 1" * n + ";",
    "pow": lambda n: "return 1" + " ** 1" * n + ";",
    "assign": lambda n: "int a; a" + " = a" * n + ";",
    "andand": lambda n: "int a; return a" + " && a" * n + ";",
    "mixed": lambda n: "int a; return " + "a + (a * " * n + "1" + ")" * n + ";",
    "member": lambda n: "class A{ A ref a; } A a; a" + ".a" * n + ";",
    "index": lambda n: "int[] a; a" + "[0]" * n + ";",
    "call": lambda n: "int f(int a){ return a; } return " + "f(" * n + "1" + ")" * n + ";",
    "callchain": lambda n: "auto f(){ return 1; } return f" + "()" * n + ";",
    "pipe": lambda n: "int int:f(){ return *this; } return 1" + ".f()" * n + ";",
    "arrtype": lambda n: "int" + "[]" * n + " a;",
    "arrtype_sz": lambda n: "int" + "[2]" * n + " a;",
    "arrtype_1": lambda n: "int" + "[1]" * n + " a;",
    "reftype": lambda n: "int" + " ref" * n + " a;",
    "functype": lambda n: "int" + " ref(int)" * n + " a;",
    "functype_in": lambda n: "int ref(" * n + "int" + ")" * n + " a;",
    "arraylit": lambda n: "auto a = " + "{" * n + "1" + "}" * n + ";",
    "arraylong": lambda n: "auto a = {" + ", ".join("1" for _ in range(n + 1)) + "};",
    "lambda": lambda n: "auto a = " + "auto(){ return " * n + "1" + "; }" * n + ";",
    "localfn": lambda n: "".join("int f%d(){ " % i for i in range(n)) + "return 1; " + "} " * n,
    "class": lambda n: "class A{ " * n + "}" * n,
    "typeof": lambda n: "typeof(" * n + "1" + ")" * n + " a;",
    "typetarget": lambda n: "int[] a; typeof(a)" + ".target" * n + " b;",
    "generic": lambda n: "class A<T>{ } " + "A<" * n + "int" + ">" * n + " a;",
    "genericdef": lambda n: "class A<T>{ T a; } " + "A<" * min(n, 3000) + "int" + "> " * min(n, 3000) + "a;",
    "genfunc": lambda n: "auto f(generic a){ return a; } return " + "f(" * min(n, 300) + "1" + ")" * min(n, 300) + ";",
    "staticif": lambda n: "@if(1){" * n + "}" * n,
    "namespace": lambda n: "".join("namespace N%d{ " % i for i in range(n)) + "int a; " + "}" * n,
    "cast": lambda n: "return " + "int(" * n + "1" + ")" * n + ";",
    "sizeof": lambda n: "return " + "sizeof(" * n + "1" + ")" * n + ";",
    "new": lambda n: "auto a = new int" + "[3]" * n + ";",
    "list": lambda n: "auto a = " + "{ yield " * n + "1" + "; }" * n + ";",
    "generator": lambda n: "auto a = " + "{ for(i in " * min(n, 200) + "{1}" + ") yield i; }" * min(n, 200) + ";",
    "shortfn": lambda n: "auto f(int ref(int) a){ return a(1); } return " + "f(<x>{ " * min(n, 13) + "1" + "; })" * min(n, 13) + ";",
    "args": lambda n: "int f(" + ", ".join("int a%d" % i for i in range(n)) + "){ return 1; } return f(" + ", ".join("1" for i in range(n)) + ");",
    "vars": lambda n: "".join("int a%d; " % i for i in range(n)),
    "members": lambda n: "class A{ " + "".join("int a%d; " % i for i in range(n)) + "} A a;",
    "funcs": lambda n: "".join("int f(int%s a){ return 1; } " % (" ref" * (i % 50) + "[]" * (i // 50)) for i in range(min(n, 1500))) + "return f(1);",
    "enum": lambda n: "enum E{ " + ", ".join("A%d" % i for i in range(n + 1)) + " }",
    "cases": lambda n: "switch(1){ " + "".join("case %d: 1; " % i for i in range(n)) + "}",
    "longname": lambda n: "int " + "a" * n + "; return " + "a" * n + ";",
    "longname_class": lambda n: "class " + "a" * n + "{} " + "a" * n + "[] x;",
    "longname_fn": lambda n: "int " + "a" * n + "(int " + "b" * n + "){ return 1; } return " + "a" * n + "(1, 2);",
    "longname_undef": lambda n: "return " + "a" * n + ";",
    "longname_member": lambda n: "class A{ int " + "a" * n + "; } A x; return x." + "a" * n + "z;",
    "longstring": lambda n: "char[] a = \"" + "a" * n + "\";",
    "longstring_open": lambda n: "char[] a = \"" + "a" * n,
    "longnum": lambda n: "return " + "1" * n + ";",
    "longhex": lambda n: "return 0x" + "f" * n + ";",
    "longfloat": lambda n: "return 0." + "1" * n + ";",
    "longbin": lambda n: "return " + "1" * n + "b;",
    "comment": lambda n: "/*" * n + "int a;" + "*/" * n,
    "lines": lambda n: "\n" * n + "x y z;",
    "longline": lambda n: " " * n + "x y z;",
    "import": lambda n: "import " + "a." * n + "b;",
    "import_long": lambda n: "import " + "a" * n + ";",
    "typealias": lambda n: "class A{} " + "".join("typedef %s T%d; " % ("A" if i == 0 else "T%d ref" % (i - 1), i) for i in range(n)),
    "inherit": lambda n: "class A0 extendable{} " + "".join("class A%d: A%d{} " % (i + 1, i) for i in range(n)) + "A%d a;" % n,
    "error_types": lambda n: "int f(int" + "[]" * n + " a){ return 1; } f(1);",
    "error_args": lambda n: "int f(int a){ return 1; } f(" + ", ".join("1.0" for _ in range(n)) + ");",
    "overl_err": lambda n: "".join("int fo(int%s a){ return 1; } " % (" ref" * (i % 30) + "[]" * (i // 30)) for i in range(min(n, 700))) + "class Q{} Q q; fo(q);",
    "coroutine": lambda n: "coroutine int f(){ " + "yield 1; " * n + "}",
    "return": lambda n: "return 1;" * n,
    "with_defaults": lambda n: "int f(" + ", ".join("int a%d = %d" % (i, i) for i in range(n)) + "){ return 1; } f();",
    "semicolons": lambda n: ";" * n,
    "rbrace": lambda n: "}" * n,
    "errors": lambda n: "int a = b; " * n,
    "errors2": lambda n: "class " * n,
    "errors3": lambda n: "int ( ; " * n,
}
NAMES = sorted(FAM)
SIZES = [(6, 1), (6, 2), (10, 5), (12, 20), (12, 60), (10, 120), (8, 200), (4, 255), (4, 256), (4, 257), (6, 500), (3, 1023), (3, 1024), (3, 1025), (3, 2000), (2, 4096), (1, 9000), (1, 20000), (1, 66000)]
SLOW = 1500     # families take up to quadratic time: longer texts that are not finished in 2.5 s are not judged

LANG = [Opt(), Opt(classes=95, methods=95), Opt(fnvals=70, closures=60, coroutines=60)]

def setup():
    worker.build_worker("asan"); worker.build_worker("plain")

class Ctx:
    def __init__(self):
        self.a = worker.Worker("asan", stderr=open(os.devnull, "w")); self.p = worker.Worker("plain", stderr=open(os.devnull, "w"))
    def close(self): self.a.close(); self.p.close()

def gen(src, ctx):
    k = src.w([(30, "mut"), (44, "sem"), (7, "nest"), (12, "lang"), (5, "cat"), (5, "vocab"), (3, "bytes"), (4, "asis")])
    c = {"kind": k, "opt": src.i(3), "how": src.w([(70, "build"), (12, "module"), (10, "analyze"), (8, "compile")])}
    if k == "nest":
        c["family"] = src.pick(NAMES); c["n"] = src.w(SIZES) if src.p(85) else src.i(1500)
        return c
    if k == "mut": c["code"], c["ops"] = mutate(src, src.pick(SHORT if src.p(85) else CORPUS))
    elif k == "sem":
        t = src.pick(GOOD)
        if src.p(20): t += "\n" + src.pick(GOOD)
        c["code"], c["ops"] = semantic(src, t)
    elif k == "lang":
        try:
            code = langgen.G(src, src.pick(LANG)).program().render()
        except Exception: code = None
        if code is None: return None
        c["code"], c["ops"] = (semantic if src.p(60) else mutate)(src, code)
    elif k == "cat":
        t = "\n".join(src.pick(SHORT) for _ in range(src.rng(2, 4)))
        c["code"], c["ops"] = mutate(src, t) if src.p(60) else (t, [])
    elif k == "vocab": c["code"] = " ".join(src.pick(VOCAB) for _ in range(src.rng(1, 40)))
    elif k == "asis": c["code"] = src.pick(CORPUS)
    else: c["code"] = "".join(chr(src.i(256)) if src.p(50) else chr(32 + src.i(95)) for _ in range(src.rng(0, 60)))
    return c

def text(case): return FAM[case["family"]](case["n"]) if case["kind"] == "nest" else case["code"]

LINE = re.compile(r"at line (\d+)")
MODULES = None
def run(case, ctx):
    code = text(case); how = case["how"]
    w = ctx.p if case["kind"] == "nest" else ctx.a
    code = code.split("\0")[0]
    ops = [["opt", case["opt"]]]
    if how == "module": ops += [["loadsrc", "badmod", code]]
    else: ops += [[how, code]]
    ops += [["lasterr"], ["build", AFTER], ["run"], ["result"]]
    big = case["kind"] == "nest" and case["n"] > SLOW
    r = w.run(ops, timeout_ms=2500 if big else 20000)
    b = r[1]; out = Outcome(evals=1)
    ok = b is not None and b.ok
    out.labels = [case["kind"] + (":" + ("accepted" if ok else "rejected")), "how:" + how] + (["family:" + case["family"]] if case["kind"] == "nest" else [])
    out.nontrivial = b is not None
    out.key = None
    out.sample = {"kind": case["kind"], "accepted": ok, "text": code[:300], "error": (b.err if b is not None else "")[:200]}
    def bad(kind, what):
        out.kind = kind; out.violation = "%s (optimization %d, %s)\n--- text (%d bytes)\n%s" % (what, case["opt"], how, len(code), code[:3000])
        return out
    if r.status != "exit0":
        if big and r.timeout:
            out.nontrivial = False; out.labels = ["nest:not finished"]; return out
        if b is None:
            return bad("crash" if not r.timeout else "timeout", "compilation ended the process: " + r.status)
        return bad("after-crash", "after %s text the next program ended the process: %s" % ("an accepted" if ok else "a rejected", r.crash_text()))
    if not ok:
        e = r[2].err or (r[2].data[0] if r[2].data else "") or b.err
        if not e.strip(): return bad("noerror", "rejected without an error text")
        nl = code.count("\n") + 1
        m = [int(x) for x in LINE.findall(e)]
        if not m and not e.startswith("Link Error: ") and len(e) < 30000:
            return bad("noline", "rejected without naming a line: %r" % e[:300])
        if m and "in module" not in e and (m[0] < 1 or m[0] > nl):
            return bad("badline", "error names line %d of a text with %d lines: %r" % (m[0], nl, e[:300]))
    if r[3] is None or not r[3].ok: return bad("after", "after this text (%s) the next valid program is rejected: %r" % ("accepted" if ok else "rejected", r[3] and r[3].err[:300]))
    if not r[4].ok or r[5].data[1] != AFTER_RESULT: return bad("after", "after this text the next valid program computes %r %r" % (r[4].err[:200], r[5].data))
    return out

def reduce(case, choices):
    if case["kind"] == "nest":
        for n in (1, 2, 5, 20, 60, 120, 256, 500, 1024, 2000, 4096, 9000, 20000, case["n"] // 2, case["n"] * 3 // 4):
            if n < case["n"]: yield dict(case, n=n)
        return
    t = tokens(case["code"]); k = max(1, len(t) // 2)
    while k >= 1:
        for i in range(0, len(t), k):
            yield dict(case, code="".join(t[:i] + t[i + k:]))
        k //= 2
def show(case): return text(case)[:4000]
