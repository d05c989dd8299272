"""C19: layout, comments and naming of the source text do not change a program; reported lines follow the text."""
import re, os, json, glob
import lang, langgen, langrun, langprop, layout
from langprop import Ctx
from langgen import Opt
from layout import tokenize, BadText
from engine import Outcome, VERIF
import build

ID = "C19"
RULE = "a program (valid, faulting or rejected) of at least 12 tokens whose rewritten text differs from the original and which gave the same answer, or was rejected at the same token"
ASSUMPTIONS = ["lines of errors are judged through the variant with one token per line: it names the token of the error, every other layout has to report the line that token is on",
               "renaming is applied to the identifiers a generated program declares; blocks are added around expression statements, parentheses around any operand"]
N = {"quick": 14000, "thorough": 300000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 1500, "thorough": 15000}

C = json.load(open(os.path.join(VERIF, "corpus", "snippets.json")))
def usable(s):
    if len(s) > 1500: return False
    try: t, g = tokenize(s)
    except BadText: return False
    return 3 <= len(t) < 400
GOOD = [s for s in C["good"] if usable(s)]; BAD = [s for s in C["bad"] if usable(s) and len(s) < 700]
del C
MIX = [Opt(), Opt(size=8), Opt(faults=40, size=8), Opt(fnvals=60, closures=60, coroutines=50, size=10), Opt(arrays=95, classes=90, refs=90, faults=20), Opt(recursion=70, methods=90, mainfn=90, jumps=True)]

WORDS = None
def reserved():
    """identifiers that mean something outside of the program"""
    global WORDS
    if WORDS is None:
        WORDS = set("ti tl td ts stop vt".split())
        for f in [os.path.join(build.REPO, "NULLC", "Compiler.cpp"), os.path.join(build.REPO, "NULLC", "Lexer.cpp")]:
            WORDS |= set(re.findall(r"[A-Za-z_]\w*", open(f, encoding="latin-1").read()))
        # words of messages and of the harness' value dumps
        for f in glob.glob(os.path.join(build.REPO, "NULLC", "*.cpp")):
            for t in re.findall(r'"((?:[^"\\\n]|\\.)*)"', open(f, encoding="latin-1").read()): WORDS.update(re.findall(r"[A-Za-z_]\w*", t))
        WORDS |= set("fn null ptr autoarr typeid inf nan deep badtype x d f i l s".split())
        WORDS |= set("if else for while do switch case default break continue return yield coroutine class enum namespace import typedef typeof auto ref new with noalign align in sizeof operator generic true false nullptr const extendable".split())
    return WORDS

OWN = re.compile(r"[a-zA-Z]+\d+$")
def renaming(toks, src):
    res = reserved()
    names = []
    for t, _ in toks:
        if OWN.match(t) and t not in res and t not in names: names.append(t)
    used = set(res) | set(names); m = {}
    for n in names: m[n] = layout.fresh(src, used, n[0] == "g")
    return m

def breakit(src, toks, glue):
    """a token level edit; most results are rejected by the compiler"""
    toks = list(toks); glue = list(glue)
    for _ in range(src.w([(8, 1), (3, 2), (1, 4)])):
        if not toks: break
        i = src.i(len(toks)); k = src.i(5)
        if k == 0: del toks[i]; del glue[i]
        elif k == 1: toks.insert(i, toks[i]); glue.insert(i, False)
        elif k == 2: toks[i] = src.pick(toks)
        elif k == 3: toks[i] = (src.pick(["int", "x", "0", "\"s\"", "(", ")", "{", "}", ";", "ref", "auto", "C1", "1.5", "nullptr", "return", "=", "+", ".", "@", "for", "class", "[", "]"]), toks[i][1])
        else:
            j = min(len(toks) - 1, i + 1); toks[i], toks[j] = toks[j], toks[i]
    return toks, [False] * len(toks)

def gen(src, ctx):
    kind = src.w([(34, "lang"), (18, "rename"), (12, "paren"), (16, "corpus"), (10, "bad"), (10, "broken")])
    c = {"kind": kind}
    opt = src.i(3); c["cf"] = [0 if src.p(70) else 1, opt]
    if kind in ("corpus", "bad"):
        c["a"] = code = src.pick(GOOD if kind == "corpus" else BAD)
        c["cf"][0] = 0
    else:
        P = langgen.G(src, src.pick(MIX)).program()
        code = P.render()
        if len(code) > 9000: return None
        c["a"] = code
        if kind == "paren":
            try: lang_paren(src, P, c)
            finally: lang.PAREN = lang.BRACE = None
            if c["b"] == c["a"]: return None
            return c
    toks, glue = tokenize(code)
    if kind == "broken":
        if len(toks) < 8: return None
        toks, glue = breakit(src, toks, glue)
        c["cf"][0] = 0
    if kind == "rename":
        m = renaming(toks, src); c["map"] = {v: k for k, v in m.items()}
        t2 = [(m.get(t, t), l) for t, l in toks]
    else: t2 = toks
    if kind == "broken" or src.p(15):
        # the original is any layout
        c["a"], la = layout.layout(toks, [False] * len(toks), src, src.pick(["sparse", "oneline", "lines"]))
    else: la = [l for _, l in toks]
    c["la"] = la
    c["x"], _ = layout.layout(toks, glue, src, "explode")
    c["b"], c["lb"] = layout.layout(t2, glue, src, src.pick(["mixed", "lines", "spaces", "oneline", "sparse"]))
    return c

def lang_paren(src, P, c):
    base = src.pick([10, 30, 60])
    NO = (lang.Lit, lang.Null)
    def paren(e, p): return not isinstance(e, NO) and p <= 90 and src.p(base)
    lang.PAREN = paren
    if src.p(50) and c["cf"][1] == 0:
        lang.BRACE = lambda: src.p(40)
    c["b"] = P.render()

def obs(ctx, code, cf):
    return langrun.observe(ctx.w.run(langrun.ops(code, cf[0], cf[1])))

def back(s, m):
    if not m or not s: return s
    return re.sub(r"[A-Za-z_]\w*", lambda x: m.get(x.group(0), x.group(0)), s)

def norm(o, m):
    """everything the host saw, without positions and quoted source text; and the reported lines"""
    lines = []
    err = o.err or ""
    if o.built is False:
        t, lines = layout.message_parts(err)
        err = t
    elif o.ok is False:
        st = langrun.stack_lines(err)
        head = err.replace("\r", "").split("Call stack:\n")[0]
        if st is not None and langrun.errclass(err) != "overflow":
            lines = [l for _, l in st]; err = head + repr([f for f, _ in st])
        elif langrun.errclass(err) == "overflow": err = "overflow"
        else: lines = None
    return [o.status, o.built, o.ok, back(err, m), back(repr(o.result) if o.ok else "", m), o.trace, back(o.globals, m), len(o.err or "")], lines

NAMES = ["status", "build accepted", "run finished", "error", "result", "host calls", "globals"]
def differs(x, y):
    if x[3] != y[3] and x[1] is False and y[1] is False:
        # the error buffer of the compiler is limited and quotes the source: the end of a long list may be cut
        a, b = (v[3].split("ERROR:") for v in (x, y)); n = min(len(a), len(b)) - 1
        if (n >= 5 or n >= 1 and max(x[7], y[7]) > 30000) and a[:n] == b[:n]: x = list(x); x[3] = y[3]
    for n, a, b in zip(NAMES, x, y):
        if a != b:
            if n == "error":
                k = 0; u = a.split("ERROR:"); v = b.split("ERROR:")
                while k < len(u) and k < len(v) and u[k] == v[k]: k += 1
                return n, "message %d of %d and %d:%s\nand\n%s" % (k, len(u) - 1, len(v) - 1, "ERROR:".join(u[k:k + 2])[:1500], "ERROR:".join(v[k:k + 2])[:1500])
            return n, "%s: %s and %s" % (n, str(a)[:1500], str(b)[:1500])

def run(case, ctx):
    cf = case["cf"]; kind = case["kind"]
    a = obs(ctx, case["a"], cf)
    out = Outcome(labels=[kind, "optimization %d" % cf[1]], sample=(case["b"][:500]))
    if a.status in ("sig27", "sig14", "sig24"):
        out.labels.append("original does not finish"); return out
    na, la = norm(a, None)
    b = obs(ctx, case["b"], cf); out.evals = 2
    nb, lb = norm(b, case.get("map"))
    if b.status != "exit0" and a.status == b.status:
        out.labels.append("original crashes"); return out   # C05 and C06 decide this
    def bad(k, t): 
        out.violation = "%s (%s)\n--- original\n%s\n--- rewritten\n%s" % (t, "executor %d optimization %d" % tuple(cf), case["a"], case["b"]); out.kind = kind + ":" + k
        return out
    d = differs(na, nb)
    if d and kind == "corpus" and (a.built and re.search(r"\d{6,}", d[1])): d = None if unstable(ctx, case, na, cf) else d
    if d: return bad(d[0], d[1])
    out.labels.append("rejected" if a.built is False else ("fault" if a.ok is False else "finished"))
    out.nontrivial = len(case.get("la", [0] * 12)) >= 12
    if kind == "paren":
        if la != lb: return bad("lines", "lines %r and %r" % (la, lb))
        return out
    if la:
        x = obs(ctx, case["x"], cf); out.evals = 3
        nx, lx = norm(x, None)
        d = differs(na, nx)
        if d: return bad("explode " + d[0], "one token per line: " + d[1])
        if a.built is False: k = min(len(la), len(lx), len(lb)); la, lx, lb = la[:k], lx[:k], lb[:k]
        if len(la) != len(lx) or len(la) != len(lb): return bad("lines", "number of reported lines: %r %r %r" % (la, lx, lb))
        n = len(case["la"])
        inner = None
        for i, (p, q, r) in enumerate(zip(la, lx, lb)):
            if q < 1 or q > n: 
                return bad("lines", "a line outside of the text is reported: %d of %d tokens" % (q, n))
            for got, where, text in ((p, case["la"], case["a"]), (r, case["lb"], case["b"])):
                want = where[q - 1]
                if got != want and not (q == n and want <= got <= text.count("\n") + 1):
                    tok = tokenize(case["x"])[0][q - 1][0]
                    return bad("lines", "reported line %d, the token of the error ('%s', number %d) is on line %d\n%s" % (got, tok, q, want, a.err if text is case["a"] else b.err))
        out.labels.append("lines checked")
    return out

def unstable(ctx, case, na, cf):
    """the original itself prints addresses or times"""
    for _ in range(3):
        n2, _ = norm(obs(ctx, case["a"], cf), None)
        if n2 != na: return True
    return False

def show(case): return case["a"] + "\n--- rewritten\n" + case["b"]
