"""C09: moving declarations to modules, and saving and reloading modules as bytecode, changes nothing."""
import re, os, json
import worker, langgen, langrun, langprop, layout, zoo
from langgen import Opt
from engine import Outcome, VERIF

ID = "C09"
RULE = "a program of at least four top-level items of which at least two went to modules that were all accepted, and whose run made a host call, changed a global or returned a value"
ASSUMPTIONS = ["the items of a program keep their order: module i gets the items between two cut points and is imported after module i-1",
               "a `return` at the top level stays in the importing program (in a module it ends the whole program)",
               "programs of the corpus that print addresses, type indices, time or random numbers are not used"]
N = {"quick": 5000, "thorough": 120000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

C = json.load(open(os.path.join(VERIF, "corpus", "snippets.json")))
VOL = re.compile(r"clock|rand|\btime\b|UsedMemory|GC\.|hash_value|__hash|typeid\(|typeid|std\.file|std\.gc|canvas|window|std\.dynamic|instance_of|override|std\.typeinfo|std\.debug|__")
GOOD = [s for s in C["good"] if len(s) < 4000 and not VOL.search(s)]
del C
OPTS = [Opt(), Opt(size=10), Opt(arrays=95, classes=90, refs=90), Opt(fnvals=60, closures=60, coroutines=50), Opt(faults=30), Opt(methods=90, recursion=60)]

class Ctx(langprop.Ctx):
    def __init__(self): langprop.Ctx.__init__(self); self.cache = {}
def setup(): worker.build_worker("plain")

PROTO = re.compile(r"(?:^|[;{}]\s*)(?!(?:return|yield|new|else|in|import|assert)\b)\w+[\w\[\] >]* \w+\([^(){}=;]*(?:=[^(){};]*)?\);")
CONT = {"else", "while", "in"}
def split(code):
    """(imports, items) of a text, None when a `return` or something else makes the split unclear"""
    try: toks, glue = layout.tokenize(code)
    except layout.BadText: return None
    T = [t for t, _ in toks]; imps = []; items = []; i = 0
    while i < len(T) and T[i] == "import":
        j = T.index(";", i) if ";" in T[i:] else None
        if j is None: return None
        imps.append("".join(T[i + 1:j])); i = j + 1
    cur = []; d = 0
    def text(k, l):
        return "".join((" " if not glue[q] and q > k else "") + T[q] for q in range(k, l))
    st = i
    while i < len(T):
        t = T[i]
        if t in "([{" and len(t) == 1: d += 1
        elif t in ")]}" and len(t) == 1:
            d -= 1
            if d < 0: return None
        end = False
        if d == 0 and t == ";" : end = i + 1 == len(T) or T[i + 1] not in CONT
        if d == 0 and t == "}" : end = i + 1 == len(T) or (re.match(r"[A-Za-z_]\w*$", T[i + 1]) is not None and T[i + 1] not in CONT)
        i += 1
        if end:
            items.append(text(st, i)); st = i
    if st < len(T): items.append(text(st, len(T)))
    return imps, items

def gen(src, ctx):
    q = src.i(100)
    if q < 25:
        items = zoo.program(src)
        if items is None: return None
        imps = []; expect = None; whole = "\n".join(items)
    elif q < 70:
        P = langgen.G(src, src.pick(OPTS)).program()
        c = langprop.finish(P, 12000, 12000)
        if c is None: return None
        L = P.render().split("\n"); st = [s.line for s in P.top]
        if any(st[i] >= st[i + 1] for i in range(len(st) - 1)): return None
        st.append(len(L) + 1)
        imps = list(P.imports); items = ["\n".join(L[st[i] - 1:st[i + 1] - 1]) for i in range(len(P.top))]; expect = c["expect"]; whole = c["code"]
    else:
        whole = src.pick(GOOD); r = split(whole)
        if r is None: return None
        imps, items = r; expect = None
        # a prototype and its implementation stay in one module
        if any(PROTO.search(t) for t in items): return None
    n = len(items)
    stop = next((i for i, t in enumerate(items) if re.search(r"\breturn\b|\byield\b", t) and (re.match(r"(return|if|for|while|do|\{|switch|yield)\b", t.strip()) or not expect and re.match(r"\{", t.strip()))), n)
    if expect and stop == n: stop = n - 1
    stop = min(stop, n - 1)   # a program without any code is an error
    if stop < 1: return None
    k = src.w([(5, 1), (4, 2), (3, 3)])
    cuts = sorted(set(src.rng(1, stop) for _ in range(k)))
    mods = []; prev = 0
    for i, c in enumerate(cuts):
        mods.append({"items": [prev, c], "how": src.pick(["src", "src", "bin", "fresh", "cached"]), "opt": src.i(3), "imports": None})
        # what the module imports of the earlier ones: all of them, or the last one (which brings the others), in any order
        mods[-1]["imports"] = perm(src, list(range(i)), src.p(50))
        prev = c
    return {"whole": whole, "imps": imps, "items": items, "mods": mods, "main": perm(src, list(range(len(mods))), src.p(50)), "first": src.i(2), "expect": expect, "cfg": [src.i(2), src.i(3)],
            "folder": src.i(3), "relink": src.p(30)}

def perm(src, l, all_):
    """order of the imports: the last module or all of them (earlier ones may be named again, before or after)"""
    if not l: return []
    if not all_: return [l[-1]]
    return l if src.p(60) else [l[-1]] + l[:-1]

OBS = [["result"], ["trace"], ["globals", ""], ["out"]]
NAMED = re.compile(r"^g", re.M)
def plain(g, gen):
    """globals of both programs in one order: block variables of a module may be placed elsewhere; generated programs name the others with g"""
    L = g.split("\n")
    if gen: return "\n".join(l for l in L if l.startswith("g"))
    return sorted(re.sub(r"[&#]\d+", "&", l) for l in L)
def seen(r, i):
    b = r[i]
    if b is None: return None
    if not b.ok: return ("rejected", b.err)
    x = r[i + 1]
    if x is None: return None
    o = [r[i + 2 + k] for k in range(4)]
    if any(v is None for v in o): return None
    e = "" if x.ok else langrun.errclass(x.err)
    ovf = e == "overflow"
    return (x.ok, e, tuple(o[0].data) if x.ok else "", "" if ovf else o[1].data[0], "" if ovf else o[2].data[0], o[3].data[0])

def names(case):
    return [["m%d", "d.m%d", "d.e_%d.m"][case["folder"]] % i for i in range(len(case["mods"]))]

def texts(case):
    nm = names(case); out = []
    def head(ms):
        a = ["import %s;" % x for x in case["imps"]]; b = ["import %s;" % nm[i] for i in ms]
        return "\n".join(a + b if case["first"] == 0 else b + a) + "\n"
    for m in case["mods"]:
        out.append(head(m["imports"]) + "\n".join(case["items"][m["items"][0]:m["items"][1]]) + "\n")
    return out, head(case["main"]) + "\n".join(case["items"][case["mods"][-1]["items"][1]:]) + "\n"

def run(case, ctx):
    ex, op = case["cfg"]; key = (case["whole"], ex, op); n = 1
    out = Outcome(labels=["%d modules" % len(case["mods"])] + sorted(set(m["how"] for m in case["mods"])) + (["generated"] if case["expect"] else ["declarations" if re.search(r"\bg\d+ = ", case["whole"]) else "corpus"]), sample=show(case)[:700])
    r = ctx.w.run([["exec", ex], ["opt", op], ["build", case["whole"]], ["run"]] + OBS)
    if not r.clean or r.timeout: out.labels.append("whole program does not finish"); out.evals = 1; return out
    ref = seen(r, 2)
    if ref[0] == "rejected": out.labels.append("whole program rejected"); out.evals = 1; return out
    mods, main = texts(case); nm = names(case)
    setup = []; frozen = {}
    for i, (m, t) in enumerate(zip(case["mods"], mods)):
        how = m["how"]
        if how in ("src", "cached"): new = [["opt", m["opt"]], ["loadsrc", nm[i], t]]
        elif how == "bin": new = [["opt", m["opt"]], ["compile", t], ["bytecode", "b%d" % i, "nocache"], ["clean"], ["loadbin", nm[i], "b%d" % i]]
        else:
            # compiled in another process
            ops2 = setup + [["opt", m["opt"]], ["compile", t], ["bytecode", "b%d" % i, "nocache"], ["getslot", "b%d" % i]]
            q = ctx.w.run(ops2); n += 1
            if not q.clean: return fail(out, n, case, "crash", "compiling module %s: the host ended with %s" % (nm[i], q.status))
            a, b = q[len(ops2) - 3], q[len(ops2) - 1]
            if not a.ok: return fail(out, n, case, "module rejected " + gist(a.err), "module %s was rejected: %s" % (nm[i], a.err))
            new = [["setslot", "b%d" % i, b.data[0]], ["loadbin", nm[i], "b%d" % i]]
        if how == "cached": new += [["modbc", nm[i].replace(".", "/") + ".nc", "b%d" % i], ["remmod", nm[i].replace(".", "/") + ".nc"], ["loadbin", nm[i], "b%d" % i]]
        setup = setup + new
    ops = setup + [["exec", ex], ["opt", op], ["build", main], ["run"]] + OBS
    k = len(setup) + 2
    ops = ops[:k + 1]
    r = ctx.w.run(ops); n += 1     # a host runs only what was built
    if r.clean and not r.timeout and all(x.ok for x in r.r):
        ops += [["run"]] + OBS
    if case["relink"] and len(ops) > k + 1:
        ops += [["compile", main], ["bytecode", "main", "nocache"], ["clean"], ["link", "main"], ["run"]] + OBS + [["exec", ex], ["run"]] + OBS
    if len(ops) > k + 1: r = ctx.w.run(ops); n += 1
    if r.timeout: out.labels.append("time"); out.evals = n; return out
    if not r.clean: return fail(out, n, case, "crash", "the host ended with %s in call %d (%s)" % (r.status, len(r.r), ops[min(len(r.r), len(ops) - 1)][0]))
    for i in range(k):
        if ops[i][0] in ("loadsrc", "loadbin", "compile", "bytecode", "modbc") and not r[i].ok:
            return fail(out, n, case, "module rejected " + gist(r[i].err), "%s of module was rejected: %s" % (ops[i][0], r[i].err))
    s = seen(r, k)
    if s[0] == "rejected": return fail(out, n, case, "rejected " + gist(s[1]), "the importing program was rejected: " + s[1])
    d = differ(ref, s, bool(case["expect"]))
    if d and not allowed(case, s, ref): return fail(out, n, case, "differs " + d, "split program: %s\nwhole program: %s" % (s, ref))
    if case["relink"]:
        for j, what in ((k + 9, "linked from saved bytecode"), (k + 15, "run again from saved bytecode")):
            s = seen(r, j)
            if s is None or s[0] == "rejected": return fail(out, n, case, "image rejected", "the saved image was rejected: %s" % (s,))
            d = differ(ref, s, bool(case["expect"]))
            if d and not allowed(case, s, ref): return fail(out, n, case, "image differs " + d, "%s: %s\nwhole program: %s" % (what, s, ref))
    out.evals = n
    out.nontrivial = len(case["items"]) >= 4 and sum(m["items"][1] - m["items"][0] for m in case["mods"]) >= 2 and bool(ref[3] or ref[4] or (ref[2] and ref[2][1:]))
    return out

def differ(a, b, gen=False):
    for i, w in enumerate(["outcome", "fault", "result", "trace", "globals", "output"]):
        x, y = a[i], b[i]
        if w == "result" and x and y: x, y = x[1:], y[1:]   # the number of a type is not kept
        if w == "globals":
            if not a[0]: continue
            x, y = plain(x, gen), plain(y, gen)
        if x != y: return w
    return None

def allowed(case, s, ref):
    """optimized code may leave out faulting reads whose value is not used: parts compiled at different levels may differ then"""
    x = case["expect"]
    if x is None: return not s[0] or not ref[0]
    return any((not v["fault"]) == s[0] and (s[0] or v["fault"] == s[1]) and v["trace"] == s[3] for v in x[1:]) or (not s[0] and x[0]["fault"] == s[1] and x[0]["trace"] == s[3])

def gist(e): return re.sub(r"'[^']*'", "*", e.split("\n")[0])[:60]
# functions of other modules are not evaluated at compile time
def fail(out, n, case, kind, t):
    if "rejected" in kind and "evaluated" in t: out.evals = n; out.labels.append("constant needs a function of another module"); return out
    if "rejected" in kind and "register count overflow" in t: out.evals = n; out.labels.append("register limit"); return out   # depends on the optimization level of the part
    out.evals = n; out.kind = kind; out.violation = t + "\n--- " + show(case); return out

def show(case):
    mods, main = texts(case); nm = names(case)
    return "executor %d optimization %d\n" % tuple(case["cfg"]) + "".join("--- module %s (%s, optimization %d)\n%s" % (a, m["how"], m["opt"], t) for a, m, t in zip(nm, case["mods"], mods)) + "--- main\n" + main

# a class of one function or block and another class of the same name in the same program: types are found by name
REDEF = [re.compile(r"'(\w+)' is being redefined"), re.compile(r"type (\w+) is redefined \(\w+\) with a different size"), re.compile(r"function (\w+)::\w+\$? \(type .*\) is already defined")]
def match_known(case, out):
    for x in REDEF:
        m = x.search((out.violation or "").split("\n---")[0])
        if m and len(re.findall(r"\bclass\s+%s\b" % m.group(1), "\n".join(case["items"]))) > 1: return "local-class-names"
    return None

def reduce(case, choices):
    c = case
    def w(**k): d = dict(c); d.update(k); return d
    for i, m in enumerate(c["mods"]):
        if m["how"] != "src": yield w(mods=[dict(x, how="src") if j == i else x for j, x in enumerate(c["mods"])])
        if m["opt"]: yield w(mods=[dict(x, opt=0) if j == i else x for j, x in enumerate(c["mods"])])
    if c["relink"]: yield w(relink=False)
    if c["folder"]: yield w(folder=0)
    if c["cfg"] != [0, 0]: yield w(cfg=[0, 0])
    if len(c["mods"]) > 1:
        m = c["mods"]; yield w(mods=[dict(m[0], items=[0, m[0]["items"][1]], imports=[])], main=[0])
        yield w(mods=[dict(m[-1], items=[0, m[-1]["items"][1]], imports=[])], main=[0])
    for i in range(len(c["items"])):
        def sh(x): return x - (1 if x > i else 0)
        if c["mods"][-1]["items"][1] - (1 if c["mods"][-1]["items"][1] > i else 0) >= len(c["items"]) - 1: continue
        it = c["items"][:i] + c["items"][i + 1:]
        mods = [dict(m, items=[sh(m["items"][0]), sh(m["items"][1])]) for m in c["mods"]]
        yield w(items=it, mods=mods, expect=None, whole="".join("import %s;\n" % x for x in c["imps"]) + "\n".join(it))
    for x in c["imps"]:
        im = [y for y in c["imps"] if y != x]
        yield w(imps=im, expect=None, whole="".join("import %s;\n" % x for x in im) + "\n".join(c["items"]))
