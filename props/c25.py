"""C25: the language server answers every request exactly once and mirrors the documents."""
import os, re, json, subprocess, tempfile, shutil
import build, worker, langgen
from engine import Outcome

ID = "C25"
RULE = "a history with an edit and a query after it in which some query found something or a diagnostic was published, or a structured document whose definitions and occurrences were all compared"
ASSUMPTIONS = ["documents and edits are ASCII (the server counts bytes, the protocol UTF-16 units)", "parameters are well-formed JSON of the shape the protocol prescribes; positions may lie outside the text and are clamped to it as the protocol says",
               "diagnostics are compared with the compiler's own analysis of the same text (first message and line)", "the definition/occurrence oracle covers structured documents with unique names; in other documents a returned range must hold the identifier asked about"]
N = {"quick": 2500, "thorough": 60000}
CAP = {"quick": 80, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 150, "thorough": 2000}

R = build.REPO
D = os.path.join(R, "vscode", "nullc_lang_server")
def server(v): return build.build(v, "nullc_lang_server", [os.path.join(D, "main.cpp"), os.path.join(D, "handler.cpp")], main_flags=["-std=c++17", "-I" + os.path.join(R, "external")])
def setup(): worker.build_worker("plain"); server("asan"); server("plain")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", LC_ALL="C")
SN = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "snippets.json")))
def plainsn(l): return [s for s in l if len(s) < 2500 and all(ord(c) < 127 and c != "\0" for c in s) and not re.search(r"import\s+(?!std\.)", s) and "\r" not in s.replace("\r\n", "")]
GOOD, BAD = plainsn(SN["good"]), plainsn(SN["bad"])

WM = "class WPoint{ int px; float py; }\nint wadd(int a, b){ return a + b; }\nint WPoint:wsum(){ return px + int(py); }\nint wglob = 4;\nenum WEnum{ WA, WB }\nauto wgen(generic x){ return x + x; }\n"
METHODS = ["foldingRange", "hover", "documentSymbol", "completion", "definition", "references", "documentHighlight", "signatureHelp"]
POS = {"hover", "completion", "definition", "references", "documentHighlight", "signatureHelp"}

class Ctx:
    def __init__(self):
        self.w = worker.Worker("plain"); self.sa = server("asan"); self.sp = server("plain"); self.dir = tempfile.mkdtemp(prefix="c25-"); self.cache = {}
        os.makedirs(os.path.join(self.dir, "root")); open(os.path.join(self.dir, "root", "wm0.nc"), "w").write(WM)
        self.w.run([["init"]])
    def close(self): self.w.close(); shutil.rmtree(self.dir, ignore_errors=True)
    def serve(self, msgs, asan=True):
        data = b"".join(frame(m) for m in msgs)
        try: p = subprocess.run([self.sa if asan else self.sp, "--module_path=" + os.path.join(R, "Modules") + "/"], cwd=self.dir, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
        except subprocess.TimeoutExpired: return None, [], "timeout"
        o, out, i = p.stdout, [], 0
        while i < len(o):
            m = re.match(rb"Content-Length: (\d+)\r\n\r\n", o[i:i + 80])
            if not m: return p.returncode, out, "bad framing: %r" % o[i:i + 120]
            i += m.end(); n = int(m.group(1))
            try: out.append(json.loads(o[i:i + n].decode("utf-8")))
            except Exception as e: return p.returncode, out, "bad message (%s): %r" % (e, o[i:i + n][:300])
            i += n
        return p.returncode, out, "" if p.returncode == 0 else p.stderr.decode("latin1")[-1500:]
    def analyze(self, text):
        """(ok, error text) of the compiler"""
        if text not in self.cache:
            r = self.w.run([["loadsrc", "wm0", WM], ["analyze", text]], timeout_ms=8000)
            self.cache = {} if len(self.cache) > 200 else self.cache
            self.cache[text] = (r[1].ok, r[1].err) if r.clean and not r.timeout else None
        return self.cache[text]

def frame(m):
    b = json.dumps(m).encode()
    return (b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" if len(b) % 5 == 0 else b"") + b"Content-Length: %d\r\n\r\n" % len(b) + b

# ---- documents as the client sees them
NL = re.compile("\r\n|\r|\n")
def lone(t): return "\r" in t.replace("\r\n", "")
def lines(text): return NL.split(text)
def offset(text, line, ch):
    i = 0
    for k in range(line):
        m = NL.search(text, i)
        if not m: return len(text)
        i = m.end()
    m = NL.search(text, i)
    return min(i + ch, m.start() if m else len(text))
def position(text, off):
    n = i = 0
    for m in NL.finditer(text):
        if m.end() > off: break
        n += 1; i = m.end()
    return n, off - i
def apply(text, ch):
    if ch["r"] is None: return ch["t"]
    a, b = offset(text, *ch["r"][0]), offset(text, *ch["r"][1])
    return text[:a] + ch["t"] + text[b:]

# ---- structured documents
class DocGen:
    """a program with unique names, the place of every definition and of every occurrence; a tuple (kind, name) is a mark"""
    def __init__(self, src):
        self.s = src; self.n = 0; self.toks = []; self.vars = []; self.funcs = []; self.cls = []; self.ind = 0
    def new(self, p): self.n += 1; return "%s%d%s" % (p, self.n, self.s.pick(["", "_x", "Q"]))
    def out(self, *a): self.toks.extend(a)
    def nl(self): self.out(self.s.pick(["\n", "\n", "\n\n", " ", "\n/* c */ ", " // t\n"]) + "\t" * self.ind)
    def use(self, name): return ("u", name)
    def dfn(self, name): return ("d", name)
    def val(self, scope, d=0):
        s = self.s; k = s.w([(3, "lit"), (6, "var"), (3 if d < 3 else 0, "bin"), (3 if self.funcs and d < 3 else 0, "call"), (2 if self.cls else 0, "mem"), (2 if d < 2 else 0, "par")])
        if k == "lit": self.out(str(s.i(100)))
        elif k == "var":
            if scope: self.out(self.use(s.pick(scope)))
            else: self.out("7")
        elif k == "bin": self.val(scope, d + 1); self.out(s.pick([" + ", "*", " -", "  & "])); self.val(scope, d + 1)
        elif k == "par": self.out("("); self.val(scope, d + 1); self.out(")")
        elif k == "call":
            f, n = s.pick(self.funcs); self.out(self.use(f), "(")
            for i in range(n):
                if i: self.out(", ")
                self.val(scope, d + 1)
            self.out(")")
        else:
            o = [(v, c) for v, c in self.objs if v in self.oscope]
            if not o: self.out("3"); return
            v, c = s.pick(o); self.out(self.use(v), ".", self.use(s.pick(c[1])))
    def stmt(self, scope, d):
        s = self.s; k = s.w([(4, "var"), (3, "assign"), (2 if d < 2 else 0, "if"), (1 if d < 2 else 0, "for"), (2 if self.cls else 0, "obj"), (2, "expr"), (1 if self.objs else 0, "set")])
        if k == "var":
            n = self.new(s.pick(["v", "value", "q"])); self.out(s.pick(["int ", "int ", "auto "]), self.dfn(n), " = "); self.val(list(scope)); self.out(";"); scope.append(n)
        elif k == "assign" and scope: self.out(self.use(s.pick(scope)), s.pick([" = ", " += ", "-="])); self.val(scope); self.out(";")
        elif k == "if":
            self.out("if("); self.val(scope); self.out("){"); self.block(scope, d + 1); self.out("}")
            if s.p(40): self.out("else{"); self.block(scope, d + 1); self.out("}")
        elif k == "for":
            n = self.new("i"); self.out("for(int ", self.dfn(n), " = 0; ", self.use(n), " < 3; ", self.use(n), "++){"); self.block(scope + [n], d + 1); self.out("}")
        elif k == "obj":
            c = s.pick(self.cls); n = self.new("o"); self.out(self.use(c[0]), " ", self.dfn(n), ";"); self.objs.append((n, c)); self.oscope.append(n)
        elif k == "set":
            o = [(v, c) for v, c in self.objs if v in self.oscope]
            if o: v, c = s.pick(o); self.out(self.use(v), ".", self.use(s.pick(c[1])), " = "); self.val(scope); self.out(";")
            else: self.out(";")
        else: self.out("int ", self.dfn(self.new("t")), " = "); self.val(scope); self.out(";")
    def block(self, scope, d):
        sc = list(scope); os_ = list(self.oscope); self.ind += 1
        for i in range(self.s.rng(1, 3)): self.nl(); self.stmt(sc, d)
        self.ind -= 1; self.nl(); self.oscope = os_
    def build(self):
        s = self.s; g = []; self.objs = []; self.oscope = []
        if s.p(20): self.out("import std.math;\n")
        for i in range(s.rng(2, 7)):
            k = s.w([(3, "stmt"), (3, "func"), (2, "class")])
            if k == "func":
                f = self.new("f"); n = s.i(4); ps = [self.new("p") for j in range(n)]
                self.out("int ", self.dfn(f), "(")
                for j, p in enumerate(ps): self.out(", " if j else "", "int " , self.dfn(p))
                self.out("){"); self.block(g + ps, 1); self.out("return "); self.val(g + ps); self.out("; }"); self.funcs.append((f, n))
            elif k == "class":
                c = self.new("C"); ms = [self.new("m") for j in range(s.rng(1, 3))]
                self.out("class ", self.dfn(c), "{")
                for m in ms: self.out(" int ", self.dfn(m), ";")
                self.out(" }"); self.cls.append((c, ms))
            else: self.stmt(g, 0)
            self.nl()
        self.out("return "); self.val(g); self.out(";")
        return self.toks

def render(toks):
    text = ""; occ = {}; dfn = {}
    for t in toks:
        if isinstance(t, (list, tuple)):
            p = position(text, len(text)); occ.setdefault(t[1], []).append(p)
            if t[0] == "d": dfn[t[1]] = p
            text += t[1]
        else: text += t
    return text, occ, dfn

# ---- histories
IDC = re.compile(r"[A-Za-z_]\w*")
def gen_text(src):
    k = src.w([(5, "good"), (2, "bad"), (3, "struct"), (2, "mod"), (1, "tiny")])
    if k == "good": t = src.pick(GOOD)
    elif k == "bad": t = src.pick(BAD)
    elif k == "struct": t = render(DocGen(src).build())[0]
    elif k == "mod": t = "import wm0;\nWPoint %s; p1.px = wadd(1, wglob);\nint r2 = p1.wsum() + wgen(3);\nWEnum e = WEnum.WB;\nreturn r2;\n" % "p1"
    else: t = src.pick(["", "a", "int", "\n\n", "//", "/*", "return 1;", "\"", "class A{", "auto f(", "x.", "import std.nothing;\nreturn 1;"])
    if src.p(15): t = t.replace("\r\n", "\n").replace("\n", "\r\n")
    if src.p(8): t = t + "\n" + src.pick(GOOD)
    return t
FRAG = ["", "", " ", "\n", "\r\n", ";", "}", "{", "(", ")", ".", "x", "int", "return", "\"", "'", "//", "/*", "*/", "class Z{ int a; }\n", "int zz = 1;\n", "auto", "<", "@", "generic", "=", "import std.vector;\n", "foo(", "[", "]", "0", "coroutine ", "for(i in ", "namespace N{", "int ref", "?", ":", "a.b", "yield 1;", "\t", "#", "std."]
def gen_pos(src, text):
    k = src.w([(12, "ident"), (3, "any"), (1, "end"), (2, "beyond"), (1, "eol")])
    if k == "ident":
        m = [x for x in IDC.finditer(text)]
        if m: x = src.pick(m); return list(position(text, x.start() + src.i(len(x.group()) + 1)))
        k = "any"
    if k == "any": return list(position(text, src.i(len(text) + 1)))
    L = lines(text)
    if k == "end": return [len(L) - 1, len(L[-1])]
    ln = src.i(len(L))
    if k == "eol": return [ln, len(L[ln])]
    return src.pick([[ln, len(L[ln]) + 1 + src.i(20)], [ln, 100000], [len(L) + src.i(5), src.i(10)], [1000000, 0], [2147483647, 2147483647], [0, 2147483647]])
def gen_change(src, text):
    if src.p(10): return {"r": None, "t": gen_text(src)}
    if src.p(50):
        a = [src.i(len(lines(text))), 0]
        return {"r": [a, a], "t": src.pick(["\n", "// note\n", "\t", "int nv%d = 1;\n" % src.i(100000), "/* c\n */ "])}
    a = gen_pos(src, text)
    if src.p(45): b = list(a)
    else:
        b = gen_pos(src, text) if src.p(30) else list(position(text, min(len(text), offset(text, *a) + src.i(12))))
    if b < a: a, b = b, a
    t = src.pick(FRAG)
    if src.p(25) and text: i = src.i(len(text)); t = text[i:i + src.i(30)].replace("\r", "")
    return {"r": [a, b], "t": t}
URIS = ["file:///root/a.nc", "file:///root/sub/b.nc", "file:///root/c%20d.nc", "untitled:x"]

def gen(src, ctx):
    if src.p(25):
        return {"kind": "struct", "toks": DocGen(src).build(), "crlf": src.p(20), "link": src.i(2)}
    root = src.w([(8, "file:///root"), (1, "file:///root/"), (1, None), (1, "untitled:zz")])
    hist = []; docs = {}; nid = 0
    for k in range(src.rng(3, 16)):
        op = src.w([(4 if len(docs) < 2 else 1, "open"), (6 if docs else 0, "change"), (9 if docs else 0, "query"), (1, "unknown"), (1 if docs else 0, "close"), (1, "note"), (1, "lost")])
        if op == "open":
            u = src.pick(URIS); docs[u] = gen_text(src); hist.append({"op": op, "u": u, "t": docs[u]})
        elif op == "change":
            u = src.pick(sorted(docs)); chs = []; t = docs[u]
            for j in range(src.w([(6, 1), (2, 2), (1, 4)])): c = gen_change(src, t); chs.append(c); t = apply(t, c)
            if len(t) > 12000 or lone(t): continue
            docs[u] = t; hist.append({"op": op, "u": u, "ch": chs})
        elif op == "query":
            u = src.pick(sorted(docs)); m = src.pick(METHODS)
            hist.append({"op": op, "u": u, "m": m, "p": gen_pos(src, docs[u])})
        elif op == "unknown": hist.append({"op": op, "m": src.pick(["workspace/symbol", "textDocument/rename", "shutdown", "x", "", "textDocument/formatting"])})
        elif op == "close": u = src.pick(sorted(docs)); hist.append({"op": op, "u": u})
        elif op == "lost": hist.append({"op": op, "u": src.pick(["file:///root/none.nc", "file:///root/wm0.nc", "none:y", "file:///root"]), "m": src.pick(METHODS), "p": [src.i(6), src.i(20)]})
        else: hist.append({"op": op, "m": src.pick(["initialized", "$/cancelRequest", "textDocument/didSave", "workspace/didChangeConfiguration", "x"])})
    for h in hist: h["id"] = src.w([(8, None), (1, "s%d" % src.i(99)), (1, -1 - src.i(5)), (1, (1 << 32) - 1), (1, (1 << 40) + src.i(9)), (1, 0), (1, "")])
    return {"kind": "hist", "root": root, "hist": hist, "cap": src.i(4)}

def reduce(case, choices):
    if case["kind"] == "hist":
        h = case["hist"]
        for i in range(len(h)):
            if sum(x["op"] == "open" for x in h) > 1 or h[i]["op"] != "open": yield dict(case, hist=h[:i] + h[i + 1:])
        for i, x in enumerate(h):
            if x["op"] == "change" and len(x["ch"]) > 1:
                for j in range(len(x["ch"])): yield dict(case, hist=h[:i] + [dict(x, ch=x["ch"][:j] + x["ch"][j + 1:])] + h[i + 1:])
            if x["op"] == "open":
                L = x["t"].split("\n"); n = len(L)
                for k in (n // 2, n // 4, 1):
                    if k < 1: continue
                    for a in range(0, n, k):
                        if n > 1: yield dict(case, hist=h[:i] + [dict(x, t="\n".join(L[:a] + L[a + k:]))] + h[i + 1:])
def show(case): return json.dumps(case, indent=1)[:6000]
def bad(out, kind, text, case): out.kind = kind; out.violation = text + "\n---\n" + show(case); return out

def init(case, nid=1):
    caps = {"textDocument": {"definition": {"linkSupport": True}, "documentSymbol": {"hierarchicalDocumentSymbolSupport": True}}}
    p = {"processId": None, "capabilities": caps if case.get("cap", 0) & 1 or case.get("link") else {}}
    if case.get("root", "file:///root"): p["rootUri"] = case.get("root", "file:///root")
    return {"jsonrpc": "2.0", "id": nid, "method": "initialize", "params": p}
def opened(u, t): return {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "nullc", "version": 1, "text": t}}}
def pos(p): return {"line": p[0], "character": p[1]}
def query(i, u, m, p):
    q = {"jsonrpc": "2.0", "id": i, "method": "textDocument/" + m, "params": {"textDocument": {"uri": u}}}
    if m in POS: q["params"]["position"] = pos(p)
    if m == "references": q["params"]["context"] = {"includeDeclaration": True}
    return q

def inside(text, r):
    a, b = (r["start"]["line"], r["start"]["character"]), (r["end"]["line"], r["end"]["character"])
    L = lines(text)
    # an end past the end of its line stands for the end of the line
    return a <= b and a[0] < len(L) and b[0] < len(L) and a[1] <= len(L[a[0]]) and min(a + b) >= 0
def within(text, r): e = r["end"]; return e["character"] <= len(lines(text)[e["line"]])
def cut(text, r): return text[offset(text, r["start"]["line"], r["start"]["character"]):offset(text, r["end"]["line"], r["end"]["character"])]
def ranges(v, uri=None):
    """all (uri, range) in a result"""
    if isinstance(v, dict):
        if "start" in v and "end" in v and isinstance(v["start"], dict): yield uri, v; return
        if "targetUri" in v:
            for k, x in v.items(): yield from ranges(x, v["targetUri"] if k.startswith("target") else uri)
            return
        u = v.get("uri", uri)
        for x in v.values(): yield from ranges(x, u)
    elif isinstance(v, list):
        for x in v: yield from ranges(x, uri)
def ident_at(text, p):
    o = offset(text, *p)
    for m in IDC.finditer(text):
        if m.start() <= o < m.end(): return m.group()
    return None

def check_reply(ctx, out, text, h, rep, ok):
    """what holds for the reply to a query about a document with this text"""
    res = rep.get("result")
    for u, r in ranges(res, h["u"]):
        if u == h["u"] and not inside(text, r): return "range outside of the document in the reply to %s: %r" % (h["m"], r)
    return None

def run(case, ctx): return globals()["run_" + case["kind"]](case, ctx)

def run_hist(case, ctx):
    out = Outcome(key=json.dumps(case), labels=["history"], sample=show(case)[:700]); msgs = [init(case)]; expect = [("reply", 1, None, None)]
    docs = {}; nid = 1; edited = set(); seen = False
    for h in case["hist"]:
        nid += 1; i = h.get("id") if h.get("id") is not None else nid
        if h["op"] == "open" and lone(h["t"]): return out
        if h["op"] == "open": docs[h["u"]] = h["t"]; msgs.append(opened(h["u"], h["t"])); expect.append(("diag", h["u"], h["t"], h))
        elif h["op"] == "change":
            if h["u"] not in docs: continue
            t = docs[h["u"]]; cc = []
            for c in h["ch"]:
                cc.append({"text": c["t"]} if c["r"] is None else {"range": {"start": pos(c["r"][0]), "end": pos(c["r"][1])}, "text": c["t"]}); t = apply(t, c)
            if lone(t): out.labels.append("lone carriage return"); return out
            docs[h["u"]] = t; msgs.append({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": h["u"], "version": nid}, "contentChanges": cc}}); edited.add(h["u"])
            expect.append(("diag", h["u"], t, h))
        elif h["op"] == "query":
            if h["u"] not in docs: continue
            msgs.append(query(i, h["u"], h["m"], h["p"])); expect.append(("reply", i, docs[h["u"]], h))
        elif h["op"] == "unknown": msgs.append({"jsonrpc": "2.0", "id": i, "method": h["m"], "params": {}}); expect.append(("error", i, None, h))
        elif h["op"] == "lost":
            if h["u"] in docs: continue
            msgs.append(query(i, h["u"], h["m"], h["p"])); expect.append(("error" if not h["u"].endswith("wm0.nc") else "any", i, None, h))
        elif h["op"] == "close": msgs.append({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": h["u"]}}})
        else: msgs.append({"jsonrpc": "2.0", "method": h["m"], "params": {}})
    if any(ctx.analyze(t) is None for t in docs.values()): out.labels.append("compiler does not finish"); return out
    rc, got, err = ctx.serve(msgs); out.evals = len(msgs)
    if rc != 0 or err: return bad(out, "crash", "the server stopped: exit %s\n%s" % (rc, err), case)
    if len(got) != len(expect): return bad(out, "count", "%d messages were sent where %d were due" % (len(got), len(expect)), case)
    for g, (k, a, t, h) in zip(got, expect):
        if g.get("jsonrpc") != "2.0": return bad(out, "form", "not a message: %r" % g, case)
        if k == "diag":
            if g.get("method") != "textDocument/publishDiagnostics" or g["params"]["uri"] != a or "id" in g: return bad(out, "form", "no diagnostics for %s: %r" % (a, g), case)
            v = diag(ctx, t, g["params"]["diagnostics"], a.startswith("file") and bool((case["root"] or "").startswith("file")))
            if v: return bad(out, "diagnostics", v + "\nin %s:\n%s" % (a, t), case)
            if g["params"]["diagnostics"]: seen = True; out.labels.append("diagnostic")
            else: out.labels.append("no diagnostic")
            continue
        if "id" not in g or g["id"] != a or type(g["id"]) is not type(a): return bad(out, "id", "the reply to request %r of %s has the id %r" % (a, h and h.get("m"), g.get("id")), case)
        if ("result" in g) == ("error" in g): return bad(out, "form", "a reply has a result or an error: %r" % g, case)
        if k == "error" and "error" not in g: return bad(out, "form", "error expected: %r" % g, case)
        if k == "reply" and "result" not in g: return bad(out, "form", "result expected: %r" % g, case)
        if k == "reply" and h:
            v = check_reply(ctx, out, t, h, g, None)
            if v: return bad(out, "range", v + "\nin:\n" + t, case)
            out.labels.append(h["m"] + (" found" if g["result"] else " nothing"))
            if g["result"] and h["u"] in edited: out.nontrivial = True
    if seen and edited: out.nontrivial = True
    # a fresh server that is given the final text of a document answers the same
    last = {}
    for g, (k, a, t, h) in zip(got, expect):
        if k == "reply" and h and docs.get(h["u"]) == t: last.setdefault(h["u"], []).append((h, g))
    for u in sorted(last) if (case["root"] or "").startswith("file") else ():
        m2 = [init(case), opened(u, docs[u])] + [query(100 + j, u, h["m"], h["p"]) for j, (h, g) in enumerate(last[u])]
        rc, got2, err = ctx.serve(m2, asan=False); out.evals += len(m2)
        if rc != 0 or err or len(got2) != len(m2): return bad(out, "crash", "a fresh server stopped: exit %s %s" % (rc, err), case)
        for (h, g), g2 in zip(last[u], got2[2:]):
            if g.get("result") != g2.get("result"): return bad(out, "fresh", "%s at %r in %s: %s\na fresh server says: %s\nin:\n%s" % (h["m"], h["p"], u, json.dumps(g.get("result"))[:800], json.dumps(g2.get("result"))[:800], docs[u]), case)
            out.labels.append("compared with a fresh server")
    return out

def diag(ctx, text, ds, mods):
    a = ctx.analyze(text)
    if a is None: return None
    ok, err = a
    if "wm0" in text and not mods: return None
    if ok and ds: return "diagnostics for a text the compiler accepts: %r" % ds[:2]
    if not ok and not ds: return "no diagnostics for a text the compiler rejects: %s" % err
    if not ok:
        first = err
        m = re.search(r"at line (\d+)", first)
        msgs = [d["message"] for d in ds] + [i["message"] for d in ds for i in d.get("relatedInformation", [])]
        head = first.split("\n")[0].strip()
        if not any(x.split("\n")[0].strip() == head for x in msgs): return "the compiler says %r, the diagnostics %r" % (head, msgs[:4])
        if m and "in module" not in err  and "\r" not in text.replace("\r\n", "") and within(text, ds[0]["range"])  and ds[0]["range"]["start"]["line"] + 1 != int(m.group(1)) and offset(text, ds[0]["range"]["start"]["line"], ds[0]["range"]["start"]["character"]) < len(text): return "the compiler reports line %s, the diagnostics %r" % (m.group(1), ds[0]["range"])
    for d in ds:
        if not inside(text, d["range"]): return "range of a diagnostic outside of the document: %r" % d
    return None

def run_struct(case, ctx):
    toks = case["toks"]
    if case["crlf"]: toks = [t if isinstance(t, (list, tuple)) else t.replace("\n", "\r\n") for t in toks]
    text, occ, dfn = render(toks)
    out = Outcome(key=text, labels=["structured"], sample=text[:600]); a = ctx.analyze(text)
    if a is None: return out
    if not a[0]: out.labels.append("structured rejected"); return out
    u = URIS[0]; names = sorted(occ); qs = []
    for n in names:
        for p in occ[n]:
            for dx in {0, len(n) - 1, len(n) // 2}:
                for m in ("definition", "references", "documentHighlight", "hover"): qs.append((n, [p[0], p[1] + dx], m, p))
    qs = qs[:400]
    rc, got, err = ctx.serve([init(case), opened(u, text)] + [query(10 + j, u, m, p) for j, (n, p, m, _) in enumerate(qs)], asan=False); out.evals = len(qs)
    if rc != 0 or err or len(got) != len(qs) + 2: return bad(out, "crash", "the server stopped: exit %s %s" % (rc, err), case)
    v = diag(ctx, text, got[1]["params"]["diagnostics"], True)
    if v: return bad(out, "diagnostics", v, case)
    rng = lambda p, n: {"start": pos(p), "end": pos((p[0], p[1] + len(n)))}
    for (n, p, m, at), g in zip(qs, got[2:]):
        r = g.get("result"); where = "%s of %s at %r" % (m, n, p)
        if n[0] == "C":
            if m in ("references", "documentHighlight"): continue
            if r is None and at == dfn[n]: continue
        if r is None and n[0] == "i" and text[offset(text, *at) + len(n):].startswith("++"): out.labels.append("nothing at the operand of ++"); continue
        if n[0] == "m" and r is None and at == dfn[n]: out.labels.append("nothing at the definition of a member"); continue
        if r is None: return bad(out, "nothing", "%s found nothing in\n%s" % (where, text), case)
        if m == "hover":
            if n not in r["contents"]["value"]: return bad(out, "hover", "%s: %r\nin\n%s" % (where, r, text), case)
            if r["range"] != rng(at, n): return bad(out, "hover", "%s: range %r\nin\n%s" % (where, r["range"], text), case)
        elif m == "definition":
            have = [(x.get("targetUri", x.get("uri")), x.get("targetSelectionRange", x.get("range"))) for x in r]
            if have != [(u, rng(dfn[n], n))]: return bad(out, "definition", "%s: %r where %r is due\nin\n%s" % (where, have, rng(dfn[n], n), text), case)
        else:
            have = sorted({(x["range"]["start"]["line"], x["range"]["start"]["character"], cut(text, x["range"])) for x in r})
            want = sorted((q[0], q[1], n) for q in occ[n])
            if n[0] == "m": have = sorted(set(have) | {(dfn[n][0], dfn[n][1], n)}) # whether the member's own definition is listed is left open
            if have != want: return bad(out, "occurrences", "%s: %r where %r is due\nin\n%s" % (where, have, want, text), case)
    out.nontrivial = len(names) > 3
    return out
