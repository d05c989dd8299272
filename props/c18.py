"""C18: running under a debugger (register VM) does not change a program; breakpoints and steps stop where they should."""
import random
import langprop, langrun, langgen, worker
from langgen import Opt
from engine import Outcome

ID = "C18"
RULE = "a program with at least 60 executed instructions where at least 3 stops were made under breakpoints and steps, or a line program with at least 4 marked lines executed"
ASSUMPTIONS = ["the order of executed instructions is the order of stops with a permanent breakpoint on every instruction",
               "a step stops at the next instruction of the same or an outer call (step), of any call (step into) or of an outer call (step out); a deeper activation of the same function that reaches this instruction first is a stop as well",
               "only the register VM executes breakpoints"]
N = {"quick": 2500, "thorough": 60000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2500}
MAXT = 6000

def setup(): worker.build_worker("plain"); worker.build_worker("asan")
class Ctx:
    def __init__(self): self.w = worker.Worker("plain"); self.a = None
    def asan(self):
        if self.a is None: self.a = worker.Worker("asan")
        return self.a
    def close(self):
        self.w.close()
        if self.a: self.a.close()

MIX = [Opt(size=8), Opt(faults=30, size=8), Opt(fnvals=60, closures=60, coroutines=50, size=10), Opt(arrays=95, classes=90, refs=90, faults=15, size=8)]

# ------------------------------------------------------------------ programs of marked lines
class Lines:
    """statements: ("t", k) | ("if", m, A, B) | ("for", v, n, A) | ("while", n, A) | ("call", f) | ("brk",) | ("cont",) | ("ret",) | ("switch", [A..])"""
    def __init__(self, src):
        self.s = src; self.k = 0; self.fns = []
        for i in range(src.i(4)):
            b = self.block(2, i, False); self.fns.append((src.pick(["plain", "local", "coroutine", "method"]), b))
        self.top = self.block(3, len(self.fns), False) + [self.mark()]
    def mark(self): self.k += 1; return ("t", self.k)
    def block(self, d, nf, loop):
        s = self.s; out = [self.mark()]
        for _ in range(s.rng(1, 3)):
            k = s.w([(5, "t"), (3 if d else 0, "if"), (3 if d else 0, "for"), (2 if d else 0, "while"), (3 if nf else 0, "call"), (2 if loop else 0, "brk"), (1 if loop else 0, "cont"), (2 if d else 0, "switch"), (1, "ret")])
            if k == "t": out.append(self.mark())
            elif k == "if": out.append(("if", s.rng(2, 4), self.block(d - 1, nf, loop), self.block(d - 1, nf, loop) if s.p(50) else None))
            elif k == "for": out.append(("for", s.rng(1, 3), self.block(d - 1, nf, True)))
            elif k == "while": out.append(("while", s.rng(1, 3), self.block(d - 1, nf, True)))
            elif k == "call": out.append(("call", s.i(nf)))
            elif k == "switch": out.append(("switch", [self.block(d - 1, nf, False) for _ in range(s.rng(1, 3))]))
            else: out.append((k + "if", s.rng(2, 4)) if k in ("brk", "cont", "ret") else (k,))
        return out
    def render(self):
        self.L = ["import vt;", "int cnt = 0;", "int nx(int m){ cnt++; return cnt % m; }", "class CC{ int q; }"]; self.line = {}; self.v = 0
        kinds = {}
        for i, (kind, b) in enumerate(self.fns):
            self.cur = i
            if kind == "method": self.e("void CC:f%d()" % i)
            elif kind == "coroutine": self.e("coroutine int f%d()" % i)
            else: self.e("void f%d()" % i)
            self.e("{")
            if kind == "local":
                self.e("\tauto h = auto()"); self.e("\t{"); self.blk(b, 2, "return;"); self.e("\t};"); self.e("\th();")
            else: self.blk(b, 1, "return 1;" if kind == "coroutine" else "return;")
            if kind == "coroutine": self.e("\treturn 0;")
            self.e("}")
        self.e("CC obj;")
        self.blk(self.top, 0, "return 1;")
        self.e("return 0;")
        return "\n".join(self.L) + "\n"
    def e(self, t): self.L.append(t)
    def blk(self, b, ind, ret):
        T = "\t" * ind
        for s in b:
            if s[0] == "t": self.line[s[1]] = len(self.L); self.e(T + "ti(%d);" % s[1])
            elif s[0] == "if":
                self.e(T + "if(nx(%d) == 0)" % s[1]); self.e(T + "{"); self.blk(s[2], ind + 1, ret); self.e(T + "}")
                if s[3] is not None: self.e(T + "else"); self.e(T + "{"); self.blk(s[3], ind + 1, ret); self.e(T + "}")
            elif s[0] == "for":
                self.v += 1; v = "i%d" % self.v
                self.e(T + "for(int %s = 0; %s < %d; %s++)" % (v, v, s[1], v)); self.e(T + "{"); self.blk(s[2], ind + 1, ret); self.e(T + "}")
            elif s[0] == "while":
                self.v += 1; v = "w%d" % self.v
                self.e(T + "int %s = 0;" % v); self.e(T + "while(%s++ < %d)" % (v, s[1])); self.e(T + "{"); self.blk(s[2], ind + 1, ret); self.e(T + "}")
            elif s[0] == "call": self.e(T + ("CC o%d; o%d.f%d();" % (len(self.L), len(self.L), s[1]) if self.fns[s[1]][0] == "method" else "f%d();" % s[1]))
            elif s[0] == "switch":
                self.e(T + "switch(nx(%d))" % (len(s[1]) + 1)); self.e(T + "{")
                for i, c in enumerate(s[1]): self.e(T + "case %d:" % i); self.blk(c, ind + 1, ret); self.e(T + "\tbreak;")
                self.e(T + "}")
            elif s[0] == "brkif": self.e(T + "if(nx(%d) == 0)" % s[1]); self.e(T + "\tbreak;")
            elif s[0] == "contif": self.e(T + "if(nx(%d) == 0)" % s[1]); self.e(T + "\tcontinue;")
            elif s[0] == "retif": self.e(T + "if(nx(%d) == 0)" % s[1]); self.e(T + "\t" + ret)
    # prediction: the marks in execution order
    def predict(self, limit=1500):
        self.cnt = 0; self.out = []; self.lim = limit
        try: self.go(self.top)
        except Ret: pass
        return self.out
    def nx(self, m): self.cnt += 1; return self.cnt % m
    def go(self, b):
        for s in b:
            self.lim -= 1
            if self.lim < 0: raise Long()
            if s[0] == "t": self.out.append(s[1])
            elif s[0] == "if":
                if self.nx(s[1]) == 0: self.go(s[2])
                elif s[3] is not None: self.go(s[3])
            elif s[0] in ("for", "while"):
                for _ in range(s[1]):
                    try: self.go(s[2])
                    except Brk: break
                    except Cont: pass
            elif s[0] == "call":
                try: self.go(self.fns[s[1]][1])
                except Ret: pass
            elif s[0] == "switch":
                i = self.nx(len(s[1]) + 1)
                if i < len(s[1]):
                    try: self.go(s[1][i])
                    except Brk: pass
            elif s[0] == "brkif":
                if self.nx(s[1]) == 0: raise Brk()
            elif s[0] == "contif":
                if self.nx(s[1]) == 0: raise Cont()
            elif s[0] == "retif":
                if self.nx(s[1]) == 0: raise Ret()
class Ret(Exception): pass
class Brk(Exception): pass
class Cont(Exception): pass
class Long(Exception): pass

def gen(src, ctx):
    kind = src.w([(3, "lang"), (2, "lines")])
    if kind == "lines":
        L = Lines(src); code = L.render()
        try: out = L.predict()
        except Long: return None
        return {"kind": "lines", "code": code, "lines": {str(k): v for k, v in L.line.items()}, "order": out, "opt": src.w([(5, 0), (1, 1), (1, 2)]), "skip": src.i(4), "cfg": src.i(1 << 16)}
    c = langprop.gen(src, MIX[src.i(len(MIX))], 2500, 9000)
    if c is None: return None
    n = src.rng(1, 7)
    script = [[src.w([(3, 0), (4, 1), (4, 2), (2, 3)]), src.w([(6, ""), (1, "+"), (1, "-"), (1, "!")])] for _ in range(n)]
    return {"kind": "lang", "code": c["code"], "opt": src.i(3), "pct": src.pick([2, 10, 40, 100]), "script": script, "cfg": src.i(1 << 16), "asan": src.p(30), "stop": src.p(25)}

def reduce(case, choices):
    if case["kind"] != "lang": return
    s = case["script"]
    for i in range(len(s)):
        if len(s) > 1: yield dict(case, script=s[:i] + s[i + 1:])
        if s[i][1]: yield dict(case, script=s[:i] + [[s[i][0], ""]] + s[i + 1:])
    if case["stop"]: yield dict(case, stop=False)
    if case.get("asan"): yield dict(case, asan=False)

def show(case): return case["code"] + "\n--- %r" % {k: v for k, v in case.items() if k in ("opt", "pct", "script", "cfg", "stop", "skip")}

RUN = [["run"], ["result"], ["trace"], ["globals", "g"], ["clearerr"], ["dbgstops"]]
def obs(r, k):
    """outcome of a run at position k"""
    x = r[k]; err = x.err.replace("\r", "") if not x.ok else ""
    return (x.ok, err if not x.ok else "", tuple(r[k + 1].data) if x.ok else None, r[k + 2].data[0], r[k + 3].data[0] if x.ok else None)
def stops(r, k): return [tuple(int(y) for y in l.split()) for l in r[k + 5].data[0].split("\n") if l]

def simulate(T, perm, pend, script):
    """stops predicted from the full instruction trace [(instruction, depth)...]; script entries (response, action, instruction)"""
    perm = set(perm); pend = set(pend); out = []; acts = []; n = len(T)
    nxt = [None] * n; st = []
    # next instruction at the same or an outer call; next instruction of an outer call
    for k in range(n - 1, -1, -1):
        d = T[k][1]
        while st and T[st[-1]][1] > d: st.pop()
        nxt[k] = st[-1] if st else None
        st.append(k)
    for k in range(n):
        i, d = T[k][:2]
        if i not in perm and i not in pend: continue
        out.append(k)
        r, a, ai = script[(len(out) - 1) % len(script)] if script else (0, "", 0)
        if a in ("+", "!"):
            ok = ai not in perm and ai not in pend
            if ok: (perm if a == "+" else pend).add(ai)
            acts.append("1" if ok else "0")
        elif a == "-":
            acts.append("1" if ai in perm or ai in pend else "0"); perm.discard(ai); pend.discard(ai)
        once = i in pend
        t = None
        if r == 2: t = k + 1 if k + 1 < n else None
        elif r == 1: t = nxt[k]
        elif r == 3:
            t = next((j for j in range(k + 1, n) if T[j][1] < d), None) if d > T[0][1] else nxt[k]
        if t is not None and T[t][0] not in perm: pend.add(T[t][0])
        if once and not (t is not None and T[t][0] == i): pend.discard(i)
        if i in perm: pend.discard(i)
    return out, "".join(acts)

def bad(out, kind, text, case):
    out.kind = kind; out.violation = text + "\n--- program\n" + show(case); return out

def run(case, ctx): return run_lines(case, ctx) if case["kind"] == "lines" else run_lang(case, ctx)

def run_lines(case, ctx):
    out = Outcome(key=case["code"], labels=["line program", "optimization %d" % case["opt"]], sample=case["code"][:600])
    base = [["exec", 0], ["opt", case["opt"]], ["build", case["code"]]]
    r = ctx.w.run(base + [["dbginfo"]] + RUN); out.evals = 1
    if not r.clean or not r[2].ok: return bad(out, "build", "the program was rejected or ended the process (%s): %s" % (r.status, r[2].err if r[2] else ""), case)
    order = case["order"]
    if r[6].data[0] != "".join("i%d\n" % k for k in order): return bad(out, "trace", "the program without a debugger traced %r, expected %r" % (r[6].data[0].split(), order), case)
    line = {int(k): v for k, v in case["lines"].items()}
    first = {}
    for i, l in enumerate(r[3].data[0].split()):
        l = int(l)
        if l >= 0: first.setdefault(l, i)
    rnd = random.Random(case["cfg"])
    marked = [k for k in line if rnd.randrange(4) >= case["skip"]] or list(line)
    miss = [k for k in marked if line[k] not in first and k in order]
    if miss: return bad(out, "noinst", "executed line %d has no instruction" % line[miss[0]], case)
    insts = {first[line[k]]: k for k in marked if line[k] in first}
    r2 = ctx.w.run(base + [["dbgset", " ".join(map(str, insts))], ["dbgscript", "0", "1", "8000"]] + RUN + [["dbgclear"], ["dbgscript", "0", "1", "100"]] + RUN); out.evals = 2
    if not r2.clean: return bad(out, "crash", "the process ended with %s under breakpoints" % r2.status, case)
    if obs(r, 4) != obs(r2, 5): return bad(out, "outcome", "with breakpoints %r\nwithout %r" % (obs(r2, 5), obs(r, 4)), case)
    want = [(k, n) for n, k in enumerate(order) if k in marked]
    got = [(insts.get(s[0]), s[2]) for s in stops(r2, 5)]
    if got != want:
        d = next(i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i])
        return bad(out, "hits", "stop %d is at line of mark %s before host call %s, expected %s" % (d + 1, *(got[d] if d < len(got) else ("none", "-")), want[d] if d < len(want) else "no more stops"), case)
    if stops(r2, 13): return bad(out, "cleared", "a stop was made after the breakpoints were cleared", case)
    if obs(r2, 13) != obs(r, 4): return bad(out, "outcome", "after the breakpoints were cleared: %r\nbefore: %r" % (obs(r2, 13), obs(r, 4)), case)
    out.nontrivial = len(want) >= 4
    return out

def run_lang(case, ctx):
    out = Outcome(key=case["code"], labels=["optimization %d" % case["opt"]], sample=show(case)[:700])
    base = [["exec", 0], ["opt", case["opt"]], ["build", case["code"]]]
    w = ctx.w
    r = w.run(base + [["dbginfo"]] + RUN)
    if r.timeout or not r.clean or not r[2].ok: return bad(out, "plain", "without a debugger: %s %s" % (r.status, r[2].err if r[2] else ""), case)
    A = obs(r, 4); N = len(r[3].data[0].split())
    allset = " ".join(str(i) for i in range(N))
    r = w.run(base + [["dbgset", allset], ["dbgscript", "0", "1", str(MAXT + 1)]] + RUN + [["dbgclear"], ["dbgscript", "0", "1", "100"]] + RUN, timeout_ms=8000); out.evals = 2
    if r.timeout or not r.clean: return bad(out, "crash", "with a breakpoint on every instruction: " + r.status, case)
    if obs(r, 5) != A: return bad(out, "outcome", "with a breakpoint on every instruction\n%r\nwithout\n%r" % (obs(r, 5), A), case)
    if stops(r, 13): return bad(out, "cleared", "a stop was made after the breakpoints were cleared", case)
    if obs(r, 13) != A: return bad(out, "rerun", "second run after the breakpoints were cleared\n%r\nfirst\n%r" % (obs(r, 13), A), case)
    T = stops(r, 5)
    if not T: return bad(out, "nostops", "no stop was made with a breakpoint on every instruction", case)
    if len(T) > MAXT: out.labels.append("long"); return out
    rnd = random.Random(case["cfg"]); insts = sorted(set(t[0] for t in T))
    S = [i for i in insts if rnd.random() * 100 < case["pct"]] or [insts[rnd.randrange(len(insts))]]
    pick = lambda: rnd.choice(insts) if rnd.random() < 0.9 else rnd.randrange(N)
    script = [(x, a, pick() if a else 0) for x, a in case["script"]]
    text = " ".join("%d%s" % (x, (a + str(i)) if a else "") for x, a, i in script)
    rem = [i for i in S if rnd.random() < 0.4]; once = [i for i in insts if rnd.random() < 0.1] or S[:1]
    ops = base + [["dbgset", " ".join(map(str, S))], ["dbgscript", text, "1", str(MAXT * 2)]] + RUN          # 3: run at 5
    ops += [["dbgclear"], ["dbgset", " ".join(map(str, S))]] + [["dbgrem", i] for i in rem] + [["dbgscript", "", "1", str(MAXT * 2)]]
    k2 = len(ops); ops += RUN + [["dbgclear"]] + [["dbgonce", i] for i in once] + [["dbgscript", "", "1", str(MAXT)]]
    k3 = len(ops); ops += RUN
    k4 = None
    if case["stop"]:
        at = rnd.randrange(len(T)); ops += [["dbgclear"], ["dbgset", allset], ["dbgscript", "0 " * at + "4", "0", "2"]]
        k4 = len(ops); ops += RUN + [["dbgclear"], ["dbgscript", "", "1", "10"]]; k5 = len(ops); ops += RUN
    w = ctx.asan() if case.get("asan") else ctx.w
    r = w.run(ops, timeout_ms=20000); out.evals = 6
    if r.timeout or not r.clean: return bad(out, "crash", "under breakpoints %s, responses %s: %s" % (S, text, r.status), case)
    if obs(r, 5) != A: return bad(out, "outcome", "under breakpoints %s, responses %s\n%r\nwithout\n%r" % (S, text, obs(r, 5), A), case)
    want, acts = simulate(T, S, (), script)
    got = stops(r, 5)[:MAXT * 2]
    if "long" not in out.labels:
        wl = [T[k][:3] for k in want]; gl = [s[:3] for s in got]
        if gl != wl:
            d = next(i for i in range(max(len(gl), len(wl))) if i >= len(gl) or i >= len(wl) or gl[i] != wl[i])
            return bad(out, "stops", "breakpoints %s, responses %s\nstop %d (instruction, calls, host calls before) is %s, expected %s; previous stop %s" % (S, text, d + 1, gl[d] if d < len(gl) else "missing", wl[d] if d < len(wl) else "none", wl[d - 1] if d else "none"), case)
        if r[10].data[2] != acts[:20000]: return bad(out, "acts", "changes of breakpoints succeeded %s, expected %s" % (r[10].data[2], acts), case)
    if obs(r, k2) != A: return bad(out, "outcome", "after breakpoints were removed one by one\n%r\nwithout\n%r" % (obs(r, k2), A), case)
    wl = [t[:3] for t in T if t[0] in S and t[0] not in rem]
    if [s[:3] for s in stops(r, k2)] != wl: return bad(out, "removed", "breakpoints %s without %s: stops\n%s\nexpected\n%s" % (S, rem, stops(r, k2)[:50], wl[:50]), case)
    if obs(r, k3) != A: return bad(out, "outcome", "with one hit breakpoints %s\n%r\nwithout\n%r" % (once, obs(r, k3), A), case)
    seen = set(); wl = []
    for t in T:
        if t[0] in once and t[0] not in seen: seen.add(t[0]); wl.append(t[:3])
    if [s[:3] for s in stops(r, k3)] != wl: return bad(out, "once", "one hit breakpoints %s: stops\n%s\nexpected\n%s" % (once, stops(r, k3)[:50], wl[:50]), case)
    if k4:
        if r[k4].ok or "stopped after breakpoint" not in r[k4].err: return bad(out, "stop", "a run stopped by the debugger gave %r" % (obs(r, k4),), case)
        if obs(r, k5) != A or stops(r, k5): return bad(out, "afterstop", "run after a stopped run\n%r\nexpected\n%r" % (obs(r, k5), A), case)
    out.nontrivial = len(T) >= 60 and len(got) >= 3
    return out
