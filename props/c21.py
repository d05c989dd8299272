"""C21: memory and stack limits set by the host are honoured."""
import re
import worker, langrun
from engine import Outcome

ID = "C21"
RULE = "a program that allocates at least twice its limit as garbage, or that reaches its memory or stack limit, with the predicted ending"
ASSUMPTIONS = ["an object is charged at most 2.2 times its payload plus 96 bytes (size classes, headers), and at least its payload",
               "a call needs at least the bytes of its local arrays and at most these plus 1200 bytes of stack; at most 250 calls of the generated functions fit into the register file for sure",
               "memory used is read with std.gc"]
N = {"quick": 2500, "thorough": 60000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 200, "thorough": 2500}

class Ctx:
    def __init__(self): self.w = worker.Worker("plain")
    def close(self): self.w.close()
def setup(): worker.build_worker("plain")

KB = 1024
# how an object of about n bytes is made: expression, type of the reference that keeps it, payload(n)
KINDS = ["class", "array", "dup", "concat", "autoarr", "closure", "nested", "boxed", "vec", "comp"]
def gen(src, ctx):
    k = src.w([(4, "fits"), (4, "grow"), (4, "deep"), (2, "big"), (2, "globals")])
    c = {"kind": k, "cfg": [src.i(2), src.i(3)]}
    if k in ("fits", "grow"):
        c["limit"] = src.pick([96, 128, 256, 500, 1024, 1500, 3000, 6000, 9000]) * KB
        c["makers"] = [[src.pick(KINDS), src.pick([1, 3, 4, 7, 8, 15, 16, 20, 30, 31, 50, 63, 100, 127, 200, 255, 300, 500, 1000, 3000])] for _ in range(src.rng(1, 3))]
        c["style"] = src.pick(["slots", "list", "map"]) if k == "fits" else src.pick(["list", "slots"])
        c["frac"] = src.rng(5, 30); c["rounds"] = src.rng(2, 6); c["how"] = src.pick(["top", "fn", "method", "coroutine"]); c["after"] = src.pick(["again", "more", "small"]); c["catch"] = src.p(40); c["fin"] = src.p(15)
    elif k == "big":
        c["limit"] = src.pick([64, 256, 1024, 5000]) * KB; c["el"] = src.pick([1, 2, 4, 8, 12, 24, 100, 4000]); c["rel"] = src.pick([-40, -10, 1, 10, 100, 1000, 100000]); c["via"] = src.pick(["new", "autoarr", "resize", "dup2"]); c["catch"] = src.p(50)
        c["huge"] = src.pick([0, 0, 0, 0x7fffffff, 0x40000000, 0x20000000, 0x10000001, 0x55555556])
    elif k == "deep":
        c["stack"] = src.pick([16, 32, 64, 100, 256, 1000, 1024, 4000, 16000]) * KB
        c["frame"] = src.pick([0, 0, 4, 16, 100, 500, 1000, 4000, 9000, 20000, 60000]); c["touch"] = src.pick(["first", "last", "all", "none"])
        c["depth"] = src.pick(["few", "fit", "over", "far", "inf"]); c["shape"] = src.pick(["self", "mutual", "ptr", "method", "closure", "coroutine", "sort", "virtual", "byval", "gen"]); c["catch"] = src.p(30); c["n"] = src.i(1000)
    else:
        c["stack"] = src.pick([16, 32, 64, 256, 1024]) * KB; c["rel"] = src.pick([-60, -30, 5, 50, 300, 5000]); c["touch"] = src.pick(["none", "ends"]); c["fn"] = src.p(50)
    return c

def reduce(case, choices):
    c = case
    if c.get("makers") and len(c["makers"]) > 1:
        for i in range(len(c["makers"])): yield dict(c, makers=c["makers"][:i] + c["makers"][i + 1:])
    if c.get("catch"): yield dict(c, catch=False)
    if c.get("fin"): yield dict(c, fin=False)
    if c.get("how", "top") != "top": yield dict(c, how="top")
    if c.get("shape", "self") != "self": yield dict(c, shape="self")

def show(case): return repr(case)
# the listed finding: objects of an earlier run are finalized before the virtual tables of the next run are filled
def match_known(case, out):
    v = (out.violation or "").split("\n--- ")[0]
    if "redirection table" in v and "__finalizeObjects" in v and case.get("fin") and case.get("after") in ("again", "more"): return "finalize-before-tables"
    return None

# ---------------------------------------------------------------- memory programs
PRE = """import std.gc; import std.error; import vt; import std.vector;
class Node{ auto ref keep; Node ref next; }
int chk(char[] a, int v){ for(int i = 0; i < a.size - 1; i++) if(a[i] != v) return 0; return 1; }
"""
def maker(i, kind, n, fin):
    """(declarations, payload of the kept object): auto ref make<i>(int v), int ok<i>(auto ref x, int v)"""
    if kind == "class":
        f = max(1, n // 4)
        if fin and n < 200:
            return ("class P%d{ int[%d] d; void P%d(int v){ for(int i = 0; i < %d; i++) d[i] = v; } }\nvoid P%d:finalize(){ fins++; }\nauto ref make%d(int v){ return new P%d(v); }\nint ok%d(auto ref x, int v){ P%d ref p = x; for(int i = 0; i < %d; i++) if(p.d[i] != v) return 0; return 1; }\n"
                    % (i, f, i, f, i, i, i, i, i, f), 4 * f)
        return ("class P%d{ int[%d] d; }\nauto ref make%d(int v){ P%d ref p = new P%d; for(int i = 0; i < %d; i++) p.d[i] = v; return p; }\nint ok%d(auto ref x, int v){ P%d ref p = x; for(int i = 0; i < %d; i++) if(p.d[i] != v) return 0; return 1; }\n"
                % (i, f, i, i, i, f, i, i, f), 4 * f)
    if kind == "array":
        return ("auto ref make%d(int v){ char[] a = new char[%d]; for(int i = 0; i < %d; i++) a[i] = v & 63; char[] ref r = new char[]; *r = a; return r; }\nint ok%d(auto ref x, int v){ char[] ref p = x; return p.size == %d && chk(*p, v & 63); }\n" % (i, n, n, i, n), n + 12)
    if kind == "dup":
        return ("class D%d{ int a; char[%d] d; }\nauto ref make%d(int v){ D%d ref p = new D%d; p.a = v; p.d[%d] = v & 63; return duplicate(p); }\nint ok%d(auto ref x, int v){ D%d ref p = x; return p.a == v && p.d[%d] == (v & 63); }\n" % (i, n, i, i, i, n - 1, i, i, n - 1), n + 4)
    if kind == "concat":
        h = max(1, n // 2)
        return ("auto ref make%d(int v){ char[] a = new char[%d]; for(int i = 0; i < %d; i++) a[i] = 1 + (v & 31); char[] ref r = new char[]; *r = a + a; return r; }\nint ok%d(auto ref x, int v){ char[] ref p = x; return (*p)[0] == 1 + (v & 31); }\n" % (i, h + 1, h, i), 2 * h + 12)
    if kind == "autoarr":
        m = max(1, n // 8)
        return ("auto ref make%d(int v){ auto[] ref r = new auto[]; *r = auto_array(double, %d); for(int i = 0; i < %d; i++) r.set(double(v), i); return r; }\nint ok%d(auto ref x, int v){ auto[] ref p = x; return p.size == %d && double((*p)[%d]) == v; }\n" % (i, m, m, i, m, m - 1), 8 * m + 16)
    if kind == "closure":
        return ("class F%d{ int ref() f; }\nauto ref make%d(int v){ F%d ref p = new F%d; int q = v; p.f = auto(){ return q; }; return p; }\nint ok%d(auto ref x, int v){ F%d ref p = x; return p.f() == v; }\n" % (i, i, i, i, i, i), 16)
    if kind == "nested":
        m = max(1, n // 16)
        return ("class N%d{ int[][] a; }\nauto ref make%d(int v){ N%d ref p = new N%d; p.a = new int[][%d]; for(int i = 0; i < %d; i++){ p.a[i] = new int[1]; p.a[i][0] = v; } return p; }\nint ok%d(auto ref x, int v){ N%d ref p = x; for(a in p.a) if(a[0] != v) return 0; return 1; }\n" % (i, i, i, i, m, m, i, i), 16 * m + 12)
    if kind == "boxed":
        return ("auto ref make%d(int v){ auto ref r = duplicate(v); return r; }\nint ok%d(auto ref x, int v){ return int(x) == v; }\n" % (i, i), 4)
    if kind == "vec":
        m = max(1, n // 4)
        return ("auto ref make%d(int v){ vector<int> ref r = new vector<int>; for(int i = 0; i < %d; i++) r.push_back(v); return r; }\nint ok%d(auto ref x, int v){ vector<int> ref p = x; return p.size() == %d && (*p)[%d] == v; }\n" % (i, m, i, m, m - 1), 4 * m)
    m = max(1, n // 4)
    return ("auto ref make%d(int v){ int[] ref r = new int[]; *r = { for(int i = 0; i < %d; i++) yield v; }; return r; }\nint ok%d(auto ref x, int v){ int[] ref p = x; return p.size == %d && (*p)[%d] == v; }\n" % (i, m, i, m, m - 1), 4 * m + 12)

# small pieces an object consists of besides its payload (each charged up to 96 bytes)
PIECES = {"nested": lambda n: 3 + max(1, n // 16), "closure": lambda n: 5, "vec": lambda n: 6}
def cost(kind, n, pay): return 2.2 * pay + 96 * PIECES.get(kind, lambda n: 4)(n) + 200
# garbage made while an object is built may be live at that moment
def peak(kind, n, pay): return (5 if kind in ("comp", "vec", "concat", "dup") else 2) * cost(kind, n, pay)

def wrap(body, how):
    if how == "top": return body
    if how == "fn": return "void work(){\n%s}\nwork();\n" % body
    if how == "method": return "class W{ int q; }\nvoid W:work(){\n%s}\nW wo; wo.work();\n" % body
    return "coroutine int work(){\n%syield 1;\nreturn 2;\n}\nwork();\n" % body

def memprog(c):
    d = "int fins = 0;\n"; pays = []
    for i, (k, n) in enumerate(c["makers"]):
        t, p = maker(i, k, n, c["fin"]); d += t; pays.append((k, n, p))
    return PRE + d, pays

def pickmk(n): return "(" + "".join("i %% %d == %d ? make%d(i) : " % (n, j, j) for j in range(n - 1)) + "make%d(i))" % (n - 1) if n > 1 else "make0(i)"
def pickok(n, x, v): return "(" + "".join("%s %% %d == %d ? ok%d(%s, %s) : " % (v, n, j, j, x, v) for j in range(n - 1)) + "ok%d(%s, %s))" % (n - 1, x, v) if n > 1 else "ok0(%s, %s)" % (x, v)

def run(case, ctx): return globals()["run_" + case["kind"]](case, ctx)
def bad(out, kind, text, case, code): out.kind = kind; out.violation = text + "\n--- %r\n--- program\n%s" % (case, code); return out
def overflow(e): return "overflow" in e
def memerr(e): return "reached global memory maximum" in e or "can't allocate array" in e or "allocation failed" in e.lower()
SMALL = "int sum = 0; for(int i = 0; i < 100; i++) sum += i; int[] q = new int[10]; q[9] = sum; return q[9];"

def go(case, ctx, out, ops, code):
    r = ctx.w.run([["exec", case["cfg"][0] if "cfg" in case else case["n"] % 2], ["opt", case["cfg"][1] if "cfg" in case else case["n"] // 2 % 3]] + ops, timeout_ms=15000)
    out.evals += 1
    if r.timeout: return bad(out, "time", "the program does not finish", case, code), r
    if not r.clean: return bad(out, "crash", "the host ended with %s" % r.status, case, code), r
    return None, r

def run_fits(c, ctx):
    pre, pays = memprog(c); n = len(pays)
    avg = sum(cost(*p) for p in pays) / n; L = c["limit"]
    pk = max(peak(*p) for p in pays)
    live = int((L * c["frac"] / 100. - pk - 4096) / (avg + 40))
    out = Outcome(labels=["fits", "limit %dK" % (L // KB)] + [p[0] for p in pays], key=repr(c))
    if live < 1: out.labels.append("too small"); return out
    live = min(live, 4000)
    total = max(live + 1, min(30000, int(c["rounds"] * L / max(sum(p[2] for p in pays) / n, 24)), int(60e6 / (sum(p[2] for p in pays) / n + 60) / 12)))
    if c["style"] == "list":
        body = "int peak = 0;\nNode ref head = nullptr; int cnt = 0; int good = 1;\nfor(int i = 0; i < %d; i++){ Node ref q = new Node; q.keep = %s; q.next = head; head = q; cnt++; int u = GC.UsedMemory(); if(u > peak) peak = u;\n if(cnt == %d){ int v = i; for(Node ref k = head; k; k = k.next){ if(!%s) good = 0; v--; } head = nullptr; cnt = 0; } }\n" % (total, pickmk(n), live, pickok(n, "k.keep", "v"))
    else:
        body = "int peak = 0;\nauto ref[] slots = new auto ref[%d]; int good = 1;\nfor(int i = 0; i < %d; i++){ int s = i %% %d; if(i >= %d && !%s) good = 0; slots[s] = %s; int u = GC.UsedMemory(); if(u > peak) peak = u; }\n" % (live, total, live, live, pickok(n, "slots[s]", "(i - %d)" % live), pickmk(n))
    code = pre + wrap(body + "ti(good); ti(peak);\n", c["how"]) + "return 7;\n"; out.sample = code[:900]
    b, r = go(c, ctx, out, [["memlimit", L], ["build", code], ["run"], ["trace"], ["run"], ["trace"]], code)
    if b: return b
    if not r[3].ok: return bad(out, "rejected", "rejected: " + r[3].err, c, code)
    for k in (4, 6):
        if not r[k].ok: return bad(out, "failed", "a program whose live data (about %d KB) fits the limit of %d KB failed: %s" % (live * avg / 1024, L // KB, r[k].err), c, code)
        t = r[k + 1].data[0].split()
        if len(t) != 2 or t[0] != "i1": return bad(out, "data", "kept objects changed: %s" % t, c, code)
        if int(t[1][1:]) > L + 64: return bad(out, "limit", "used memory reached %s bytes with a limit of %d" % (t[1][1:], L), c, code)
    out.nontrivial = total * sum(p[2] for p in pays) / n > 2 * L; return out

def run_grow(c, ctx):
    pre, pays = memprog(c); n = len(pays); L = c["limit"]
    out = Outcome(labels=["grow", "limit %dK" % (L // KB)] + [p[0] for p in pays], key=repr(c))
    if c["catch"] and c["cfg"][0]: c = dict(c, style="list")    # native stack temporaries of the JIT may keep a large array reachable
    pay = [p[2] for p in pays]; pk = max(peak(*p) for p in pays)
    if pk * 2 > L: out.labels.append("too small"); return out
    cap = int(L / (sum(pay) / n)) + 2 * n + 2
    if cap > 200000: out.labels.append("too many"); return out
    if c["style"] == "slots": pre += "auto ref[] slots;\n"; keep = "slots[i] = %s;" % pickmk(n); init = "slots = new auto ref[%d];\n" % cap; per = 0; fixed = 12 * cap
    else: pre += "Node ref head;\n"; keep = "Node ref q = new Node; q.keep = %s; q.next = head; head = q;" % pickmk(n); init = ""; per = 20; fixed = 0
    pre += "int zdone = 0; int zpeak = 0;\n"
    body = init + "for(int i = 0; i < %d; i++){ %s zdone = i + 1; int u = GC.UsedMemory(); if(u > zpeak) zpeak = u; }\n" % (cap, keep)
    if c["style"] == "slots" and fixed * 2.2 + pk > L: out.labels.append("too small"); return out
    if c["catch"]:
        free = "slots = nullptr; " if c["style"] == "slots" else "head = nullptr; "
        code = pre + "void fill(){\n" + body + "}\nauto res = try(auto(){ fill(); return 1; });\nts(res.message); ti(zdone); ti(zpeak);\n" + free.replace("slots = nullptr;", "auto ref[] none; slots = none;") + \
            "GC.CollectMemory(); int again = 0; for(int i = 0; i < 20; i++){ auto ref x = %s; again += %s; } ti(again); ti(GC.UsedMemory() <= %d);\nreturn 7;\n" % (pickmk(n), pickok(n, "x", "i"), L)
    else: code = pre + wrap(body, c["how"]) + "return 7;\n"
    out.sample = code[:900]
    ops = [["memlimit", L], ["build", code], ["run"], ["trace"], ["globals", "z"], ["clearfail"]]
    k2 = len(ops) + 2
    if c["after"] == "again": ops += [["run"], ["trace"], ["globals", "z"], ["clearfail"]]
    elif c["after"] == "more": ops += [["memlimit", 400 * 1024 * KB], ["run"], ["trace"], ["globals", "z"]]
    ops += [["clean"], ["build", SMALL], ["run"], ["resultstr"]]
    b, r = go(c, ctx, out, ops, code)
    if b: return b
    if not r[3].ok: return bad(out, "rejected", "rejected: " + r[3].err, c, code)
    def judge(run, tr, gl):
        if c["catch"]:
            if not run.ok: return "the program failed although the error was caught: " + run.err
            t = tr.data[0].split("\n")[:-1]
            if not t or not (memerr(t[0]) or t[0] == "s" and int(t[1][1:]) < cap): return "no memory error was caught: %r" % t[:3]
            done, peak = int(t[1][1:]), int(t[2][1:])
            if t[3:] != ["i20", "i1"]: return "after the error was caught and the objects were dropped: %r" % t[3:]
        else:
            if run.ok: return "the program kept more than %d bytes of payload in a limit of %d" % (cap * sum(pay) / n, L)
            if not memerr(run.err): return "unexpected error: " + run.err
            g = dict(re.findall(r"^(zdone|zpeak):int=(-?\d+)", gl.data[0], re.M)); done, peak = int(g["zdone"]), int(g["zpeak"])
        if peak > L + 64: return "used memory reached %d bytes with a limit of %d" % (peak, L)
        # charged at most: every kept object plus what the last one needed while it was built
        most = sum(cost(*pays[i % n]) + per * 2.2 + 96 for i in range(done)) + fixed * 2.2 + 2 * pk + 8192
        if most < L: return "the allocation after %d objects failed although at most %d of %d bytes were in use" % (done, most, L)
        return None
    e = judge(r[4], r[5], r[6])
    if e: return bad(out, "memory", e, c, code)
    k = 8
    if c["after"] == "again":
        e = judge(r[k], r[k + 1], r[k + 2]); k += 4
        if e: return bad(out, "again", "second run: " + e, c, code)
    elif c["after"] == "more":
        if not c["catch"] and not r[k + 1].ok: return bad(out, "more", "the same program failed with a limit of 400 MB: " + r[k + 1].err, c, code)
        k += 4
    if not r[k + 2].ok or r[k + 3].data[0] != "4950": return bad(out, "later", "a later program: %s %s" % (r[k + 1].err, r[k + 2].err), c, code)
    out.nontrivial = True; return out

def run_big(c, ctx):
    L = c["limit"]; el = (c["el"] + 3) // 4 * 4; cnt = max(1, L * (100 + c["rel"]) // 100 // el) + 1
    if c["huge"]: cnt = c["huge"]
    over = cnt * el > L; near = cnt * el * 1.1 + 40000 < L
    out = Outcome(labels=["big", c["via"]], key=repr(c))
    if cnt > 0x7fffffff: return out
    pre = PRE + "class E%d{ char[%d] d; }\nE%d[] keep; auto[] ak; int len = -1;\n" % (el, el, el)
    if c["via"] == "new": mk = "keep = new E%d[%d]; len = keep.size; keep[len - 1].d[0] = 5; ti(keep[len - 1].d[0]);" % (el, cnt)
    elif c["via"] == "autoarr": mk = "ak = auto_array(E%d, %d); len = ak.size;" % (el, cnt)
    elif c["via"] == "dup2":
        cnt = cnt // 2 + 1; over = cnt * 2 * el > L; near = cnt * el * 2.3 + 40000 < L
        mk = "E%d[] one = new E%d[%d]; keep = duplicate(one); len = keep.size;" % (el, el, cnt)
    else: mk = "ak = auto_array(E%d, 1); E%d q; ak.set(q, %d); len = ak.size;" % (el, el, cnt - 1); near = near and cnt * el * 3 + 40000 < L
    if c["catch"]: code = pre + "auto res = try(auto(){ %s return 1; });\nts(res.message); ti(len); int[] sm = new int[20]; ti(sm.size);\nreturn 7;\n" % mk
    else: code = pre + mk + "\nts(\"\"); ti(len); ti(20);\nreturn 7;\n"
    out.sample = code
    b, r = go(c, ctx, out, [["memlimit", L], ["build", code], ["run"], ["trace"], ["clearfail"], ["clean"], ["build", SMALL], ["run"], ["resultstr"]], code)
    if b: return b
    if not r[3].ok: return bad(out, "rejected", "rejected: " + r[3].err, c, code)
    t = [x for x in r[5].data[0].split("\n")[:-1] if x != "i5"]
    failed = not r[4].ok or (c["catch"] and t and t[0] not in ("s",))
    err = r[4].err if not r[4].ok else t[0] if t else ""
    if c["catch"] and not r[4].ok: return bad(out, "caught", "the error was not caught: " + err, c, code)
    if failed and not memerr(err) and "less than zero" not in err: return bad(out, "error", "unexpected error: " + err, c, code)
    if over and not failed: return bad(out, "limit", "an array of %d elements of %d bytes was made with a limit of %d bytes" % (cnt, el, L), c, code)
    if near and failed: return bad(out, "failed", "an array of %d bytes could not be made with a limit of %d bytes: %s" % (cnt * el, L, err), c, code)
    if not failed and t[1:] != ["i%d" % cnt, "i20"] and c["via"] != "resize": return bad(out, "size", "trace %s" % t, c, code)
    if not r[9 - 0 if 0 else 8].ok or not r[9].ok or r[10].data[0] != "4950": return bad(out, "later", "a later program failed: %s" % r[9].err, c, code)
    out.nontrivial = over; return out

# ---------------------------------------------------------------- recursion
def run_deep(c, ctx):
    S = c["stack"]; F = c["frame"]; shape = c["shape"]
    out = Outcome(labels=["deep", shape, "stack %dK" % (S // KB)], key=repr(c), evals=0)
    low, high = max(F, 0), F + 1200
    if shape == "byval": low, high = max(F, 4), 3 * F + 1500
    if shape == "coroutine" or (c["touch"] == "none" and shape != "byval"): low = 0     # an unused local may be dropped
    fit = min(S // 2 // high, 250)
    if c["depth"] == "few": n = c["n"] % 5
    elif c["depth"] == "fit": n = fit
    elif c["depth"] == "over": n = S // max(low, 1) + 1 if low >= 4 else 40000
    elif c["depth"] == "far": n = 1000000
    else: n = -1
    if n >= 0 and n <= fit and (n + 2) * high + 8000 < S and S >= 32 * KB: expect = "ok"
    elif n < 0 or (low and n * low > S) or n >= 40000: expect = "error"
    else: expect = None
    if shape == "sort" and expect == "ok" and n > 40: expect = None       # nested runs of the host
    if shape == "coroutine" and n == -1 and F == 0 and False: expect = None
    A = ""; use = ""
    if F:
        A = "char[%d] loc; " % F
        use = {"first": "loc[0] = 1; ", "last": "loc[%d] = 1; " % (F - 1), "all": "for(int z = 0; z < %d; z += 97) loc[z] = 1; " % F, "none": ""}[c["touch"]]
        keep = {"first": " + loc[0] - 1", "last": " + loc[%d] - 1" % (F - 1), "all": " + loc[0] - 1", "none": ""}[c["touch"]]
    else: keep = ""
    stop = "if(n == 0) return 0; "
    rec = lambda call: A + use + "int r = %s; return r + 1%s;" % (call, keep)
    if shape == "self": d = "int f(int n){ %s%s }" % (stop, rec("f(n - 1)")); call = "f(%d)"
    elif shape == "mutual": d = "int g(int n); int f(int n){ %s%s }\nint g(int n){ %s%s }" % (stop, rec("g(n - 1)"), stop, rec("f(n - 1)")); call = "f(%d)"
    elif shape == "ptr": d = "int ref(int) p; int f(int n){ %s%s } p = f;" % (stop, rec("p(n - 1)")); call = "p(%d)"
    elif shape == "method": d = "class O{ int k; } int O:f(int n){ %s%s } O o;" % (stop, rec("this.f(n - 1)")); call = "o.f(%d)"
    elif shape == "closure": d = "int ref(int) p; int top = 0; int mk(){ int base = 0; p = auto(int n){ %s%s }; return 0; } mk();" % (stop.replace("return 0", "return base"), rec("p(n - 1)")); call = "p(%d)"
    elif shape == "coroutine": d = "int f(int n); coroutine int co(int n){ while(1){ yield f(n - 1); } return 0; } int f(int n){ %s%s }" % (stop, rec("co(n)")); call = "f(%d)"
    elif shape == "sort": d = "import std.algorithm;" ; d = "int f(int n){ %s%s }" % (stop, A + use + "int r = 0; int[2] q; q[0] = 2; q[1] = 1; int[] u = q; sort(u, auto(int ref a, b){ if(!r) r = f(n - 1) + 1; return *a < *b ? 1 : 0; }); return r%s;" % keep); call = "f(%d)"
    elif shape == "virtual": d = "class B extendable{ int k; int f(int n){ return -1; } } class D: B{ int f(int n){ B ref me = this; %s%s } } B ref o = new D;" % (stop, rec("me.f(n - 1)")); call = "o.f(%d)"
    elif shape == "byval":
        m = max(F, 4)
        d = "class V{ char[%d] d; } int f(int n, V v){ %sv.d[%d]++; return f(n - 1, v) + 1; } V vv;" % (m, stop, m - 1); call = "f(%d, vv)"
    else: d = "int f(generic n){ %s%s }" % (stop, rec("f(n - 1)")); call = "f(%d)"
    imp = "import vt; import std.error;" + (" import std.algorithm;" if shape == "sort" else "")
    d = d.replace("import std.algorithm;", "")
    base = 5 * high + 9000 < S
    ok = "ti(%s);\n" % (call % 3) if base else "ti(3);\n"
    if c["catch"]: code = imp + "\n" + d + "\nauto res = try(auto(){ ti(%s); return 1; });\nts(res.message); %sreturn 7;\n" % (call % n, ok)
    else: code = imp + "\n" + d + "\n" + ok + "ti(%s);\nreturn 7;\n" % (call % n)
    out.sample = code[:700]
    r = ctx.w.run([["clean"], ["stack", S], ["exec", c["n"] % 2], ["opt", c["n"] // 2 % 3], ["build", code], ["run"], ["trace"], ["clearfail"], ["run"], ["trace"], ["clearfail"], ["clean"], ["build", SMALL], ["run"], ["resultstr"]], timeout_ms=20000)
    out.evals = 1
    if r.timeout: return bad(out, "time", "does not finish", c, code)
    if not r.clean: return bad(out, "crash", "the host ended with %s" % r.status, c, code)
    if not r[4].ok: return bad(out, "rejected", "rejected: " + r[4].err, c, code)
    for k in (5, 8):
        t = r[k + 1].data[0].split("\n")[:-1]
        if c["catch"]:
            if not r[k].ok and not base and overflow(r[k].err): continue
            if not r[k].ok: return bad(out, "uncaught", "the error was not caught: " + r[k].err, c, code)
            failed = len(t) == 2; err = t[0][1:] if failed else ""
            want = [t[0], "i3"] if failed else ["i%d" % n, "s", "i3"]
        else:
            failed = not r[k].ok; err = r[k].err; want = ["i3"] + ([] if failed else ["i%d" % n])
        if failed and not overflow(err): return bad(out, "error", "unexpected error: " + err, c, code)
        if failed and expect == "ok": return bad(out, "early", "%d calls with %d bytes of locals failed on a stack of %d bytes: %s" % (n, F, S, err[:300]), c, code)
        if not failed and expect == "error": return bad(out, "late", "%d calls with %d bytes of locals passed on a stack of %d bytes" % (n, F, S), c, code)
        if failed and not base and not t: continue
        if t != want: return bad(out, "trace", "trace %s, expected %s" % (t, want), c, code)
    if not r[12].ok or not r[13].ok or r[14].data[0] != "4950": return bad(out, "later", "a later program failed: %s %s" % (r[12].err, r[13].err), c, code)
    out.nontrivial = expect == "error" or n >= 20; out.labels.append(str(expect)); return out

def run_globals(c, ctx):
    S = c["stack"]; n = max(16, S * (100 + c["rel"]) // 100); out = Outcome(labels=["globals"], key=repr(c))
    parts = (n + 59999) // 60000; each = n // parts
    use = "" if c["touch"] == "none" else "".join("g%d[0] = %d; g%d[%d] = 1; " % (i, i & 63, i, each - 1) for i in range(parts))
    code = "import vt;\n" + "".join("char[%d] g%d;\n" % (each, i) for i in range(parts)) + ("int f(int x){ char[300] l; l[x] = 4; return l[x]; }\n" if c["fn"] else "") + use + ("ti(f(3));" if c["fn"] else "ti(4);") + "return 7;\n"
    out.sample = code[:500]
    r = ctx.w.run([["clean"], ["stack", S], ["exec", c["cfg"][0]], ["opt", c["cfg"][1]], ["build", code], ["run"], ["trace"], ["clearfail"], ["clean"], ["build", SMALL], ["run"], ["resultstr"]], timeout_ms=15000); out.evals = 1
    if r.timeout or not r.clean: return bad(out, "crash", "the host ended with %s" % r.status, c, code)
    fit = each * parts + 4000 < S; over = each * parts > S
    # a program that does not fit is refused when it is built or run
    ok = r[4].ok and r[5].ok
    if ok and r[6].data[0] != "i4\n": return bad(out, "trace", "trace %r" % r[6].data[0], c, code)
    if not ok and fit: return bad(out, "early", "%d bytes of globals failed on a stack of %d bytes: %s %s" % (n, S, r[4].err, r[5].err if r[5] else ""), c, code)
    if not ok and "size limit exceeded" not in r[4].err and not overflow(r[4].err + (r[5].err if r[5] else "")): return bad(out, "error", "unexpected error: %s %s" % (r[4].err, r[5].err), c, code)
    if not r[9].ok or not r[10].ok or r[11].data[0] != "4950": return bad(out, "later", "a later program failed: %s %s" % (r[9].err, r[10].err), c, code)
    out.nontrivial = over; return out
