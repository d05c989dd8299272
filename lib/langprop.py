"""Shared parts of the properties decided on generated language programs."""
import re
import lang, langgen, langrun, langedit, worker
from lang import Taint, Budget
from langrun import CONFIGS
from engine import Outcome

class Ctx:
    def __init__(self, variant="plain"):
        self.w = worker.Worker(variant)
    def close(self): self.w.close()

def setup(): worker.build_worker("plain")

def expect_json(x):
    return {"trace": x.trace, "globals": x.globals, "result": [x.result[0], resval(x.result)] if x.result else None, "fault": x.fault,
            "lines": x.lines, "steps": x.steps}

def resval(r):
    return lang.dblbits(r[1]) if r[0] == 'double' else str(r[1])

def outcome(x): return (x["trace"], x["globals"], x["result"], x["fault"])

def chain(P, x, limit, val):
    """predictions with more and more of the faulting reads skipped, each giving `val`"""
    sites = set(); out = []
    while x.fault in ("div", "index", "null") and x.site is not None and x.site not in sites and len(sites) < 12:
        # every faulting read made by this expression is skipped
        sites.add(x.site)
        x = P.predict(limit, sites, val)
        out.append(expect_json(x))
    return out

def predict(P, limit=12000):
    """expectation as JSON plus acceptable variants where reads that fault and whose value is never used were removed:
    an outcome is acceptable when three different values of the skipped reads all lead to it"""
    x = P.predict(limit); xs = [expect_json(x)]
    if x.fault in ("div", "index", "null") and x.site is not None:
        chains = [chain(P, x, limit, v) for v in (0, 37, -5)]
        others = [[outcome(y) for y in c] for c in chains[1:]]
        for y in chains[0]:
            if all(outcome(y) in o for o in others): xs.append(y)
    return xs

def build(src, opt, edits=(), post=None):
    """generate, edit, render and predict; None when rejected"""
    P = langgen.G(src, opt).program()
    if post is not None: post(P)
    if edits and not langedit.apply(P, edits): return None
    return P

def finish(P, limit, maxlen, need=None):
    code = P.render()
    if len(code) > maxlen: return None
    if need is not None and not need(P): return None
    try: xs = predict(P, limit)
    except (Taint, Budget): return None
    return {"code": code, "expect": xs, "stats": dict(P.stats), "steps": xs[0]["steps"]}

def gen(src, opt, limit=12000, maxlen=12000, need=None):
    c = finish(build(src, opt), limit, maxlen, need)
    return c

def reducer(opt, limit=12000, maxlen=12000, extra=lambda c: c, post=None):
    """case-level reduction: delete statements and simplify expressions of the generated tree.
    opt() gives the generator options (for a source)"""
    def reduce(case, choices):
        ed = list(case.get("edits", []))
        def make(e):
            from engine import Src
            src = Src(prefix=choices)
            try:
                P = build(src, opt(src) if callable(opt) else opt, ed + [e], post(case) if post else None)
                c = finish(P, limit, maxlen) if P is not None else None
            except Exception: return None
            if c is None: return None
            c["edits"] = ed + [e]
            return extra(c)
        from engine import Src
        src = Src(prefix=choices)
        P = build(src, opt(src) if callable(opt) else opt, ed, post(case) if post else None)
        if P is None: return
        for e in list(langedit.edits(P)):
            c = make(e)
            if c is not None and len(c["code"]) < len(case["code"]): yield c
    return reduce

def mismatch(o, x, exact=True):
    """None or what differs between an observation and a prediction.
    Optimized and translated code keeps the kind of a run-time fault and the host calls before it, but assignments next to the
    faulting operation may be moved or dropped: variables are not compared then (exact=False)"""
    if o.built is False: return "nocompile: " + re.sub(r"'[^']*'", "*", o.err.split("\n")[0]), "a valid program was rejected: " + o.err
    if o.status != "exit0": return "crash", "process ended with " + o.status
    if x["fault"]:
        if o.ok: return "nofault", "expected a run-time fault (%s), the program finished" % x["fault"]
        if langrun.errclass(o.err) != x["fault"]: return "fault", "expected fault %s, got: %s" % (x["fault"], o.err)
    else:
        if not o.ok: return "unexpected", "unexpected fault: " + (o.err or "")
        want = x["result"]
        if want and (o.result[1] != want[1] or o.result[2] != want[0]): return "result", "result %s %s, expected %s %s" % (o.result[2], o.result[1], want[0], want[1])
    if o.trace != x["trace"]: return "trace", "trace differs\n got: %r\nwant: %r" % (o.trace, x["trace"])
    if (exact or not x["fault"]) and o.globals != x["globals"]: return "globals", "globals differ\n got:\n%s\nwant:\n%s" % (o.globals, x["globals"])
    return None

def run_model(case, ctx, configs=CONFIGS, variants=True, lines=()):
    """lines: the optimization levels at which the reported call stack must be the predicted one"""
    n = 0
    for ex, op in configs:
        o = langrun.observe(ctx.w.run(langrun.ops(case["code"], ex, op))); n += 1
        if o.status in ("sig27", "sig14", "sig24"): return Outcome("executor %d optimization %d: time limit exceeded" % (ex, op), kind="timeout", evals=n)
        m = None; ok = []
        for k, x in enumerate(case["expect"]):
            if k and (op == 0 or not variants): break
            m2 = mismatch(o, x, op == 0 and ex == 0)
            if m2 is None: ok.append(x)
            elif k == 0: m = m2
        if ok: m = None
        if m is None and op in lines and o.built and not o.ok:
            bad = [check_lines(x, o) for x in ok]
            if bad and all(bad): m = ("lines", bad[0])
        if m: return Outcome("executor %d optimization %d: %s\n--- program\n%s" % (ex, op, m[1], case["code"]), kind=m[0], evals=n)
    return Outcome(evals=n)

def check_lines(x, o):
    """the call stack of a run-time error names the active calls and their lines, outermost first.
    The model does not know the name the compiler gives to a function expression nor the line of the last statement
    executed by a function that ends without a result: those are not compared"""
    if not x["fault"] or not x["lines"]: return None
    L = langrun.stack_lines(o.err)
    want = [list(f) for f in x["lines"]]
    if L is None: return "call stack cannot be read: " + o.err
    bad = len(L) != len(want)
    if not bad:
        for i, ((f, l), (wf, wl)) in enumerate(zip(L, want)):
            last = i == len(want) - 1
            if wf == "$lambda":
                if not f.startswith("$func"): bad = True
                continue
            if f != wf.replace('operator', '') or (l != wl and not (last and x["fault"] == "noreturn")): bad = True
    if bad: return "call stack\n%r\nexpected\n%r\n%s" % (L, want, o.err[:2000])
    return None

def show(case): return case["code"] + (("\n--- module\n" + case["mod"]) if case.get("mod") else "")

def labels(case):
    out = list(case["stats"])
    f = case["expect"][0]["fault"]
    out.append("fault: " + f if f else "no fault")
    if len(case["expect"]) > 1: out.append("removable faulting read")
    return out

def mixed(opts):
    """generator over several feature mixes; the first choice of the case selects the mix"""
    def opt(src): return opts[src.i(len(opts))]
    def gen(src, ctx, **k):
        return globals()["gen"](src, opt(src), **k)
    return opt, gen

def differ(a, b, lines=True, exact=True):
    """None or (kind, text): how two observations of one program differ; variables are not compared after a fault
    (stores next to the faulting operation may be moved or dropped by either side)"""
    if a.status != b.status: return "status", "process status %s and %s" % (a.status, b.status)
    if a.built != b.built: return "build", "build accepted: %s and %s\n%s\n%s" % (a.built, b.built, a.err, b.err)
    if not a.built: return None if a.err == b.err else ("builderror", "%s\n%s" % (a.err, b.err))
    if a.ok != b.ok: return "fault", "run finished: %s and %s\n%s\n%s" % (a.ok, b.ok, a.err, b.err)
    if not a.ok:
        if langrun.errclass(a.err) != langrun.errclass(b.err): return "faultkind", "%s\n%s" % (a.err, b.err)
        la, lb = langrun.stack_lines(a.err), langrun.stack_lines(b.err)
        # optimized code may drop a store through a null pointer that a later access repeats: the line of the innermost call moves
        if not exact and langrun.errclass(a.err) == "null" and la and lb: la = la[:-1] + [la[-1][0]]; lb = lb[:-1] + [lb[-1][0]]
        if lines and la != lb and langrun.errclass(a.err) != "overflow": return "faultlines", "%s\n%s" % (a.err, b.err)
    elif a.result != b.result: return "result", "result %r and %r" % (a.result, b.result)
    if a.trace != b.trace: return "trace", "trace\n%s\nand\n%s" % (a.trace, b.trace)
    if a.ok and a.globals != b.globals: return "globals", "globals\n%s\nand\n%s" % (a.globals, b.globals)
    return None
