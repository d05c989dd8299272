"""C01: register VM and JIT agree on generated programs at every optimization level."""
import langprop, langrun
from langprop import Ctx, setup, show
from langgen import Opt
from engine import Outcome

ID = "C01"
RULE = "a generated program whose predicted run executes at least 60 model steps and makes at least 3 host calls or changes a global"
ASSUMPTIONS = ["programs stay inside the documented domain (no out-of-range double to integer conversions or shift counts)",
               "after a run-time fault the kind, the call stack and the host calls are compared, not the variables: either executor may drop stores next to the fault"]
N = {"quick": 4200, "thorough": 90000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

opt, _gen = langprop.mixed([Opt(), Opt(faults=30), Opt(size=20, depth=4), Opt(classes=90, arrays=90, refs=80), Opt(fnvals=60, closures=60, coroutines=60), Opt(recursion=80, mainfn=90, depth=4)])
def gen(src, ctx): return _gen(src, ctx)
reduce = langprop.reducer(opt)

def run(case, ctx):
    n = 0; out = Outcome()
    for op in (0, 1, 2):
        a, b = [langrun.observe(ctx.w.run(langrun.ops(case["code"], ex, op))) for ex in (0, 1)]; n += 2
        if b.status in ("sig27", "sig14", "sig24") and a.status == b.status: continue
        d = langprop.differ(a, b, exact=op == 0)
        if d is None and a.status != "exit0": d = ("crash", "both executors: process ended with " + a.status)
        if d:
            out = Outcome("optimization %d: register VM and JIT differ: %s\n--- register VM\n%s\n--- JIT\n%s\n--- program\n%s" % (op, d[1], a.text(), b.text(), case["code"]), kind=d[0]); break
    out.evals = n
    out.nontrivial = case["steps"] >= 60 and (case["expect"][0]["trace"].count("\n") >= 3 or "g" in case["expect"][0]["globals"])
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    return out
