"""C06: run-time faults are reported with their kind and call stack, the host stays usable."""
import langprop, langrun, faultgen
from langprop import Ctx, setup, show
from langgen import Opt
from engine import Outcome

ID = "C06"
RULE = "a generated program whose run ends in a run-time fault"
ASSUMPTIONS = ["with optimization off the fault, its call stack, host calls and (register VM) variables are those of the reference interpreter",
               "with optimization on both executors must agree on the fault, its call stack and the host calls"]
N = {"quick": 12000, "thorough": 250000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

opt, _gen = langprop.mixed([Opt(faults=30), Opt(faults=45, depth=2), Opt(faults=30, fnvals=70, closures=60, coroutines=60), Opt(faults=40, classes=95, methods=95)])
def gen(src, ctx):
    if src.p(40): return faultgen.gen(src)
    c = _gen(src, ctx)
    if c is None or not c["expect"][0]["fault"]: return None
    return c
def ropt(src):
    src.p(40); return opt(src)
_red = langprop.reducer(ropt, extra=lambda c: c if c["expect"][0]["fault"] else None)
def reduce(case, choices):
    if "nofault" in case or case.get("kind") == "fault": return []
    return _red(case, choices)

AFTER = "int g99 = 5; int after(int x){ return x * g99 + 2; } return after(8);"
def run(case, ctx):
    if case.get("kind") == "fault": return faultgen.run(case, ctx)
    out = langprop.run_model(case, ctx, [(0, 0), (1, 0)], lines=(0,))
    if not out.violation:
        for op in (1, 2):
            res = [ctx.w.run(langrun.ops(case["code"], ex, op) + [["build", AFTER], ["run"], ["result"]]) for ex in (0, 1)]; out.evals += 2
            a, b = [langrun.observe(r) for r in res]
            d = langprop.differ(a, b, exact=op == 0)
            if d is None and a.status != "exit0": d = ("crash", "both executors: process ended with " + a.status)
            if d is None and a.status == "exit0" and not a.ok:
                for r in res:
                    if not r[9] or not r[8].ok or r[9].data[1] != "42": d = ("after", "after the fault the next program gives %r" % (r.r[7:],)); break
            if d:
                out.violation = "optimization %d: %s\n--- program\n%s" % (op, d[1], case["code"]); out.kind = d[0]; break
    out.nontrivial = True
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    return out
