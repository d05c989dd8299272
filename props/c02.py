"""C02: every optimization level gives the behaviour of the unoptimized program (and of the reference interpreter)."""
import langprop, langrun
from langprop import Ctx, setup, show
from langgen import Opt
from engine import Outcome

ID = "C02"
RULE = "a generated program whose predicted run executes at least 60 model steps and makes at least 3 host calls or changes a global"
ASSUMPTIONS = ["programs stay inside the documented domain (no out-of-range double to integer conversions or shift counts)",
               "a read that faults may be removed when its value is never used (accepted when the run without it is independent of its value)",
               "after a run-time fault the kind and the host calls are compared, not the variables"]
N = {"quick": 4500, "thorough": 100000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

opt, _gen = langprop.mixed([Opt(), Opt(size=20, depth=4), Opt(arrays=95, classes=90, refs=90), Opt(mainfn=95, jumps=True, size=18), Opt(recursion=70, methods=90, floats=False), Opt(fnvals=60, closures=60, coroutines=50, size=14)])
def gen(src, ctx): return _gen(src, ctx)
reduce = langprop.reducer(opt)

CF = [(0, 0), (0, 1), (0, 2), (1, 2)]
def run(case, ctx):
    out = langprop.run_model(case, ctx, CF)
    out.nontrivial = case["steps"] >= 60 and (case["expect"][0]["trace"].count("\n") >= 3 or "g" in case["expect"][0]["globals"])
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    return out
