"""C08: closures, coroutines and local functions keep their own captured state (reference interpreter)."""
import langprop
from langprop import Ctx, setup, show
from langgen import Opt
from engine import Outcome

ID = "C08"
RULE = "a generated program that creates a closure, local function or coroutine and whose predicted run executes at least 60 model steps"
ASSUMPTIONS = ["the reference interpreter in lib/lang.py states the documented semantics"]
N = {"quick": 5000, "thorough": 110000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

opt, _gen = langprop.mixed([Opt(fnvals=90, closures=90, coroutines=60, faults=0, floats=False, classes=40, arrays=40), Opt(fnvals=90, closures=90, coroutines=95, faults=0, depth=2), Opt(fnvals=90, closures=90, coroutines=30, mainfn=95, refs=80, faults=0)])
def gen(src, ctx): return _gen(src, ctx)
reduce = langprop.reducer(opt)

KEYS = ("closure", "local function", "local coroutine", "coroutine", "bound method", "function value")
def run(case, ctx):
    out = langprop.run_model(case, ctx, [(0, 0), (0, 2), (1, 0), (1, 2)])
    out.nontrivial = case["steps"] >= 60 and any(k in case["stats"] for k in KEYS)
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    return out
