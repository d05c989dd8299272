"""C20: statements, classes and arrays behave as the documentation says (reference interpreter)."""
import langprop
from langprop import Ctx, setup, show
from langgen import Opt
from engine import Outcome

ID = "C20"
RULE = "a generated program whose predicted run executes at least 60 model steps and makes at least 3 host calls or changes a global"
ASSUMPTIONS = ["the reference interpreter in lib/lang.py states the documented semantics", "programs stay inside the documented domain (no out-of-range double to integer conversions or shift counts)"]
N = {"quick": 6000, "thorough": 120000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

OPT = Opt()
def gen(src, ctx): return langprop.gen(src, OPT)
reduce = langprop.reducer(OPT)

CF = [(0, 0), (0, 2), (1, 1)]
def run(case, ctx):
    out = langprop.run_model(case, ctx, CF if "cf" not in case else case["cf"])
    out.nontrivial = case["steps"] >= 60 and (case["expect"][0]["trace"].count("\n") >= 3 or "g" in case["expect"][0]["globals"])
    out.labels = langprop.labels(case); out.sample = case["code"][:600]
    return out
