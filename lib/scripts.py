"""Scripts with a predicted trace: a case is a list of operations, render(case) gives the program and the lines it must trace."""
import worker, langrun
from engine import Outcome

class Ctx:
    def __init__(self): self.w = worker.Worker("plain")
    def close(self): self.w.close()
def setup(): worker.build_worker("plain")

class Bad(Exception): pass
ALL = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]
TWO = [(0, 0), (0, 2), (1, 1)]

def dropper(key="ops", minimum=1):
    """reduction: leave out blocks of operations, then single ones"""
    def reduce(case, choices):
        ops = case[key]; n = len(ops); k = n // 2
        while k >= 1:
            for s in range(0, n, k):
                r = ops[:s] + ops[s + k:]
                if len(r) >= minimum: yield dict(case, **{key: r})
            k //= 2
        if len(case.get("cfgs", ())) > 1:
            for c in case["cfgs"]: yield dict(case, cfgs=[c])
    return reduce

def trace_lines(t): return t.split("\n")[:-1] if t else []

def check(case, ctx, render, labels=(), nontrivial=True, cfgs=None, prep=(), after=(), mid=(), as_mb=0, timeout_ms=4000):
    """run at every configuration; render gives (code, lines) or (code, lines, error) where error is a text the run has to end with"""
    try: R = render(case)
    except Bad: return Outcome(labels=["not applicable"])
    code, want = R[0], R[1]; err = R[2] if len(R) > 2 else None
    cfgs = cfgs or case.get("cfgs") or [(0, 0)]
    out = Outcome(nontrivial=nontrivial, key=code, labels=list(labels), sample=code[:700], evals=len(cfgs))
    for ex, op in cfgs:
        ops = list(prep) + [["exec", ex], ["opt", op], ["build", code]] + list(mid) + [["run"], ["trace"]] + list(after)
        r = ctx.w.run(ops, timeout_ms=timeout_ms, as_mb=as_mb); k = len(prep); m = k + len(mid)
        where = "executor %d optimization %d: " % (ex, op)
        if r.timeout: return fail(out, "time", where + "the program does not finish", code)
        if not r.clean: return fail(out, "crash", where + "the host ended with %s" % r.status, code)
        if not r[k + 2].ok: return fail(out, "rejected", where + "the program was rejected: " + r[k + 2].err, code)
        got = trace_lines(r[m + 4].data[0])
        d = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), None)
        e = "" if r[m + 3].ok else r[m + 3].err
        if d is not None:
            return fail(out, "trace", where + "line %d of the trace is %r instead of %r%s" % (d + 1, got[d] if d < len(got) else "missing", want[d] if d < len(want) else "nothing", ("; the run failed: " + e) if e else ""), code, want, got)
        if err is None and e: return fail(out, "fault", where + "the run failed: " + e, code)
        if err is not None and (not e or err not in e): return fail(out, "no fault", where + "the run did not fail with %r: %s" % (err, e or "it succeeded"), code)
    return out

def fail(out, kind, t, code, want=None, got=None):
    out.kind = kind; out.violation = t + "\n--- program\n" + code + ("\n--- expected trace\n%s\n--- trace\n%s" % ("\n".join(want), "\n".join(got)) if want is not None else ""); return out
