"""Property-based testing engine: seeded choice sequences, parallel search, shrinking, replay, evidence.

A property module (props/cXX.py) provides
  ID, RULE, ASSUMPTIONS
  N = {"quick": cases, "thorough": cases}        fixed case counts (a pure function of VERIF_SEED)
  CAP = {"quick": seconds, "thorough": seconds}  wall clock cap; reaching it only lowers the count
  MIN_NONTRIVIAL = {"quick": n, ...}             below this the check fails as vacuous (exit 2)
  setup()            -> optional, runs once in the master (build what is needed)
  Ctx()              -> per-process context (workers, models)
  gen(src, ctx)      -> a JSON-able case, or None when the generator rejects
  run(case, ctx)     -> Outcome
Every random choice comes from `src`, so a case is a list of integers: shrinking edits that list.
"""
import os, sys, json, time, random, hashlib, traceback, multiprocessing as mp, importlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, VERIF)


class Src:
    """Source of choices. Fresh: a seeded PRNG. Replay: the given prefix, then zeros."""
    __slots__ = ("rnd", "pre", "pos", "out")

    def __init__(self, seed=None, prefix=None):
        self.rnd = random.Random(seed) if prefix is None else None
        self.pre = prefix; self.pos = 0; self.out = []

    def i(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.rnd is not None:
            v = int(self.rnd.random() * n) if n < (1 << 40) else self.rnd.randrange(n)
        elif self.pos < len(self.pre):
            v = self.pre[self.pos]; self.pos += 1
            if v >= n: v = v % n
        else:
            v = 0
        self.out.append(v)
        return v

    def rng(self, lo, hi):
        return lo + self.i(hi - lo + 1)

    def p(self, num, den=100):
        """true with probability num/den; shrinks towards false"""
        return self.i(den) >= den - num

    def pick(self, seq):
        return seq[self.i(len(seq))]

    def w(self, pairs):
        """pairs of (weight, value); the first one is the simplest"""
        tot = 0
        for wt, _ in pairs: tot += wt
        k = self.i(tot)
        for wt, v in pairs:
            if k < wt: return v
            k -= wt
        return pairs[-1][1]

    def shuffle(self, seq):
        seq = list(seq)
        for k in range(len(seq) - 1, 0, -1):
            j = k - self.i(k + 1)
            seq[k], seq[j] = seq[j], seq[k]
        return seq


class Outcome:
    __slots__ = ("violation", "nontrivial", "key", "labels", "sample", "evals", "kind")

    def __init__(self, violation=None, nontrivial=False, key=None, labels=(), sample=None, evals=1, kind=None):
        self.violation = violation      # None or a text saying what failed
        self.nontrivial = nontrivial; self.key = key; self.labels = labels; self.sample = sample
        self.evals = evals              # executions of the code under test
        self.kind = kind                # short class of the violation: shrinking keeps it


def case_digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def gen_case(prop, ctx, src):
    return prop.gen(src, ctx)


# ------------------------------------------------------------------ shrinking
def shrink(prop, ctx, choices, case, outcome, budget_s):
    t0 = time.time(); best = list(choices); bcase, bout = case, outcome
    size = lambda c: len(json.dumps(c))

    def attempt(cand):
        nonlocal best, bcase, bout
        if time.time() - t0 > budget_s: return False
        src = Src(prefix=cand)
        try:
            c = gen_case(prop, ctx, src)
            if c is None: return False
            if size(c) > size(bcase) or (size(c) == size(bcase) and src.out >= best): return False
            o = prop.run(c, ctx)
        except Exception:
            return False
        if o.violation and o.kind == bout.kind:
            best, bcase, bout = src.out, c, o
            return True
        return False

    def structural():
        # reduction of the case itself, supplied by the property: reduce(case, choices) yields smaller cases
        nonlocal bcase, bout
        if not hasattr(prop, "reduce"): return False
        any_ = False; again = True
        while again and time.time() - t0 < budget_s:
            again = False
            for c in prop.reduce(bcase, best):
                if time.time() - t0 > budget_s: break
                try: o = prop.run(c, ctx)
                except Exception: continue
                if o.violation and o.kind == bout.kind:
                    bcase, bout = c, o; again = any_ = True; break
        return any_

    if hasattr(prop, "reduce") and structural():
        return bcase, bout
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        n = len(best); k = max(1, n // 2)
        while k >= 1 and time.time() - t0 < budget_s:
            i = 0
            while i < len(best) and time.time() - t0 < budget_s:
                if attempt(best[:i] + best[i + k:]): improved = True
                else: i += k
            k //= 2
        i = 0
        while i < len(best) and time.time() - t0 < budget_s:
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]): improved = True
                else:
                    for nv in (v // 2, v - 1):
                        if 0 < nv < v and attempt(best[:i] + [nv] + best[i + 1:]):
                            improved = True; break
            i += 1
    return bcase, bout


# ------------------------------------------------------------------ worker process
def _child(modname, tier, seed, nproc, k, n, deadline, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        prop = importlib.import_module(modname)
        ctx = prop.Ctx()
        st = dict(cases=0, evals=0, rejected=0, nontrivial=0, keys=set(), labels={}, samples=[], viol=[], errors=[], capped=False)
        idx = k
        while idx < n and not stop.is_set():
            if time.time() > deadline:
                st["capped"] = True; break
            src = Src(seed="%s/%d/%d" % (prop.ID, seed, idx))
            case = None
            try:
                case = gen_case(prop, ctx, src)
                if case is None:
                    st["rejected"] += 1; idx += nproc; continue
                out = prop.run(case, ctx)
            except Exception:
                st["errors"].append("case %d: %s" % (idx, traceback.format_exc()))
                if case is not None:
                    try: json.dump(case, open(os.path.join(VERIF, "build", "error_case_%s.json" % prop.ID), "w"))
                    except Exception: pass
                try: ctx = prop.Ctx()
                except Exception: break
                if len(st["errors"]) > 3: break
                idx += nproc; continue
            st["cases"] += 1; st["evals"] += out.evals
            for l in out.labels: st["labels"][l] = st["labels"].get(l, 0) + 1
            if out.nontrivial:
                key = out.key or case_digest(case)
                if key not in st["keys"]:
                    st["keys"].add(key)
                    if len(st["samples"]) < 2 and out.sample is not None: st["samples"].append(out.sample)
            if out.violation:
                left = max(5, min(60, deadline + 60 - time.time()))
                c2, o2 = shrink(prop, ctx, src.out, case, out, left)
                st["viol"].append((idx, c2, o2.violation, o2.kind, case, out.violation))
                known = prop_known(prop, c2, o2)
                if not known:
                    stop.set(); break
                if len(st["viol"]) > 20: break
            idx += nproc
        q.put((k, st))
    except Exception:
        q.put((k, dict(fatal=traceback.format_exc())))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def prop_known(prop, case, out):
    """id of the listed (unfixed) finding this violation is an instance of, if any"""
    f = getattr(prop, "match_known", None)
    return f(case, out) if f else None


# ------------------------------------------------------------------ master
def confirm(prop, case, times=3):
    """replay with fresh contexts; returns the last outcome if it fails every time"""
    last = None
    for _ in range(times):
        ctx = prop.Ctx()
        try: o = prop.run(case, ctx)
        finally: getattr(ctx, "close", lambda: None)()
        if not o.violation: return None
        last = o
    return last


def main(modname, tier, seed):
    t0 = time.time()
    prop = importlib.import_module(modname)
    ID = prop.ID
    if hasattr(prop, "setup"): prop.setup()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    violations = []; known_lines = []

    # listed findings of this property: say whether each still fails
    for kf in known_findings():
        if kf.get("property") != ID or kf.get("status") != "open": continue
        ctx = prop.Ctx(); o = prop.run(kf["case"], ctx); getattr(ctx, "close", lambda: None)()
        if o.violation:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (ID, kf["what"]))
    # saved regression cases run first (repaired defects and hand-picked shapes)
    reg_n = 0
    regdir = os.path.join(VERIF, "regress", ID)
    if os.path.isdir(regdir):
        ctx = prop.Ctx()
        for fn in sorted(os.listdir(regdir)):
            case = json.load(open(os.path.join(regdir, fn)))
            o = prop.run(case, ctx); reg_n += 1
            if o.violation and not prop_known(prop, case, o):
                violations.append((-1, case, o.violation, o.kind, case, o.violation)); break
        getattr(ctx, "close", lambda: None)()

    n = prop.N[tier]; cap = prop.CAP[tier]
    nproc = getattr(prop, "NPROC", 8)
    stats = []
    if not violations:
        q = mp.Queue(); stop = mp.Event(); deadline = time.time() + cap
        ps = [mp.Process(target=_child, args=(modname, tier, seed, nproc, k, n, deadline, q, stop)) for k in range(nproc)]
        for p in ps: p.start()
        got = {}
        while len(got) < nproc:
            try:
                k, st = q.get(timeout=5); got[k] = st
            except Exception:
                if all(not p.is_alive() for p in ps) and q.empty():
                    break
                if time.time() > deadline + 200:
                    break
        for p in ps:
            p.join(2)
            if p.is_alive(): p.kill()
        for k in range(nproc):
            st = got.get(k)
            if st is None: print("engine: process %d gave no result" % k); return 2
            if "fatal" in st: print("engine: process %d failed\n%s" % (k, st["fatal"])); return 2
            stats.append(st)
    errors = [e for st in stats for e in st["errors"]]
    cand = violations + sorted([v for st in stats for v in st["viol"]], key=lambda v: v[0])
    confirmed = []; unconfirmed = 0; known_hits = {}
    for idx, case, what, kind, orig, owhat in cand:
        o = confirm(prop, case)
        if o is None and orig != case:
            case = orig; o = confirm(prop, case)
        if o is None:
            unconfirmed += 1
            path = os.path.join(VERIF, "replays", "%s-unconfirmed-%d.json" % (ID, idx))
            json.dump({"property": ID, "case": case, "what": what}, open(path, "w"))
            print("note: case %d failed once and did not fail again (%s), kept as %s" % (idx, what.splitlines()[0][:200], path))
            continue
        kid = prop_known(prop, case, o)
        if kid:
            known_hits[kid] = known_hits.get(kid, 0) + 1; continue
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (ID, case_digest(case)))
        json.dump({"property": ID, "case": case, "what": o.violation, "index": idx, "seed": seed}, open(path, "w"), indent=1)
        confirmed.append((path, o.violation))
        break
    for l in known_lines: print(l)
    keys = set(); labels = {}; samples = []
    for st in stats:
        keys |= st["keys"]
        for l, c in st["labels"].items(): labels[l] = labels.get(l, 0) + c
        samples += st["samples"]
    cases = sum(st["cases"] for st in stats)
    ev = {
        "property": ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases + reg_n,
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": samples[:6] or ["(stopped at the first failing case)"],
            "executions": sum(st["evals"] for st in stats),
            "regression_cases": reg_n,
            "generator_rejections": sum(st["rejected"] for st in stats),
            "stopped_by_time_cap": any(st["capped"] for st in stats),
            "classes": dict(sorted(labels.items())),
            "unconfirmed": unconfirmed, "known_finding_hits": known_hits,
        },
        "violations": len(confirmed), "wall_s": round(time.time() - t0, 2),
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", ID + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d executions, %d distinct non-trivial, %d rejected, %.1f s%s" % (
        ID, tier, seed, cases + reg_n, ev["coverage"]["executions"], len(keys), ev["coverage"]["generator_rejections"],
        ev["wall_s"], " (time cap)" if ev["coverage"]["stopped_by_time_cap"] else ""))
    if confirmed:
        for path, what in confirmed:
            print(what[:6000])
            print("VIOLATION property=%s replay=%s" % (ID, path))
        return 1
    if errors:
        print("engine: %d cases raised errors in the harness; first:\n%s" % (len(errors), errors[0])); return 2
    if len(keys) < prop.MIN_NONTRIVIAL[tier]:
        print("engine: only %d distinct non-trivial cases (need %d)" % (len(keys), prop.MIN_NONTRIVIAL[tier])); return 2
    return 0


def replay(modname, path):
    prop = importlib.import_module(modname)
    if hasattr(prop, "setup"): prop.setup()
    d = json.load(open(path)); case = d["case"] if isinstance(d, dict) and "case" in d and "property" in d else d
    ctx = prop.Ctx(); o = prop.run(case, ctx)
    if hasattr(prop, "show"): print(prop.show(case))
    if o.violation:
        print(o.violation); print("VIOLATION property=%s replay=%s" % (prop.ID, path)); return 1
    print("no violation"); return 0
