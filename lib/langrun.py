"""Running a generated program on the real implementation and reducing it to an observation."""
import re
CONFIGS = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]

def ops(code, ex, opt, prefix="g"):
    return [["exec", ex], ["opt", opt], ["build", code], ["run"], ["result"], ["trace"], ["globals", prefix]]

class Obs:
    """what the host saw"""
    __slots__ = ("status", "built", "ok", "err", "result", "trace", "globals")
    def key(self):
        return (self.status, self.built, self.ok, errclass(self.err) if not self.ok else "", self.result if self.ok else None, self.trace, self.globals)
    def text(self):
        return "status=%s built=%s run=%s\nerror: %s\nresult: %s\ntrace:\n%sglobals:\n%s" % (self.status, self.built, self.ok, self.err, self.result, self.trace, self.globals)

FAULTS = [("integer division", "div"), ("null pointer", "null"), ("array index out of bounds", "index"), ("call to an undefined function", "nullfn"), ("null function", "nullfn"), ("invalid function pointer", "nullfn"),
          ("didn't return a value", "noreturn"), ("cannot convert from", "cast"), ("stack overflow", "overflow"), ("register overflow", "overflow"), ("unsized array size", "convsize"),
          ("allocation limit", "memory"), ("can't allocate", "memory"), ("user:", "user")]

def errclass(e):
    e = e or ""
    for t, k in FAULTS:
        if t in e: return k
    return e.split("\n")[0]

def observe(res):
    o = Obs()
    o.status = res.status; o.built = o.ok = None; o.err = ""; o.result = None; o.trace = o.globals = ""
    b, r = res[2], res[3]
    if b is None: return o
    o.built = b.ok
    if not b.ok:
        o.err = b.err; return o
    if r is None: return o
    o.ok = r.ok; o.err = r.err if not r.ok else ""
    if res[4] is not None and r.ok: o.result = tuple(res[4].data)
    if res[5] is not None: o.trace = res[5].data[0]
    if res[6] is not None: o.globals = res[6].data[0]
    return o

FRAME = re.compile(r"^(.*?) \(line (\d+): at ")
def stack_lines(err):
    """call stack of an error message: [[function, line]...], outermost first; None when a frame cannot be read"""
    t = (err or "").replace("\r", "").split("Call stack:\n")
    if len(t) != 2: return None
    out = []
    for l in t[1].split("\n"):
        if not l: continue
        m = FRAME.match(l)
        if not m: return None
        out.append([m.group(1).split("::")[-1], int(m.group(2))])
    return out
