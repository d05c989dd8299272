"""C24: nullcl and nullc_exec give what the library gives, and fail with a message and a failing exit status."""
import os, re, subprocess, tempfile, shutil, struct
import build, worker, langrun
import props.c09 as c09
from engine import Outcome

ID = "C24"
RULE = "a program split into modules that ran through a compiled library with output or a result, or damaged input (or an argument list) that had to be refused, or a module named by its path"
ASSUMPTIONS = ["the oracle for programs is the library's API with the same sources", "damage: truncation at any byte, a missing or foreign file and changed module names; bytes inside of the bytecode are not changed (it carries no checksum)",
               "exit status of nullc_exec without -v: the numeric result of the script modulo 256, 0 without a result; 1 after an error"]
N = {"quick": 1500, "thorough": 40000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 120, "thorough": 1500}

R = build.REPO
def tools():
    e = build.build("plain", "nullc_exec", [os.path.join(R, "nullc_exec", "main.cpp")])
    a = build.build("asan", "nullc_exec", [os.path.join(R, "nullc_exec", "main.cpp")])
    c = build.build("plain", "nullcl", [os.path.join(R, "nullcl", "main.cpp")], extra_flags=["-DNULLC_NO_EXECUTOR"], compiler_only=True)
    return c, e, a
def setup(): worker.build_worker("plain"); tools()

VTP = """import std.io;
void ti(int x){ Print("i"); Print(x); Print("\\n"); }
void tl(long x){ Print("l"); Print(x); Print("\\n"); }
void td(double x){ Print("d"); Print(x); Print("\\n"); }
void ts(char[] x){ Print("s"); Print(x); Print("\\n"); }
void stop(char[] t){ assert(0, t); }
"""
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:allow_user_segv_handler=1", LC_ALL="C")

class Ctx:
    def __init__(self):
        self.w = worker.Worker("plain"); self.cl, self.ex, self.exa = tools()
        self.dir = tempfile.mkdtemp(prefix="c24-"); self.n = 0
    def close(self):
        self.w.close(); shutil.rmtree(self.dir, ignore_errors=True)
    def scratch(self, modules=True):
        """empty working directory with the standard modules"""
        self.n += 1; d = os.path.join(self.dir, "w%d" % self.n); os.makedirs(os.path.join(d, "Modules"))
        for x in os.listdir(os.path.join(R, "Modules")): os.symlink(os.path.join(R, "Modules", x), os.path.join(d, "Modules", x))
        open(os.path.join(d, "Modules", "vtp.nc"), "w").write(VTP)
        return d
    def call(self, d, exe, *args):
        try: p = subprocess.run([exe] + list(args), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=30)
        except subprocess.TimeoutExpired: return None, b"", b""
        return p.returncode, p.stdout, p.stderr

OKMODS = set("vt std.math std.vector std.list std.hashmap std.map std.range std.algorithm std.typeinfo std.dynamic std.string std.io std.error std.event".split())

def gen(src, ctx):
    k = src.w([(5, "lib"), (2, "names"), (2, "damage"), (2, "args")])
    if k == "lib":
        c = c09.gen(src, ctx)
        if c is None or not set(c["imps"]) <= OKMODS: return None
        return {"kind": "lib", "case": c, "x86": src.i(2), "v": src.i(2), "m": src.i(2)}
    if k == "names":
        n = src.rng(1, 3); fs = []
        for i in range(n):
            parts = ["%s%d" % (src.pick(["m", "lib", "a_b", "x"]), i)]
            for j in range(src.i(4)): parts.insert(0, src.pick(["d", "ee", "fgh", "a", "q1"]))
            fs.append({"parts": parts, "pre": src.pick(["", "", "./", "././"]), "m": src.p(20), "val": src.i(1000), "dep": src.i(i) if i and src.p(40) else None})
        return {"kind": "names", "files": fs, "out": src.i(2), "v": src.i(2)}
    if k == "damage":
        return {"kind": "damage", "mods": src.rng(1, 3), "how": src.pick(["cut", "cut", "cut", "name", "empty", "dir", "text", "zero", "size"]), "at": src.i(1 << 20), "byte": src.i(255) + 1, "v": src.i(2), "x86": src.i(2)}
    toks = ["good.nc", "good2.nc", "bad.nc", "missing.nc", "dir.nc", "-m", "-m", "mod.x", "-v", "-o", "out.ncm", "nodir/out.ncm", "empty.nc", "-c", "-i", "Modules", "o.cpp", "nodir/o.cpp"]
    xt = ["good.nc", "bad.nc", "fault.nc", "missing.nc", "dir.nc", "-v", "-x86", "empty.nc", "junk", "noresult.nc", "dbl.nc", "lng.nc", "none.nc", "long.nc"]
    which = src.i(2)
    return {"kind": "args", "tool": which, "args": [src.pick(xt if which else toks) for _ in range(src.i(6))]}

def reduce(case, choices):
    if case["kind"] == "args":
        for i in range(len(case["args"])): yield dict(case, args=case["args"][:i] + case["args"][i + 1:])
    elif case["kind"] == "names":
        for i in range(len(case["files"])):
            if case["files"][i].get("dep") is not None: yield dict(case, files=[dict(f, dep=None) if q == i else f for q, f in enumerate(case["files"])])
            if len(case["files"]) > 1: yield dict(case, files=[dict(f, dep=None) for f in case["files"][:i] + case["files"][i + 1:]])
    elif case["kind"] == "lib":
        for c in c09.reduce(case["case"], choices): yield dict(case, case=c)

def show(case): return (c09.show(case["case"]) if case["kind"] == "lib" else repr(case))
def bad(out, kind, text, case): out.kind = kind; out.violation = text + "\n---\n" + show(case); return out
def txt(b): return b.decode("latin1")

def exitcode(res):
    """exit status for a result [type id, value, type name, dump]"""
    t, v = res[2], res[1]
    if t in ("int", "long"): return int(v) & 255
    return None if t == "double" else 0

def run(case, ctx):
    d = ctx.scratch()
    try: return globals()["run_" + case["kind"]](case, ctx, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def put(d, name, text):
    p = os.path.join(d, name); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="latin1", newline="") as f: f.write(text)

def run_lib(case, ctx, d):
    c = case["case"]; mods, main = c09.texts(c); nm = c09.names(c)
    fix = lambda t: re.sub(r"^import vt;", "import vtp;", t, flags=re.M)
    mods = [fix(t) for t in mods]; main = fix(main)
    out = Outcome(key=main + "".join(mods), labels=["library", "x86" if case["x86"] else "vm"], sample=show(case)[:600])
    load = [["loadsrc", "vtp", VTP]] + [["loadsrc", n, t] for n, t in zip(nm, mods)]
    r = ctx.w.run([["exec", case["x86"]]] + load + [["build", main], ["run"], ["resultstr"], ["result"], ["out"]])
    k = 1 + len(load); out.evals = 1
    if not r.clean or r.timeout: out.labels.append("library does not finish"); return out
    if not all(x.ok for x in r.r[:k]):
        # a module that is refused by the library is refused by nullcl
        i = next(i for i in range(k) if not r[i].ok)
        if r.r[i].op != "loadsrc" or i < 2: return out
        for n, t in zip(nm, mods): put(d, n.replace(".", "/") + ".nc", t)
        j = i - 2; put(d, "Modules/m.txt", "")
        for q in range(j): put(d, "Modules/" + nm[q].replace(".", "/") + ".nc", mods[q])
        rc, o, e = ctx.call(d, ctx.cl, "-o", "x.ncm", nm[j].replace(".", "/") + ".nc"); out.evals += 1
        if rc != 1 or not o: return bad(out, "accepted", "nullcl accepted a module that is rejected by the library (%s): exit %s, %r" % (r[i].err, rc, txt(o)), case)
        out.labels.append("module rejected"); out.nontrivial = True; return out
    built, ran, rs, res, po = r[k], r[k + 1], r[k + 2], r[k + 3], r[k + 4]
    if built.ok:
        want = po.data[0]
        if len(want) > 100000: out.labels.append("long output"); return out
        if ran.ok: code = 0 if case["v"] else exitcode(res.data); tail = "\n%s\n" % rs.data[0] if case["v"] else ""
        else: code = 1; tail = "Execution failed: %s\n" % ran.err
    else: want = ""; code = 1; tail = "Build failed: %s\n" % built.err
    if not ran.ok and langrun.errclass(ran.err) in ("overflow",): tail = None
    files = []
    for n, t in zip(nm, mods):
        f = n.replace(".", "/") + ".nc" if not case["m"] else "src_%s.nc" % n.replace(".", "_")
        put(d, f, t); files += [f] + (["-m", n] if case["m"] else [])
    put(d, "main.nc", main)
    rc, o, e = ctx.call(d, ctx.cl, "-o", "nullclib.ncm", *files); out.evals += 1
    if rc != 0: return bad(out, "nullcl", "nullcl: exit %s: %s %s" % (rc, txt(o), txt(e)), case)
    opts = (["-x86"] if case["x86"] else []) + (["-v"] if case["v"] else [])
    got = [("with the library", ctx.call(d, ctx.ex, *(opts + ["main.nc"])))]
    os.unlink(os.path.join(d, "nullclib.ncm"))
    for n, t in zip(nm, mods): put(d, "Modules/" + n.replace(".", "/") + ".nc", t)
    got.append(("with the sources", ctx.call(d, ctx.ex, *(opts + ["main.nc"])))); out.evals += 2
    for how, (rc, o, e) in got:
        o = txt(o)
        if rc is None: return bad(out, "time", "nullc_exec %s: does not finish" % how, case)
        if rc < 0: return bad(out, "crash", "nullc_exec %s: signal %d %s" % (how, -rc, txt(e)[:500]), case)
        o = o.replace("WARNING: Failed to open precompiled module file nullclib.ncm\r\n", "")
        if code is not None and rc != code: return bad(out, "status", "nullc_exec %s: exit status %d, expected %d\n%s" % (how, rc, code, o[-500:]), case)
        if (o != want + tail) if tail is not None else not o.startswith(want[:max(0, len(want) - 1)]):
            return bad(out, "output", "nullc_exec %s: output\n%r\nexpected\n%r" % (how, o[-3000:], (want + (tail or ""))[-3000:]), case)
    out.nontrivial = bool(want) or (ran.ok and bool(res.data)); out.labels.append("fault" if built.ok and not ran.ok else "runs" if built.ok else "rejected")
    return out

def run_names(case, ctx, d):
    out = Outcome(key=repr(case), labels=["module names"], sample=repr(case)[:500], nontrivial=True)
    args = []; imp = []; tot = 0; vals = []
    for i, f in enumerate(case["files"]):
        # a later file may import an earlier one by its module name
        k = f.get("dep"); v = f["val"] + (vals[k] if k is not None else 0); vals.append(v)
        put(d, "/".join(f["parts"]) + ".nc", ("import %s;\nint value%d(){ return %d + value%d(); }\n" % (imp[k], i, f["val"], k)) if k is not None else "int value%d(){ return %d; }\n" % (i, f["val"]))
        args.append(f["pre"] + "/".join(f["parts"]) + ".nc"); name = ".".join(f["parts"])
        if f["m"]: name = "given.n%d" % i; args += ["-m", name]
        imp.append(name); tot += v * (i + 1)
    put(d, "main.nc", "".join("import %s;\n" % n for n in imp) + "import std.io;\nint r = %s;\nPrint(r);\nreturn r %% 200;\n" % " + ".join("value%d() * %d" % (i, i + 1) for i in range(len(imp))))
    if case["out"]:
        rc, o, e = ctx.call(d, ctx.cl, "-o", "nullclib.ncm", *args)
    else:
        rc, o, e = ctx.call(d, ctx.cl, *args)
        try:
            with open(os.path.join(d, "nullclib.ncm"), "wb") as lib:
                for f in case["files"]: lib.write(open(os.path.join(d, "/".join(f["parts"]) + ".ncm"), "rb").read())
        except OSError as x: return bad(out, "nofile", "nullcl %s: exit %s, %s: %s" % (args, rc, txt(o), x), case)
    if rc != 0: return bad(out, "nullcl", "nullcl %s: exit %s: %s" % (args, rc, txt(o)), case)
    # sources are gone: the library has to serve the imports
    for f in case["files"]: os.unlink(os.path.join(d, "/".join(f["parts"]) + ".nc"))
    rc, o, e = ctx.call(d, ctx.ex, *((["-v"] if case["v"] else []) + ["main.nc"])); out.evals = 2
    want = "%d" % tot + ("\n%d\n" % (tot % 200) if case["v"] else "")
    if txt(o) != want or rc != (0 if case["v"] else tot % 200): return bad(out, "names", "nullcl %s: the program printed %r with exit status %s, expected %r" % (args, txt(o), rc, want), case)
    return out

def entries(b):
    p = 0; out = []
    while p < len(b):
        e = b.index(0, p) + 1; n = struct.unpack_from("<I", b, e)[0]; out.append((p, e, e + n)); p = e + n
    return out

def run_damage(case, ctx, d):
    out = Outcome(key=repr(case), labels=["damaged: " + case["how"]], sample=repr(case)[:300], nontrivial=True)
    n = case["mods"]; files = []
    for i in range(n): put(d, "q%d.nc" % i, "int value%d(int x){ int r = %d; for(int k = 0; k < x; k++) r += k; return r; }\n" % (i, i)); files.append("q%d.nc" % i)
    put(d, "main.nc", "".join("import q%d;\n" % i for i in range(n)) + "return 77;\n")
    rc, o, e = ctx.call(d, ctx.cl, "-o", "nullclib.ncm", *files)
    if rc != 0: return bad(out, "nullcl", "nullcl: exit %s: %s" % (rc, txt(o)), case)
    L = os.path.join(d, "nullclib.ncm"); b = open(L, "rb").read(); E = entries(b)
    for f in files: os.unlink(os.path.join(d, f))
    rc, o, e = ctx.call(d, ctx.exa, "main.nc"); out.evals = 3
    if rc != 77: return bad(out, "intact", "intact library: exit status %s, expected 77: %s %s" % (rc, txt(o), txt(e)[-1500:]), case)
    how = case["how"]
    if how == "cut":
        # near the ends of the entries as often as anywhere
        at = case["at"]
        if at % 3 == 0: at = max(0, min(len(b) - 1, E[at // 3 % n][at // 7 % 3] + at // 11 % 9 - 4))
        b2 = b[:at % len(b)]
    elif how == "name":
        p, q, _ = E[case["at"] % n]; x = p + case["at"] // n % (q - p - 1); b2 = b[:x] + bytes([b[x] ^ case["byte"] or 1]) + b[x + 1:]
    elif how == "empty": b2 = b""
    elif how == "zero": b2 = b"\0" * (case["at"] % 300 + 1)
    elif how == "text": b2 = (b"this is not a library " * 40)[:case["at"] % 800 + 1]
    elif how == "size":
        p, q, z = E[case["at"] % n]; s = [0, 1, 4, z - q + 1 if case["at"] % n == n - 1 else len(b) + 1, len(b), 0x7fffffff, 0xffffffff, 0x80000000][case["byte"] % 8]; b2 = b[:q] + struct.pack("<I", s) + b[q + 4:]
    os.unlink(L)
    if how == "dir": os.mkdir(L)
    else: open(L, "wb").write(b2)
    rc, o, e = ctx.call(d, ctx.exa, *((["-v"] if case["v"] else []) + (["-x86"] if case["x86"] else []) + ["main.nc"]))
    if rc is None: return bad(out, "time", "nullc_exec does not finish on a damaged library", case)
    if rc != 1 or not o: return bad(out, "damage", "nullc_exec with a damaged library: exit status %s, output %r\n%s" % (rc, txt(o), txt(e)[-2500:]), case)
    return out

SCRIPTS = {"good.nc": ("import std.io; Print(\"hi\"); return 5;", 5, "hi"), "good2.nc": ("int twice(int x){ return x * 2; }", 0, ""), "bad.nc": ("int x = ;", None, "Build failed: "), "fault.nc": ("import std.io; Print(\"a\"); int[] q; return q[4];", None, "aExecution failed: "),
           "empty.nc": ("", None, "Build failed: "), "noresult.nc": ("import std.io; Print(\"n\");", 0, "n"), "dbl.nc": ("return 3.5;", 3, ""), "lng.nc": ("return 300l;", 44, ""), "none.nc": ("import no.such.module; return 1;", None, "Build failed: "),
           "long.nc": ("import std.io; for(int i = 0; i < 3000; i++) Print(\"0123456789\"); return -1;", 255, "0123456789" * 3000)}
def run_args(case, ctx, d):
    out = Outcome(key=repr(case), labels=["arguments of " + ("nullc_exec" if case["tool"] else "nullcl")], sample=repr(case)[:300], nontrivial=bool(case["args"]))
    for n, (t, _, _) in SCRIPTS.items(): put(d, n, t)
    os.mkdir(os.path.join(d, "dir.nc")); a = case["args"]
    exe = ctx.exa if case["tool"] and "-x86" not in a else ctx.ex if case["tool"] else ctx.cl
    rc, o, e = ctx.call(d, exe, *a); out.evals = 1; o = txt(o)
    where = "%s %s: exit status %s, output %r" % ("nullc_exec" if case["tool"] else "nullcl", " ".join(a), rc, o[:600])
    if rc is None or rc < 0 or "AddressSanitizer" in txt(e): return bad(out, "crash", where + txt(e)[-1500:], case)
    if case["tool"]:
        f = next((x for x in reversed(a) if ".nc" in x), None)
        if f is None: ok = (not a) or (rc == 1 and bool(o))
        elif f not in SCRIPTS: ok = rc == 1 and bool(o)
        else:
            _, code, text = SCRIPTS[f]; v = "-v" in a
            o2 = o.replace("WARNING: Failed to open precompiled module file nullclib.ncm\r\n", "")
            if code is None: ok = rc == 1 and o2.startswith(text) and len(o2) > len(text)
            elif f == "good2.nc": ok = rc in (0, 1)
            else: ok = o2.startswith(text) and (rc == 0 and len(o2) > len(text) if v else rc == code and o2 == text)
        if not ok: return bad(out, "args", where, case)
        return out
    # nullcl
    i = 0; good = True; mode = "each"; made = []
    if not a: good = None
    if a[:1] == ["-v"]: i = 1
    if good and i == len(a): good = False
    if good and a[i] == "-o":
        i += 1; mode = "merge"
        if i == len(a) or a[i] == "nodir/out.ncm" or a[i] in ("dir.nc", "Modules"): good = False
        else: dest = a[i]; i += 1
    elif good and a[i] == "-c":
        i += 1; mode = "cpp"
        while i < len(a) and a[i] == "-i":
            i += 2
            if i > len(a): good = False
        if good and len(a) - i < 2: good = False
        elif good:
            if a[i] in ("nodir/o.cpp", "nodir/out.ncm", "dir.nc", "Modules"): good = False
            else: dest = a[i]
            srcf = a[i + 1]
            if a[i] == srcf: return out     # the output overwrites its own input
            if srcf not in SCRIPTS or srcf in ("bad.nc", "empty.nc", "none.nc"): good = False
            elif good: made.append(dest)
    if good and mode != "cpp":
        if i == len(a): good = False
        over = {dest} if mode == "merge" else set()
        while good and i < len(a):
            f = a[i]; i += 1
            if f in over: return out        # the output overwrites an input
            if f not in SCRIPTS or f in ("bad.nc", "empty.nc", "none.nc"): good = False; break
            if i < len(a) and a[i] == "-m":
                i += 1
                if i == len(a): good = False; break
                i += 1
            made.append(dest if mode == "merge" else f + "m")
    if good is None: ok = rc == 1 and bool(o)
    elif good: ok = rc == 0 and all(os.path.isfile(os.path.join(d, m)) and os.path.getsize(os.path.join(d, m)) > 0 for m in made)
    else: ok = rc == 1 and bool(o)
    if not ok: return bad(out, "args", where + "; expected " + ("success and the files %s" % made if good else "a message and a failing exit status"), case)
    out.labels.append("accepted" if good else "refused")
    return out
