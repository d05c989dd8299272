"""C14: file, memory and console streams against byte-exact models."""
import os, struct, math, tempfile, shutil
import worker, scripts
from engine import Outcome

ID = "C14"
RULE = "at least five operations, of which at least two transfer data"
ASSUMPTIONS = ["a seek separates reads and writes of one file object (as the C library asks for)", "values read as bool hold 0 or 1, and NaN patterns are not read as numbers",
               "file objects do not open the same file at the same time", "text given to console input has lines shorter than 200 characters"]
N = {"quick": 4000, "thorough": 80000}
CAP = {"quick": 60, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

class Ctx:
    def __init__(self): self.w = worker.Worker("plain"); self.dir = tempfile.mkdtemp(prefix="nullc_c14_")
    def close(self): self.w.close(); shutil.rmtree(self.dir, ignore_errors=True)
def setup(): worker.build_worker("plain")

T = {"bool": ("?", 1, 0), "char": ("b", 1, 0), "short": ("<h", 2, 1), "int": ("<i", 4, 2), "long": ("<q", 8, 3), "float": ("<f", 4, 2), "double": ("<d", 8, 3)}
def f32(x): return struct.unpack("<f", struct.pack("<f", x))[0]
def rnd(src, t):
    if t == "bool": return src.i(2)
    if t in ("float", "double"): return src.pick([0.0, 1.0, -1.0, 0.5, -2.25, 3.0, 1024.0, -0.125, 100.75, 1.5]) * src.pick([1.0, 1.0, 4.0, 65536.0])
    b = T[t][1] * 8
    return src.w([(2, src.rng(-2 ** (b - 1), 2 ** (b - 1) - 1)), (2, src.rng(-100, 100)), (1, src.pick([0, -1, 2 ** (b - 1) - 1, -2 ** (b - 1)]))])
def lit(v, t):
    if t == "float": return "float(%r)" % v
    if t == "double": return ("%s" if v >= 0 else "(%s)") % repr(v)
    if t == "bool": return "true" if v else "false"
    if t == "long": return "%dl" % v if v >= 0 else "(%dl)" % v if v > -2 ** 63 else "(-9223372036854775807l - 1l)"
    s = str(v) if v >= 0 else "(%d)" % v if v > -2 ** 31 else "(-2147483647 - 1)"
    return s if t == "int" else "%s(%s)" % (t, s)
def tr(expr, t): return "td(double(%s));" % expr if t in ("float", "double") else "tl(%s);" % expr if t == "long" else "ti(%s);" % expr if t != "bool" else "ti(int(%s));" % expr
def trv(v, t): return "d%016x" % struct.unpack("<Q", struct.pack("<d", v))[0] if t in ("float", "double") else "l%d" % v if t == "long" else "i%d" % int(v)
def mkb(seed, n): return bytes((seed + i * 37) % 256 for i in range(n))

NAMES = list(T)
SZ = [0, 1, 2, 3, 7, 8, 9, 16, 31, 40, 64, 130]
def gen(src, ctx):
    fam = src.pick(["mem", "file", "file", "io", "mix"]); ops = []
    bufs = [src.pick(SZ) for _ in range(3)]
    for _ in range(src.rng(5, 40)):
        f = fam if fam != "mix" else src.pick(["mem", "file", "io"])
        t = src.pick(NAMES); b = src.i(3)
        if f == "mem":
            k = src.pick(["wr", "wr", "rd", "rdi", "wra", "rda", "rdia", "copy", "copy", "set", "cmp", "as"])
            n = src.w([(4, src.i(5)), (2, src.i(20)), (1, src.i(150)), (1, -1)]); off = src.w([(5, src.i(max(1, bufs[b]))), (2, src.rng(-2, bufs[b] + 3)), (1, src.pick([-2147483647, 2147483647, 2147483640, 65536]))])
            b2 = src.i(3); off2 = src.w([(5, src.i(max(1, bufs[b2]))), (1, src.rng(-2, bufs[b2] + 3))])
            ops.append(["m", k, t, b, off, rnd(src, t), n, b2, off2, [rnd(src, t) for _ in range(max(0, min(n, 20)))], src.i(20) == 0])
        elif f == "file":
            k = src.pick(["open", "w", "w", "w", "wa", "wa", "ws", "print", "seek", "seek", "r", "r", "ra", "ra", "rs", "tell", "size", "eof", "opened", "close"])
            mode = src.pick(["wb", "rb", "r+b", "w+b", "ab", "a+b", "w+b", "r+b"])
            ops.append(["f", k, src.i(2), t if t != "bool" else "int", rnd(src, t) if t != "bool" else 5, src.i(256), src.w([(4, src.i(12)), (2, src.i(100)), (1, src.pick([4095, 4096, 4097, 9000]))]), src.i(6), src.w([(4, src.i(8)), (1, src.i(40))]), mode, src.i(2), src.i(3), src.w([(4, src.rng(-10, 10)), (2, src.i(60)), (1, src.pick([4096, 5000, -4096]))])])
        else:
            k = src.pick(["pi", "pi", "pl", "pl", "pd", "pd", "ps", "ps", "pn", "pc", "write", "base", "prec", "oi", "ol", "ob", "os", "osh", "of", "od", "oc", "ostr", "ont", "endl", "inint", "intext", "badbase"])
            ops.append(["o", k, rnd(src, "int"), rnd(src, "long"), src.pick([rnd(src, "double"), rnd(src, "double") * 1e15, 1e300, -1e-7, 0.0, 2.0 ** 70, 1e100, -1e200]), src.rng(2, 16), src.i(16) if src.p(90) else src.rng(60, 130), "".join(src.pick("abcXYZ 019.,-%") for _ in range(src.w([(5, src.i(12)), (1, src.i(150))]))), src.i(256), src.i(4), src.pick([None, " ", "x"])])
    return {"bufs": bufs, "ops": ops, "cfgs": [src.pick(scripts.ALL)] if src.p(60) else scripts.TWO}

reduce = scripts.dropper()
HEAD = """import std.file; import std.memory; import std.io; import std.string; import std.stringio; import std.error; import vt;
void er(try_result<int> r){ if(r) ti(r.value); else ts("error"); }
char[] mk(int seed, int n){ char[] a = new char[n]; for(int i = 0; i < n; i++) a[i] = (seed + i * 37) % 256; return a; }
void sum(char[] b){ int h = b.size; for(int i = 0; i < b.size; i++) h = h * 31 + b[i]; ti(h); }
"""
def sumv(b):
    h = len(b)
    for x in b: h = (h * 31 + (x - 256 if x > 127 else x)) & 0xffffffff
    return "i%d" % (h - 2 ** 32 if h > 2 ** 31 - 1 else h)

class FM:
    def __init__(s): s.open = False; s.path = None; s.pos = 0; s.eof = False; s.mode = ""; s.dir = None
def fmt(v, p):
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    return "%.*f" % (p, v)
def base(v, b):
    d = "0123456789abcdef"; s = ""; n = abs(v)
    while n: s = d[n % b] + s; n //= b
    return ("-" if v < 0 else "") + (s or "0")

def render(case, root):
    """(code, trace lines, output, input, files)"""
    L = []; W = []; O = []; IN = []; moved = 0
    mem = [bytearray(mkb(7 * i + 3, n)) for i, n in enumerate(case["bufs"])]
    for i, n in enumerate(case["bufs"]): L.append("char[] B%d = mk(%d, %d);" % (i, 7 * i + 3, n))
    L.append("char[] nul; File f0 = File(); File f1 = File(); Seek sk;")
    files = {}; F = [FM(), FM()]; cur = [10, 12]
    def can(b, off, log, n): return not (off < 0 or n < 0 or off >= len(mem[b]) or n > (len(mem[b]) - off) >> log)
    for q, o in enumerate(case["ops"]):
        if o[0] == "m":
            _, k, t, b, off, v, n, b2, off2, vals, null = o
            code, size, log = T[t]; m = mem[b]; name = "nul" if null else "B%d" % b; at = "%d" % off if off >= 0 else "(%d)" % off
            one = can(b, off, log, 1) and not null
            isnan = lambda x: isinstance(x, float) and x != x
            if k == "wr":
                L.append("er(try(auto(){ memory.write(%s, %s, %s); return 1; }));" % (name, at, lit(v, t)))
                if one: m[off:off + size] = struct.pack(code, v if t != "bool" else bool(v)); W.append("i1"); moved += 1
                else: W.append("error")
            elif k in ("rd", "rdi"):
                if one:
                    if t == "bool" and m[off] > 1: continue
                    x = struct.unpack(code, bytes(m[off:off + size]))[0]
                    if isnan(x): continue
                    W.append(trv(x, t)); W.append("i1"); moved += 1
                else: W.append("error")
                if k == "rd": L.append("er(try(auto(){ %s x = memory.read_%s(%s, %s); %s return 1; }));" % (t, t, name, at, tr("x", t)))
                else: L.append("er(try(auto(){ %s x = %s; memory.read(%s, %s, &x); %s return 1; }));" % (t, lit(v, t), name, at, tr("x", t)))
            elif k == "wra":
                L.append("%s[] A%d = new %s[%d]; %s er(try(auto(){ memory.write(%s, %s, A%d); return 1; }));" % (t, q, t, len(vals), "".join("A%d[%d] = %s; " % (q, i, lit(x, t)) for i, x in enumerate(vals)), name, at, q))
                if can(b, off, log, len(vals)) and not null:
                    for i, x in enumerate(vals): m[off + i * size:off + (i + 1) * size] = struct.pack(code, x if t != "bool" else bool(x))
                    W.append("i1"); moved += 1
                else: W.append("error")
            elif k in ("rda", "rdia"):
                if k == "rdia": n = max(0, n)
                ok = can(b, off, log, n) and not null
                if ok:
                    xs = [struct.unpack(code, bytes(m[off + i * size:off + (i + 1) * size]))[0] for i in range(n)]
                    if any(isnan(x) for x in xs) or (t == "bool" and any(x > 1 for x in m[off:off + n])): continue
                    W.append("i%d" % n); W.extend(trv(x, t) for x in xs); W.append("i1"); moved += n > 0
                else: W.append("error")
                if k == "rda": L.append("er(try(auto(){ %s[] x = memory.read_%s_array(%s, %s, %s); ti(x.size); for(y in x) %s return 1; }));" % (t, t, name, at, lit(n, "int"), tr("y", t)))
                else: L.append("er(try(auto(){ %s[] x = new %s[%d]; memory.read(%s, %s, x); ti(x.size); for(y in x) %s return 1; }));" % (t, t, n, name, at, tr("y", t)))
            elif k == "copy":
                ok = can(b, off, 0, n) and can(b2, off2, 0, n) and not null
                L.append("er(try(auto(){ memory.copy(%s, %s, B%d, %s, %s); return 1; }));" % (name, at, b2, lit(off2, "int"), lit(n, "int")))
                if ok: m[off:off + n] = bytes(mem[b2][off2:off2 + n]); W.append("i1"); moved += n > 0
                else: W.append("error")
            elif k == "set":
                ok = can(b, off, 0, n) and not null
                L.append("er(try(auto(){ memory.set(%s, %s, char(%d), %s); return 1; }));" % (name, at, q % 256, lit(n, "int")))
                if ok: m[off:off + n] = bytes([q % 256]) * n; W.append("i1"); moved += n > 0
                else: W.append("error")
            elif k == "cmp":
                ok = can(b, off, 0, n) and can(b2, off2, 0, n) and not null
                L.append("er(try(auto(){ int c = memory.compare(%s, %s, B%d, %s, %s); return c < 0 ? -1 : c > 0 ? 1 : 0; }));" % (name, at, b2, lit(off2, "int"), lit(n, "int")))
                if ok: x, y = bytes(m[off:off + n]), bytes(mem[b2][off2:off2 + n]); W.append("i%d" % ((x > y) - (x < y)))
                else: W.append("error")
            else:
                if t in ("float", "int"):
                    x = v if t == "float" else float(q); L.append("ti(memory.as_int(float(%s))); td(memory.as_float(memory.as_int(float(%s))));" % (lit(x, "double"), lit(x, "double"))); W += ["i%d" % struct.unpack("<i", struct.pack("<f", x))[0], trv(f32(x), "double")]
                else:
                    x = v if t == "double" else float(q) / 2; L.append("tl(memory.as_long(%s)); td(memory.as_double(memory.as_long(%s)));" % (lit(x, "double"), lit(x, "double"))); W += ["l%d" % struct.unpack("<q", struct.pack("<d", x))[0], trv(x, "double")]
            L.append("sum(B%d);" % b); W.append(sumv(m))
        elif o[0] == "f":
            _, k, i, t, v, seed, n, off, pad, mode, which, origin, shift = o
            f = F[i]; name = "f%d" % i; code, size, log = T[t]
            def need(d):
                """a positioning call between reads and writes"""
                if f.dir and f.dir != d: L.append("%s.Seek(Seek.CUR, 0);" % name); f.eof = False
                f.dir = d
            rd = f.open and (f.mode[0] == "r" or "+" in f.mode); wr = f.open and (f.mode[0] != "r" or "+" in f.mode)
            def put(data):
                d = files[f.path]
                if f.mode[0] == "a": f.pos = len(d)
                if not data:
                    if f.mode[0] == "a": L.append("%s.Seek(Seek.END, 0);" % name) # whether an empty write moves to the end is up to the C library
                    return
                if f.pos > len(d): d.extend(b"\0" * (f.pos - len(d)))
                d[f.pos:f.pos + len(data)] = data; f.pos += len(data)
            def get(cnt):
                if cnt == 0: return b""
                d = bytes(files[f.path][f.pos:f.pos + cnt]); f.pos += len(d)
                if len(d) < cnt: f.eof = True
                return d
            if k == "open":
                path = "%s/f%d_%d" % (root, i, which)
                L.append("%s.Open(\"%s\", \"%s\"); ti(%s.Opened());" % (name, path, mode, name) if seed % 2 or f.open else "%s = File(\"%s\", \"%s\"); ti(%s.Opened());" % (name, path, mode, name))
                f.__init__()
                if mode[0] == "r" and path not in files: W.append("i0"); continue
                if mode[0] == "w" or path not in files: files[path] = bytearray()
                f.open = True; f.path = path; f.mode = mode; W.append("i1")
                if mode[0] == "a": L.append("%s.Seek(Seek.SET, 0);" % name)
            elif k == "close": L.append("%s.Close(); ti(%s.Opened());" % (name, name)); W.append("i0"); f.__init__()
            elif k == "opened": L.append("ti(%s.Opened());" % name); W.append("i%d" % f.open)
            elif k == "eof": L.append("ti(%s.Eof());" % name); W.append("i%d" % (not f.open or f.eof))
            elif not f.open:
                call = {"w": "Write(%s) ? 1 : 0" % lit(v, t), "wa": "Write(mk(1, 3))", "ws": "Write(mk(1, 3), 0, 1)", "print": "Print(\"ab\") ? 1 : 0", "r": "Read(mk(1, 1))", "ra": "Read(mk(1, 3))", "rs": "Read(mk(1, 3), 0, 2)", "tell": "Tell() > 0 ? 1 : 0", "size": "Size() > 0 ? 1 : 0"}.get(k)
                if call is None: L.append("er(try(auto(){ %s.Seek(Seek.SET, 0); return 1; }));" % name)
                else: L.append("er(try(auto(){ return %s.%s; }));" % (name, call))
                W.append("error")
            elif k == "seek":
                target = [0, f.pos, len(files[f.path])][origin] + shift
                if target < 0: shift -= target; target = 0
                L.append("%s.Seek(Seek.%s, %s);" % (name, ["SET", "CUR", "END"][origin], lit(shift, "int"))); f.pos = target; f.eof = False; f.dir = None
            elif k == "tell": L.append("tl(%s.Tell());" % name); W.append("l%d" % f.pos)
            elif k == "size": L.append("tl(%s.Size());" % name); W.append("l%d" % len(files[f.path])); f.eof = False; f.dir = None
            elif k in ("w", "wa", "ws", "print"):
                if k == "ws" and off + pad > n:
                    L.append("er(try(auto(){ return %s.Write(mk(%d, %d), %d, %d); }));" % (name, seed, n, off, pad)); W.append("error"); continue
                need("w")
                if k == "w": data = struct.pack(code, v); L.append("ti(%s.Write(%s));" % (name, lit(v, t))); res = 1
                elif k == "wa": data = mkb(seed, n); L.append("ti(%s.Write(mk(%d, %d)));" % (name, seed, n)); res = len(data)
                elif k == "ws": data = mkb(seed, n)[off:off + pad]; L.append("ti(%s.Write(mk(%d, %d), %d, %d));" % (name, seed, n, off, pad)); res = len(data)
                else: data = mkb(seed, n).split(b"\0")[0]; L.append("ti(%s.Print(mk(%d, %d)));" % (name, seed, n)); res = 1
                if not wr: W.append("i%d" % (k == "print" and not data)); continue
                put(data); W.append("i%d" % res); moved += len(data) > 0
            else:
                if k == "rs" and off + pad > n:
                    L.append("er(try(auto(){ return %s.Read(mk(%d, %d), %d, %d); }));" % (name, seed, n, off, pad)); W.append("error"); continue
                need("r")
                if k == "r":
                    left = max(0, len(files[f.path]) - f.pos)
                    if rd and left >= size:
                        x = struct.unpack(code, bytes(files[f.path][f.pos:f.pos + size]))[0]
                        if isinstance(x, float) and x != x: continue
                        get(size); L.append("{ %s x = 1; ti(%s.Read(&x)); %s }" % (t, name, tr("x", t))); W += ["i1", trv(x, t)]; moved += 1
                    elif rd: get(size); L.append("{ %s x = 1; ti(%s.Read(&x)); }" % (t, name)); W.append("i0")
                    else: L.append("{ %s x = 1; ti(%s.Read(&x)); %s }" % (t, name, tr("x", t))); W += ["i0", trv(1, t)]
                else:
                    old = bytearray(mkb(seed, n)); a, c = (0, n) if k == "ra" else (off, pad)
                    data = get(c) if rd else b""; old[a:a + len(data)] = data
                    L.append("{ char[] a = mk(%d, %d); ti(%s.Read(a%s)); sum(a); }" % (seed, n, name, "" if k == "ra" else ", %d, %d" % (a, c))); W += ["i%d" % len(data), sumv(old)]; moved += len(data) > 0
        else:
            _, k, iv, lv, dv, bs, pr, txt, ch, kind, junk = o
            moved += 1
            if k == "pi": L.append("Print(%s%s);" % (lit(iv, "int"), "" if kind == 0 else ", %d" % bs)); O.append(base(iv, 10 if kind == 0 else bs))
            elif k == "pl": L.append("Print(%s%s);" % (lit(lv, "long"), "" if kind == 0 else ", %d" % bs)); O.append(base(lv, 10 if kind == 0 else bs))
            elif k in ("pd", "od"):
                ex = "double(%s)" % lit(dv, "double"); x = dv
                if k == "pd":
                    L.append("{ double x = memory.as_double(%s); Print(x%s); }" % (lit(struct.unpack("<q", struct.pack("<d", dv))[0], "long"), "" if kind == 0 else ", %d" % pr)); O.append(fmt(x, 12 if kind == 0 else pr))
                else: L.append("{ double x = memory.as_double(%s); io.out << x; }" % lit(struct.unpack("<q", struct.pack("<d", dv))[0], "long")); O.append(fmt(x, cur[1]))
            elif k == "of": x = f32(rnd_f(iv)); L.append("io.out << float(%s);" % lit(x, "double")); O.append(fmt(x, 12))
            elif k == "ps": L.append("Print(\"%s\");" % txt); O.append(txt)
            elif k == "pn": b = mkb(ch, len(txt)); L.append("Print(mk(%d, %d)); Print(nul);" % (ch, len(txt))); O.append(b.split(b"\0")[0].decode("latin-1"))
            elif k == "pc": L.append("Print(char(%d));" % ch); O.append(chr(ch))
            elif k == "write": L.append("Write(mk(%d, %d));" % (ch, len(txt))); O.append(mkb(ch, len(txt)).decode("latin-1"))
            elif k == "base":
                if kind == 0: L.append("io.out << io.base(%d);" % bs); cur[0] = bs
                else: nm, b = [("bin", 2), ("oct", 8), ("hex", 16)][kind - 1]; L.append("io.out << io.%s;" % nm); cur[0] = b
                if kind == 1 and iv % 2: L.append("io.out << io.dec;"); cur[0] = 10
            elif k == "prec": L.append("io.out << io.precision(%d);" % pr); cur[1] = pr
            elif k == "oi": L.append("io.out << %s << ' ';" % lit(iv, "int")); O.append(base(iv, cur[0]) + " ")
            elif k == "ol": L.append("io.out << %s << %s;" % (lit(lv, "long"), lit(iv, "int"))); O.append(base(lv, cur[0]) + base(iv, cur[0]))
            elif k == "ob": L.append("io.out << %s;" % ("true" if iv % 2 else "false")); O.append("true" if iv % 2 else "false")
            elif k == "os": L.append("io.out << \"%s\" << io.endl;" % txt); O.append(txt + "\n")
            elif k == "osh": x = iv % 65536 - 32768; L.append("io.out << short(%s);" % lit(x, "int")); O.append(str(x))
            elif k == "oc": L.append("io.out << char(%d) << \"%s\";" % (ch, txt)); O.append(chr(ch) + txt)
            elif k == "ostr": L.append("{ string s = string(\"%s\"); io.out << &s << '.'; }" % txt); O.append(txt + ".")
            elif k == "ont": L.append("io.out << io.non_terminated(mk(%d, %d));" % (ch, len(txt))); O.append(mkb(ch, len(txt)).decode("latin-1"))
            elif k == "endl": L.append("io.out << io.endl;"); O.append("\n")
            elif k == "badbase": x = [0, 1, 17, -2][kind]; L.append("er(try(auto(){ Print(%s, %s); return 1; }));" % (lit(iv, "int"), lit(x, "int"))); W.append("error")
            elif k == "inint":
                L.append("er(try(auto(){ int x = 77; Input(&x); return x; }));")
                if kind == 3: IN.append("z" + txt[:100]); W.append("error")
                else: IN.append((" " if kind == 1 else "") + str(iv) + (junk if junk else "")); W.append("i%d" % iv)
            else:
                n = 1 + (ch % 40 if kind else 200); m = min(len(txt), n - 1)
                L.append("{ char[] a = new char[%d]; for(int i = 0; i < a.size; i++) a[i] = 'q'; ti(Input(a)); ti(a.size); for(int i = 0; i <= %d; i++) ti(a[i]); }" % (n, m)); IN.append(txt)
                W.append("i%d" % m); W.append("i%d" % n); W += ["i%d" % ord(x) for x in txt[:m]] + ["i0"]
    L.append("f0.Close(); f1.Close(); sum(B0); sum(B1); sum(B2);"); W += [sumv(b) for b in mem]
    return HEAD + "\n".join(L) + "\nreturn 1;\n", ["s" + x if x == "error" else x for x in W], "".join(O), "".join(x + "\n" for x in IN), files, moved
def rnd_f(iv): return (iv % 4096) / 8. - 200

def show(case): return render(case, "/scratch")[0]

def run(case, ctx):
    code, want, text, inp, files, moved = render(case, ctx.dir)
    out = Outcome(nontrivial=len(case["ops"]) >= 5 and moved >= 2, key=code.replace(ctx.dir, ""), labels=sorted({o[0] + " " + o[1] for o in case["ops"]}), sample=code.replace(ctx.dir, "/scratch")[len(HEAD):][:700], evals=len(case["cfgs"]))
    for ex, op in case["cfgs"]:
        for f in os.listdir(ctx.dir): os.unlink(os.path.join(ctx.dir, f))
        r = ctx.w.run([["exec", ex], ["opt", op], ["in", inp], ["out"], ["build", code], ["run"], ["trace"], ["out"]])
        where = "executor %d optimization %d: " % (ex, op); shown = code.replace(ctx.dir, "/scratch")
        if r.timeout: return scripts.fail(out, "time", where + "the program does not finish", shown)
        if not r.clean: return scripts.fail(out, "crash", where + "the host ended with %s" % r.status, shown)
        if not r[4].ok: return scripts.fail(out, "rejected", where + "rejected: " + r[4].err, shown)
        got = scripts.trace_lines(r[6].data[0])
        d = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), None)
        if d is not None: return scripts.fail(out, "trace", where + "line %d of the trace is %r instead of %r %s" % (d + 1, got[d] if d < len(got) else "missing", want[d] if d < len(want) else "nothing", r[5].err), shown, want, got)
        if not r[5].ok: return scripts.fail(out, "fault", where + "the run failed: " + r[5].err, shown)
        o = r[7].data[0]
        if isinstance(o, bytes): o = o.decode("latin-1")
        if o != text and o.encode("utf-8", "surrogateescape") != text.encode("latin-1"): 
            d = next((i for i in range(max(len(o), len(text))) if i >= len(o) or i >= len(text) or o[i] != text[i]), 0)
            return scripts.fail(out, "output", where + "output at %d: %r instead of %r" % (d, o[max(0, d - 10):d + 40], text[max(0, d - 10):d + 40]), shown)
        have = {os.path.join(ctx.dir, f): open(os.path.join(ctx.dir, f), "rb").read() for f in os.listdir(ctx.dir)}
        if have != {k: bytes(v) for k, v in files.items()}:
            return scripts.fail(out, "disk", where + "files on disk: " + "; ".join("%s has %s bytes instead of %s" % (os.path.basename(k), len(have.get(k, b"")) if k in have else None, len(files[k]) if k in files else None) for k in sorted(set(have) | set(files)) if have.get(k) != (bytes(files[k]) if k in files else None)), shown)
    return out
