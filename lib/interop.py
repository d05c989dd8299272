"""Family of host function signatures for C11: the same description produces the C++ bindings, the script module and the expected records."""
import random, struct

# structure members: (C type name, script type name)
ST = {
 "S1": ["int a"], "S2": ["int a", "int b"], "S3": ["int a", "int b", "int c"], "S4": ["long a"], "S5": ["double a"], "S6": ["float a"],
 "S7": ["float a", "float b"], "S8": ["float a", "float b", "float c"], "S9": ["float a", "int b"], "S10": ["double a", "double b"],
 "S11": ["long a", "double b"], "S12": ["long a", "int b"], "S13": ["char a", "char b"], "S14": ["char a", "short b", "int c"], "S15": ["short a"],
 "S16": ["double a", "float b"], "S17": ["int a", "double b"], "S18": ["char a", "double b", "int c"], "S19": ["long a", "long b", "long c", "long d"],
 "S21": ["bool a", "char b", "float c"], "S25": ["float a", "float b", "float c", "float d"], "S27": ["float a", "char b", "short c", "double d"],
 "S28": ["char a"], "S29": ["int a", "long b", "short c"], "S32": ["float a", "float b", "int c", "int d"], "S33": ["int a", "int b", "float c", "float d"],
 "S34": ["double a", "long b"], "S35": ["float a", "double b"], "S36": ["short a", "short b", "short c", "float d", "float e"],
}
NUM = ["bool", "char", "short", "int", "long", "float", "double"]
CT = {"long": "long long", "iref": "int*", "aref": "NULLCRef", "iarr": "NULLCArray", "darr": "NULLCArray", "fn": "NULLCFuncPtr", "aarr": "NULLCAutoArray", "tid": "TI"}
SC = {"iref": "int ref", "aref": "auto ref", "iarr": "int[]", "darr": "double[]", "fn": "int ref(int)", "aarr": "auto[]", "tid": "typeid"}
def ct(t): return t[:-3] + "*" if t.endswith("ref") and t[0] == "S" else CT.get(t, t)
def sc(t): return t[:-3] + " ref" if t.endswith("ref") and t[0] == "S" else SC.get(t, t)
def members(s): return [m.split() for m in ST[s]]
RETMIX = NUM * 2 + list(ST)

def signatures(n=420, seed=20240611):
    """list of (return type, argument types, mirrored argument or None, class of a member function or None)"""
    R = random.Random(seed); out = []
    def arg(style):
        if style == "num": return R.choice(NUM)
        if style == "int": return R.choice(["bool", "char", "short", "int", "long"])
        if style == "flt": return R.choice(["float", "double"])
        if style == "st": return R.choice(list(ST))
        x = R.random()
        if x < .45: return R.choice(NUM)
        if x < .7: return R.choice(list(ST))
        if x < .76: return R.choice(list(ST)) + "ref"
        return R.choice(["iref", "aref", "iarr", "darr", "fn", "aarr", "tid"])
    for i in range(n):
        style = R.choice(["num", "int", "flt", "st", "mix", "mix", "mix"])
        k = R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
        if style == "st": k = min(k, 8)
        a = [arg(style) for _ in range(k)]
        if style == "mix" and R.random() < .3: a = [arg("mix") if R.random() < .5 else R.choice(["double", "int"]) for _ in range(k)]
        x = R.random()
        if x < .1: r, m = "void", None
        elif x < .55 and a: m = R.randrange(len(a)); r = a[m]
        else: r, m = R.choice(RETMIX), None
        cls = R.choice(list(ST)) if R.random() < .2 and k < 14 else None
        out.append((r, tuple(a), m, cls))
    # every structure alone, mirrored, and after enough arguments to exhaust the integer or floating point registers
    for s in ST:
        out.append((s, (s,), 0, None))
        out.append((s, ("long",) * 5 + (s, s), 5, None)); out.append((s, ("double",) * 7 + (s, s), 7, None))
        out.append((s, ("int",) * 6 + ("double",) * 8 + (s,), 14, None))
        out.append((s, (s, "int", s), 2, None))
    for t in ["aref", "iarr", "fn", "aarr", "tid", "iref"]:
        out.append((t, (t,), 0, None)); out.append((t, ("long",) * 5 + (t, t), 6, None)); out.append((t, ("double",) * 8 + ("long",) * 4 + (t, t), 12, None))
    return out
SIGS = signatures()
def host_calls(n=90, seed=77):
    R = random.Random(seed); out = []
    for i in range(n):
        k = R.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 12])
        a = tuple(R.choice(NUM) if R.random() < .6 else R.choice(list(ST) + ["iarr", "aref", "fn", "aarr", "iref"] * 3) for _ in range(k))
        out.append(a)
    for s in ST: out.append((s,)); out.append(("int", s, "double", s))
    return out
HSIGS = host_calls()

def f32(x): return struct.unpack("<f", struct.pack("<f", x))[0]
def numval(t, R):
    if t == "bool": return R.randrange(2)
    if t == "char": return R.choice([0, 1, -1, 127, -128, R.randrange(-128, 128)])
    if t == "short": return R.choice([0, -1, 32767, -32768, R.randrange(-32768, 32768)])
    if t == "int": return R.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, R.randrange(-2**31 + 1, 2**31)])
    if t == "long": return R.choice([0, -1, 2**63 - 1, -2**63 + 1, R.randrange(-2**63 + 1, 2**63), R.randrange(-2**31, 2**31)])
    v = R.choice([0.0, 0.5, -1.0, R.randrange(-1000, 1000) / 8, R.randrange(-2**20, 2**20) / 16, float(R.randrange(-2**22, 2**22))])
    if t == "double": v = R.choice([v, v, float(R.randrange(-2**50, 2**50)), R.randrange(-2**31, 2**31) / 1024])
    return v
def retval(i):
    r = SIGS[i][0]
    if r in ("void",) or SIGS[i][2] is not None: return None
    R = random.Random(i * 7919 + 5)
    if r in ST: return tuple(numval(m[0], R) for m in members(r))
    return numval(r, R)
def cnum(t, v):
    if t in ("float", "double"): return repr(v) + ("f" if t == "float" else "")
    if t == "long": return "%dLL" % v
    return str(v)
def rnum(t, v):
    if t in ("float", "double"): return "d%016x" % struct.unpack("<Q", struct.pack("<d", float(v)))[0]
    return "%d" % v

def emit():
    o = ["// generated by lib/interop.py; do not edit\n#pragma pack(push, 4)\nstruct TI{ unsigned id; };\n#pragma pack(pop)\n"]
    for s in ST:
        o.append("struct %s { %s };\n" % (s, " ".join("%s %s;" % (ct(a), b) for a, b in members(s))))
        o.append("static void rec(S &o, const %s &v){ o += \"{\"; %s o += \"}\"; }\n" % (s, " o += \",\"; ".join("rec(o, v.%s);" % b for a, b in members(s))))
        o.append("static void rec(S &o, %s *v){ if(v) rec(o, *v); else o += \"null\"; }\n" % s)
    for i, (r, a, m, cls) in enumerate(SIGS):
        ps = ["%s a%d" % (ct(t), k) for k, t in enumerate(a)] + (["%s *self" % cls] if cls else [])
        body = "S o = \"h%d\"; " % i + "".join("o += \" \"; rec%s(o, a%d); " % ({"darr": "D", "iarr": "I"}.get(t, ""), k) for k, t in enumerate(a)) + ("o += \" this\"; rec(o, self); " if cls else "") + "hrec(o); "
        if m is not None: body += "return a%d;" % m
        elif r == "void": pass
        elif r in ST: body += "%s r; memset(&r, 0, sizeof(r)); %s return r;" % (r, " ".join("r.%s = %s;" % (mm[1], cnum(mm[0], v)) for mm, v in zip(members(r), retval(i))))
        else: body += "return %s;" % cnum(r, retval(i))
        o.append("static %s hf%d(%s){ %s }\n" % (ct(r), i, ", ".join(ps), body))
    o.append("static bool interopBind(S &err)\n{\n")
    for mod, fn in (("hi", "nullcBindModuleFunction(\"hi\", (void(*)())hf%d, \"%s\", 0)"), ("hw", "nullcBindModuleFunctionHelper(\"hw\", hf%d, \"%s\", 0)")):
        for i, (r, a, m, cls) in enumerate(SIGS):
            o.append("\tI(%s);\n" % (fn % (i, (cls + "::" if cls else "") + "h%d" % i)))
    o.append("\treturn true;\n}\n")
    o.append("static int interopCall(int sig, const char *name, NULLCFuncPtr *fp, const Frame &f, unsigned p)\n{\n\tswitch(sig)\n\t{\n")
    for i, a in enumerate(HSIGS):
        args = []
        for t in a:
            if t in ST: args += ["arg_%s(f, p)" % mm[0] for mm in members(t)]
            else: args.append("arg_%s(f, p)" % t)
        loc = "".join("%s v%d = %s; " % ("long long" if x == "arg_long(f, p)" else "double" if x in ("arg_double(f, p)",) else "float" if x == "arg_float(f, p)" else "auto", k, x) for k, x in enumerate(args))
        al = "".join(", v%d" % k for k in range(len(args)))
        o.append("\tcase %d: { %sreturn fp ? nullcCallFunction(*fp%s) : nullcRunFunction(name%s); }\n" % (i, loc, al, al))
    o.append("\t}\n\treturn 0;\n}\n")
    return "".join(o)

def types_module():
    return "".join("class %s { %s }\n" % (s, " ".join(m + ";" for m in ST[s])) for s in ST)
def functions_module():
    o = ["import hs;\nvoid hcb(int sig, char[] args, auto ref f);\nint hrun(char[] name, int x);\n"]
    for i, (r, a, m, cls) in enumerate(SIGS):
        o.append("%s %sh%d(%s);\n" % (sc(r), cls + ":" if cls else "", i, ", ".join("%s a%d" % (sc(t), k) for k, t in enumerate(a))))
    return "".join(o)
def cstr(s): return "\n".join('"%s\\n"' % l.replace("\\", "\\\\").replace('"', '\\"') for l in s.split("\n"))
def header():
    return emit() + "static const char *interopTypes =\n%s;\nstatic const char *interopFunctions =\n%s;\n" % (cstr(types_module()), cstr(functions_module()))
if __name__ == "__main__":
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "interop_gen.h")
    open(p, "w").write(header())
