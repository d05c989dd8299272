"""C03: numeric expressions evaluate to the documented values (reference evaluator, six configurations)."""
import math
import lang, langprop, worker, langrun
from langprop import Ctx, setup
from lang import *
from engine import Outcome

ID = "C03"
RULE = "at least 6 evaluations of expressions with 3 or more operators over 2 or more numeric types whose values the reference evaluator gives"
ASSUMPTIONS = ["conversions of doubles outside the range of the integer type and shifts by counts outside the width of the type have no documented value and are not evaluated",
               "decimal fractions are used only where every reading of the digits gives the same double",
               "pow of doubles is compared with the C library's pow"]
N = {"quick": 10000, "thorough": 150000}
CAP = {"quick": 75, "thorough": 800}
MIN_NONTRIVIAL = {"quick": 300, "thorough": 3000}

INT_EDGE = [0, 1, 2, 3, 7, 31, 32, 63, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x40000000, 1000003]
LONG_EDGE = INT_EDGE + [0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x4000000000000000, 1 << 53, (1 << 53) + 1, (1 << 24) + 1]
DBL_EDGE = ["0.0", "1.0", "0.5", "2.0", "0.25", "3.75", "1024.0", "16777217.0", "2147483647.0", "2147483648.0", "9007199254740992.0", "0.125", "255.0", "65536.5", "100.0"]
ALL = PRIMS

class NumLit(Lit):
    """number literal spelled in one of the bases"""

def int_literal(s, v, long_):
    """spelling of a non-negative value"""
    k = s.w([(6, 0), (3, 1), (2, 2), (2, 3)])
    suf = "l" if long_ else ""
    if k == 1: return "0x" + ("%x" if s.i(2) else "%X") % v + suf
    if k == 2: return "{0:b}b".format(v) if not long_ else None
    if k == 3 and not long_: return "0%o" % v if v else "0"
    return "%d%s" % (v, suf)

class G:
    def __init__(self, s):
        self.s = s; self.n = 0; self.vars = []; self.fn = None; self.side = True; self.ops = 0; self.types = set(); self.sp = True
    def lit(self, t):
        s = self.s
        if t == 'bool':
            b = s.i(2); return Lit('bool', b, "true" if b else "false")
        if t == 'char':
            k = s.i(10)
            if k == 9:
                c, x = s.pick([("\\n", 10), ("\\r", 13), ("\\t", 9), ("\\0", 0), ("\\'", 39), ("\\\"", 34), ("\\\\", 92)])
                return Lit('char', x, "'%s'" % c)
            c = s.i(95) + 32
            if c in (34, 39, 92): c = 65
            return Lit('char', c, "'%c'" % c)
        if t in ('int', 'short'):
            v = s.w([(5, None), (4, 1), (1, 2)])
            v = s.i(10) if v is None else (s.pick(INT_EDGE) if v == 1 else s.i(1 << 31))
            if s.p(4):
                # a 64 bit pattern which is an int as a negative number
                x = (1 << 64) - v
                if v and x < 1 << 64: return Lit('int', i64(x), "(0x%x)" % x)
            t = int_literal(s, v, False)
            if s.p(25) and v: return Lit('int', -v, "-" + t)
            return Lit('int', v, t)
        if t == 'long':
            v = s.pick(LONG_EDGE) if s.p(70) else s.i(1 << 62)
            if s.p(10) and v > 0x7fffffff and v < (1 << 63): # no suffix needed in the other bases
                return Lit('long', v, s.pick(["0x%x", "0%o"]) % v)
            t = int_literal(s, v, True) or "%dl" % v
            if s.p(25) and v: return Lit('long', -v, "-" + t)
            return Lit('long', v, t)
        if s.p(6) and (self.sp or t == 'double'):
            v, x = s.pick([(math.inf, "(1.0 / 0.0)"), (-math.inf, "(-1.0 / 0.0)"), (math.nan, "(0.0 / 0.0)"), (-0.0, "(-0.0)")])
            if t == 'float': return Lit('float', v, "float%s" % x)
            return Lit('double', v, x)
        x = s.pick(DBL_EDGE)
        if t == 'double' and s.p(12):
            e = s.i(12); x = "%d.0e%d" % (1 + s.i(9), e)
        v = float(x)
        if t == 'float':
            return Lit('float', f32(v), x + "f")
        if s.p(15): return Lit('double', -v, "-" + x)
        return Lit('double', v, x)

    def leaf(self, allow):
        s = self.s
        vs = [v for v in self.vars if v.t in allow]
        if vs and not s.p(30):
            v = s.pick(vs); self.types.add(v.t)
            return Var(v)
        t = s.pick(allow); self.types.add(t)
        return self.lit(t)

    def e(self, d, allow=ALL):
        s = self.s
        if d <= 0: return self.leaf(allow)
        ints = tuple(t for t in allow if t in INTS)
        k = s.w([(3, 'leaf'), (12, 'bin'), (3, 'un'), (3, 'cmp'), (3, 'logic'), (3, 'tern'), (3, 'cast'), (5, 'bits'), (3, 'shift'), (3 if self.side else 0, 'side'), (2 if self.side else 0, 'mark')])
        r = self.make(k, d, allow, ints)
        self.ops += 1
        if r.t not in allow:
            return self.cast(s.pick(allow), r) if not (r.t in ('float', 'double') and 'double' not in allow and not s.p(35)) else self.leaf(allow)
        return r

    def cast(self, t, x): return Cast(t, x)

    def make(self, k, d, allow, ints):
        s = self.s; e = self.e
        if k == 'leaf': return self.leaf(allow)
        if k == 'bin':
            op = s.w([(6, '+'), (6, '-'), (6, '*'), (4, '/'), (4, '%'), (2, '**')])
            return Bin(op, e(d - 1, allow), e(d - 1, allow))
        if k == 'bits':
            return Bin(s.pick(BITS), e(d - 1, INTS), e(d - 1, INTS))
        if k == 'shift':
            a = e(d - 1, INTS[1:]); m = 31 if s.p(75) else 63
            b = Bin('&', e(d - 1, INTS[1:]), Lit('int', m, str(m))) if s.p(60) else Lit('int', *(lambda v: (v, str(v)))(s.i(32)))
            return Bin(s.pick(SHIFTS), a, b)
        if k == 'un':
            op = s.pick(['-', '~', '!', '+'])
            if op == '~': return Un(op, e(d - 1, INTS[1:]))
            if op == '!': return Un(op, e(d - 1, INTS))
            return Un(op, e(d - 1, tuple(t for t in allow if t != 'bool') or ('int',)))
        if k == 'cmp': return Bin(s.pick(CMPS), e(d - 1), e(d - 1))
        if k == 'logic': return Bin(s.w([(5, '&&'), (5, '||'), (2, '^^')]), e(d - 1), e(d - 1))
        if k == 'tern': return Tern(e(d - 1), e(d - 1, allow), e(d - 1, allow))
        if k == 'cast': return self.cast(s.pick(ALL), e(d - 1))
        if k == 'mark':
            # a call whose order among the operands is visible
            f = s.pick(self.marks); self.n += 1
            return Call(f, [Lit('int', self.n, str(self.n)), e(d - 1, (f.ret,) if f.ret in allow or s.p(50) else allow)])
        vs = [v for v in self.vars if not v.ro]
        if k == 'side' and vs:
            v = s.pick(vs)
            if v.t != 'bool' and s.p(45):
                return Inc(s.pick(['++', '--']), Var(v), s.i(2) == 1)
            return self.assign(v, d - 1)
        return self.leaf(allow)

    def assign(self, v, d):
        s = self.s
        fl = v.t in ('float', 'double')
        op = s.w([(5, ''), (4, '+'), (4, '-'), (4, '*'), (2, '/'), (2, '%'), (1, '**')] + ([] if fl else [(2, '&'), (2, '|'), (2, '^'), (2, '<<'), (2, '>>')]))
        if v.t == 'bool' and op in SHIFTS: op = ''
        if op in BITS: b = self.e(d, INTS)
        elif op in SHIFTS: b = Bin('&', self.e(d, INTS[1:]), Lit('int', 31, "31"))
        else: b = self.e(d)
        return Assign(op, Var(v), b)

def mark_fn(t):
    # T m_T(int k, T v){ ti(k); return v; }
    k = V("k", 'int'); v = V("v", t)
    f = FuncDef("m_" + t, [k, v], t)
    f.body = [Trace(Var(k)), Return(Var(v), t)]
    return f

def values(s, t):
    """argument value of type t"""
    if t == 'bool': return s.i(2)
    if t in ('float', 'double'):
        k = s.w([(8, 0), (4, 1), (2, 2), (2, 3)])
        if k == 0: v = float(s.rng(-20, 20)) / s.pick([1, 2, 4])
        elif k == 1: v = float(s.pick(DBL_EDGE)) * s.pick([1, -1])
        elif k == 2: v = s.pick([math.inf, -math.inf, math.nan, -0.0, 0.0])
        else: v = float(s.rng(-(1 << 33), 1 << 33)) * (2.0 ** s.rng(-40, 20))
        return f32(v) if t == 'float' else v
    bits = {'char': 8, 'short': 16, 'int': 32, 'long': 64}[t]
    k = s.w([(5, 0), (6, 1), (3, 2)])
    if k == 0: v = s.rng(-10, 10)
    elif k == 1: v = s.pick(LONG_EDGE) * s.pick([1, -1]) - s.i(2)
    else: v = s.i(1 << bits)
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

def spell(t, v):
    """source text that denotes the value (used for the folded version)"""
    if t == 'bool': return "true" if v else "false"
    if t in ('float', 'double'):
        if v != v: x = "(0.0 / 0.0)"
        elif v in (math.inf, -math.inf): x = "(%s1.0 / 0.0)" % ("-" if v < 0 else "")
        else:
            # exact: integer mantissa scaled by a power of two
            m, e = math.frexp(abs(v)); m = int(m * (1 << 53)); e -= 53
            while m and m % 2 == 0: m //= 2; e += 1
            if m == 0: x = "0.0"
            elif abs(e) < 60: x = "double(%dl)" % m + (" * double(%dl)" % (1 << e) if e > 0 else (" / double(%dl)" % (1 << -e) if e < 0 else ""))
            else: return None
            neg = math.copysign(1.0, v) < 0
            x = "(-(%s))" % x if neg else "(%s)" % x
        return "float%s" % x if t == 'float' else x
    if t == 'long':
        if v == -(1 << 63): return "(-9223372036854775807l - 1l)"
        return "(%dl)" % v
    if t == 'int' and v == -(1 << 31): return "(-2147483647 - 1)"
    if t in ('char', 'short'): return "%s(%d)" % (t, v)
    return "(%d)" % v

def gen(src, ctx):
    s = src
    P = Program(); marks = [mark_fn(t) for t in ('int', 'long', 'double', 'char', 'float')]
    P.top = [FuncS(f) for f in marks]
    jobs = []; ops = 0; types = set()
    for fi in range(1 + s.i(2)):
        g = G(s); g.marks = marks; g.n = fi * 100
        ps = [V("p%d" % k, s.pick(ALL[1:] if not s.p(15) else ALL)) for k in range(1 + s.i(4))]
        ret = s.pick(['int', 'long', 'double', 'double', 'long'] + list(ALL))
        f = FuncDef("f%d" % fi, ps, ret)
        g.vars = list(ps); g.side = s.p(55)
        body = []; body.append(None)
        for k in range(s.i(3)):
            v = V("q%d" % k, s.pick(ALL)); body.append(Decl(v, g.e(s.rng(1, 3)))); g.vars.append(v)
            if s.p(40) and not s.p(20): body.append(ExprS(g.assign(s.pick(g.vars), 2)))
        body = body[1:]
        for x in g.vars:
            if s.p(10): body.append(Trace(Var(x)))
        body.append(Return(g.e(s.rng(2, 5)), ret))
        f.body = body
        P.top.append(FuncS(f)); ops += g.ops; types |= g.types
        jobs.append(f)
    n = 0; good = 0; fault = None; globs = []
    for rep in range(s.rng(4, 9)):
        f = s.pick(jobs)
        # the arguments sit in globals of the parameter type or another type convertible to it
        ts = [p.t if not s.p(20) else s.pick(ALL) for p in f.params]
        vs = [values(s, t) for t in ts]
        lits = [spell(t, v) for t, v in zip(ts, vs)]
        if None in lits: continue
        st = []; args = []; fold = s.p(30)
        for t, v, x in zip(ts, vs, lits):
            if fold: args.append(Lit(t, v, x)); continue
            q = V("g%d" % n, t, glob=True); n += 1
            st.append((Decl(q, Lit(t, v, x)), q)); args.append(Var(q))
        tr = Trace(Call(f, args))
        # would it leave the documented domain or fault?
        lang.M = Machine(4000); fr = Frame("t"); lang.M.stack = [fr]
        try:
            for d, q in st: d.ex(fr)
            tr.ex(fr)
        except Taint: continue
        except Budget: continue
        except OverflowError: continue
        except Fault:
            if fault is None and s.p(30): fault = (st, tr)
            continue
        for d, q in st: P.top.append(d); P.gvars.append(q)
        P.top.append(tr); good += 1
    if fault is not None:
        for d, q in fault[0]: P.top.append(d); P.gvars.append(q)
        P.top.append(fault[1])
    if good == 0 and fault is None: return None
    # the same expression text directly in the global code
    c = langprop.finish(P, 20000, 20000)
    if c is None: return None
    c["good"] = good; c["ops"] = ops; c["types"] = len(types)
    return c

CF = langrun.CONFIGS
def run(case, ctx):
    out = langprop.run_model(case, ctx, CF)
    out.nontrivial = case["good"] >= 4 and case["ops"] >= 3 and case["types"] >= 2
    out.sample = case["code"][:500]
    return out
show = langprop.show
