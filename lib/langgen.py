"""Random construction of lang.py programs. Every choice comes from an engine.Src."""
from lang import *

INT_EDGE = [0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 63, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1000000, 16777216, 16777217, 2147483647]
LONG_EDGE = INT_EDGE + [2147483648, 4294967295, 4294967296, 1 << 40, (1 << 53) + 1, (1 << 62), (1 << 63) - 1]
DBL = ["0.0", "1.0", "0.5", "2.0", "-1.0", "0.1", "3.25", "-0.75", "10.0", "100.5", "1000000.0", "0.001", "123456.789", "16777217.0", "0.333333333333"]

def naive(s):
    # the compiler adds decimal digits up one by one; keep to literals where that gives the nearest double
    neg = s.startswith("-"); i, f = s.lstrip("-").split("."); x = float(i); fr = 0.0; p = 0.1
    for c in f: fr += p * int(c); p /= 10.0
    return -(x + fr) if neg else x + fr
DBL += ["0.25", "0.125", "1.5", "7.5", "0.0625", "64.25", "3.5", "-2.5", "1e3", "5e-1"]
DBL = [s for s in DBL if "e" in s or naive(s) == float(s)]

SPECIAL = [(float('inf'), "(1.0 / 0.0)"), (float('-inf'), "(-1.0 / 0.0)"), (float('nan'), "(0.0 / 0.0)"), (float('nan'), "(0.0 / 0.0)"), (-0.0, "(-0.0)")]

class GRet(Simple):
    """return at global scope"""
    def __init__(self, e): self.e = e
    def text(self): return "return %s;" % self.e.rp(1)
    def ex(self, fr):
        t = {'int': 'int', 'long': 'long', 'double': 'double'}[stk(self.e.t)]
        v = self.e.ev(fr)
        fr.ret = (t, v if self.e.t == 'bool' else narrow(self.e.t, v))
        return RET

class Opt:
    """feature switches of a generated program"""
    def __init__(self, **k):
        self.classes = 60; self.arrays = 70; self.refs = 60; self.fnvals = 40; self.closures = 35; self.coroutines = 25
        self.faults = 6; self.recursion = 30; self.methods = 70; self.mainfn = 50; self.size = 12; self.depth = 3
        self.floats = True; self.side = 14; self.switch = True; self.foreach = True; self.defaults = 25; self.jumps = True
        self.sizedlocals = True; self.keep = 3; self.translatable = False
        self.__dict__.update(k)

class Fn:
    """context of the function being generated"""
    def __init__(self, ret, glob=False, up=None):
        self.ret = ret; self.loops = []; self.glob = glob; self.up = up; self.coroutine = False; self.this = None; self.level = 0 if up is None else up.level + 1
        self.inlambda = False
        self.hide = 0 if up is None else up.hide   # references held by outer activations up to this level are not used


class G:
    def __init__(self, src, opt=None):
        self.s = src; self.o = opt or Opt()
        self.n = 0; self.gn = 0
        self.scopes = [[]]      # variables, innermost last
        self.funcs = []; self.classes = []; self.locfuncs = [[]]; self.coros = []
        self.prog = Program(); self.fn = Fn('int', True)
        self.depth = 0; self.budget = 0
        self.faulty = False; self.noside = 0
        self.stat = self.prog.stats
    def count(self, k): self.stat[k] = self.stat.get(k, 0) + 1

    def name(self, p="q"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -------------------------------------------------- types
    def prim(self):
        if not self.o.floats: return self.s.w([(10, 'int'), (4, 'long'), (2, 'short'), (2, 'char'), (1, 'bool')])
        return self.s.w([(10, 'int'), (4, 'long'), (4, 'double'), (2, 'short'), (2, 'char'), (2, 'float'), (1, 'bool')])

    def data_type(self, d=2):
        """a type for a variable, field or element"""
        k = self.s.w([(10, 0), (3 if self.o.arrays and d > 0 else 0, 1), (3 if self.classes and d > 0 else 0, 2)])
        if k == 0: return self.prim()
        if k == 1: return ('arr', self.data_type(d - 1), self.s.pick([2, 4, 4, 8, 3]))
        return ('cls', self.s.pick(self.classes))

    def var_type(self):
        o = self.o; s0 = self.s
        k = self.s.w([(12, 0), (3 if o.arrays else 0, 1), (3 if self.classes else 0, 2), (3 if o.refs else 0, 3),
                      (2 if o.arrays else 0, 4), (2 if o.fnvals and self.funcs else 0, 5)])
        if k == 0: return self.prim()
        if k == 1: return ('arr', self.data_type(1), self.s.pick([2, 4, 4, 8, 3]))
        if k == 2: return ('cls', self.s.pick(self.classes))
        if k == 3: return ('ref', self.s.pick([self.prim(), ('cls', self.s.pick(self.classes))]) if self.classes else self.prim())
        if k == 4: return ('uns', self.prim() if not self.classes or s0.p(70) else ('cls', s0.pick(self.classes)))
        f = self.s.pick(self.funcs)
        return ('fn', f.ret, tuple(p.t for p in f.params))

    # -------------------------------------------------- scopes
    def push(self): self.scopes.append([]); self.locfuncs.append([]); self.depth += 1
    def pop(self): self.scopes.pop(); self.locfuncs.pop(); self.depth -= 1
    def vars(self):
        for sc in self.scopes:
            for v in sc:
                # a function value may outlive what its activation's references point to
                if not v.glob and v.fdepth < self.fn.hide and (getattr(v, 'byref', False) or (isinstance(v.t, tuple) and v.t[0] in ('ref', 'uns') and not v.esc)): continue
                yield v
    def decl(self, v): self.scopes[-1].append(v)

    # -------------------------------------------------- literals
    def lit(self, t):
        s = self.s
        if t == 'bool':
            b = s.i(2)
            return Lit('bool', b, "true" if b else "false")
        if t == 'char':
            c = s.pick("a0Zq ~")
            return Lit('char', ord(c), "'%s'" % c)
        if t in ('int', 'short'):
            k = s.w([(6, 0), (3, 1), (1, 2)])
            v = s.i(10) if k == 0 else (s.pick(INT_EDGE) if k == 1 else s.i(1 << 31))
            if s.p(25): v = -v
            return Lit('int', v, str(v))
        if t == 'long':
            v = s.pick(LONG_EDGE) if s.p(60) else s.i(1 << 62)
            if s.p(25): v = -v
            return Lit('long', v, "%dl" % v)
        if s.p(5):
            v, x = s.pick(SPECIAL)
            if t == 'float': return Lit('float', v, "float%s" % x)
            return Lit('double', v, x)
        x = s.pick(DBL)
        if t == 'float': return Lit('float', f32(float(x)), x + "f")
        return Lit('double', float(x), x)

    # -------------------------------------------------- lvalues
    def index_expr(self, n, d):
        """index certainly inside [0, n), or now and then anything"""
        s = self.s
        if self.faulty and s.p(self.o.faults):
            self.count("risky index")
            vs = [v for v in self.vars() if v.t == 'int']
            if vs: return Var(s.pick(vs))
        k = s.w([(5, 0), (4, 1), (4, 2)])
        if k == 1:
            c = [v for v in self.vars() if v.bound is not None and v.bound <= n]
            if c: return Var(s.pick(c))
        if k == 2 and d > 0 and n >= 2:
            m = 1
            while m * 2 <= n: m *= 2
            return Bin('&', self.int_expr(d - 1), Lit('int', m - 1, str(m - 1)))
        v = s.i(n)
        return Lit('int', v, str(v))

    def paths(self, want, d, writable, esc=None, roots=None):
        """list of thunks building an lvalue of a type accepted by want()"""
        out = []
        def walk(mk, t, lim):
            if want(t): out.append(mk)
            if lim <= 0 or isinstance(t, str): return
            k = t[0]
            if k == 'cls':
                for n, ft in t[1].fields: walk(lambda mk=mk, n=n, ft=ft: Member(mk(), n, ft), ft, lim - 1)
            elif k == 'arr':
                walk(lambda mk=mk, t=t: Index(mk(), self.index_expr(t[2], d - 1), t[1]), t[1], lim - 1)
            elif k == 'uns':
                walk(lambda mk=mk, t=t: Index(mk(), self.index_expr(4, d - 1), t[1]), t[1], lim - 1)
            elif k == 'ref':
                if not isinstance(t[1], str) and t[1][0] == 'cls':
                    for n, ft in t[1][1].fields:
                        if not (isinstance(ft, tuple) and ft[0] == 'ref'):
                            walk(lambda mk=mk, n=n, ft=ft: Member(mk(), n, ft), ft, lim - 1)
                walk(lambda mk=mk: Deref(mk()), t[1], lim - 1)
        for v in (roots if roots is not None else self.vars()):
            if writable and v.ro and not (isinstance(v.t, tuple) and v.t[0] in ('ref', 'uns')): continue
            if v.ro and writable:
                # reference stays fixed, its target may change
                sub = len(out)
                walk(lambda v=v: Var(v), v.t, 3)
                if want(v.t) and len(out) > sub: del out[sub]
                continue
            walk(lambda v=v: Var(v), v.t, 3)
        if self.fn.this is not None and roots is None:
            for n, ft in self.fn.this.fields: walk(lambda n=n, ft=ft: Field(n, ft), ft, 2)
        return out

    def lvalue(self, t, d, writable=False):
        """a random lvalue of exactly type t, or None"""
        p = self.paths(lambda x: x == t, d, writable)
        if not p: return None
        return self.s.pick(p)()

    # -------------------------------------------------- numeric expressions
    def int_expr(self, d): return self.num(d, INTS)
    def num(self, d, allow=PRIMS, want=None):
        """numeric expression; its static type is one of allow"""
        s = self.s
        if want is None: want = self.prim()
        if want not in allow: want = 'int' if 'int' in allow else allow[0]
        if d <= 0:
            return self.leaf(want, allow)
        k = s.w([(6, 'leaf'), (10, 'bin'), (2, 'un'), (3, 'cmp'), (2, 'tern'), (3, 'cast'), (4 if self.funcs or self.locfuncs[-1] else 0, 'call'),
                 (2 if not self.noside and self.o.side else 0, 'side'), (2, 'logic'), (2 if self.o.methods else 0, 'mcall'),
                 (2 if self.o.fnvals else 0, 'fv'), (1, 'size'), (2, 'bits'), (1, 'shift'), (1 if self.o.refs else 0, 'ptr')])
        e = getattr(self, "x_" + k)(d, want, allow)
        if e is None or e.t not in allow:
            if e is not None and is_prim(e.t):
                return Cast(want, e)
            return self.leaf(want, allow)
        return e

    def leaf(self, want, allow):
        s = self.s
        if not s.p(35):
            p = self.paths(lambda x: x in allow if isinstance(x, str) else False, 0, False)
            if p:
                return s.pick(p)()
        return self.lit(want)

    def x_leaf(self, d, want, allow): return self.leaf(want, allow)
    def x_bin(self, d, want, allow):
        s = self.s
        op = s.w([(6, '+'), (5, '-'), (5, '*'), (2, '/'), (2, '%'), (1, '**')])
        a = self.num(d - 1, allow)
        if op == '**':
            b = Lit('int', s.i(4), None); b.s = str(b.v)
        elif op in ('/', '%'):
            b = self.num(d - 1, allow)
            if op == '%' and (b.t in ('float', 'double') or a.t in ('float', 'double')) and s.p(60): op = '/'
            if not (self.faulty and s.p(self.o.faults)):
                # a divisor that is never zero
                if b.t in INTS or not s.p(30):
                    b = Bin('|', b if b.t in INTS else Cast('int', self.num(0, INTS)), Lit('int', 1, "1"))
            else: self.count("risky division")
        else: b = self.num(d - 1, allow)
        if isinstance(b, Lit) and b.v == 0 and op in ('/', '%'): b = Lit('int', 3, "3")
        return Bin(op, a, b)
    def x_bits(self, d, want, allow):
        return Bin(self.s.pick(BITS), self.num(d - 1, INTS), self.num(d - 1, INTS))
    def x_shift(self, d, want, allow):
        a = self.num(d - 1, ('char', 'short', 'int', 'long')); b = self.num(d - 1, ('int', 'short', 'char'))
        m = self.s.pick([7, 15, 31])
        if self.s.p(50): return Bin(self.s.pick(SHIFTS), a, Lit('int', *(lambda v: (v, str(v)))(self.s.i(32))))
        return Bin(self.s.pick(SHIFTS), a, Bin('&', b, Lit('int', m, str(m))))
    def x_un(self, d, want, allow):
        op = self.s.pick(['-', '~', '!'])
        if op == '-': return Un('-', self.num(d - 1, PRIMS[1:] if 'double' in allow else INTS[1:]))
        if op == '~': return Un('~', self.num(d - 1, INTS[1:]))
        return Un('!', self.num(d - 1, INTS))
    def x_cmp(self, d, want, allow):
        return Bin(self.s.pick(CMPS), self.num(d - 1), self.num(d - 1))
    def x_logic(self, d, want, allow):
        return Bin(self.s.w([(5, '&&'), (5, '||'), (1, '^^')]), self.num(d - 1), self.num(d - 1))
    def cond(self, d):
        s = self.s
        k = s.w([(6, 0), (2, 1), (1, 2)])
        if k == 0: return Bin(s.pick(CMPS), self.num(d - 1), self.num(d - 1))
        if k == 1: return self.x_logic(d, None, None)
        return self.num(d)
    def x_tern(self, d, want, allow):
        return Tern(self.cond(d - 1), self.num(d - 1, allow), self.num(d - 1, allow))
    def x_cast(self, d, want, allow):
        a = self.num(d - 1)
        if a.t in ('float', 'double') and want in INTS and self.s.p(70):
            a = self.num(d - 1, INTS)
        return Cast(want, a)
    def x_call(self, d, want, allow):
        fs = [f for f in self.callable() if is_prim(f.ret)]
        if not fs: return None
        f = self.s.pick(fs)
        a = self.args(f, d - 1)
        if a is None: return None
        named = None
        if self.o.defaults and f.params and not f.local and self.s.p(15) and not any(f2 is not f and f2.name == f.name for f2 in self.funcs):
            named = self.s.shuffle(list(range(len(a)))); a = [a[k] for k in named]
            self.count("named arguments")
        self.count("call")
        return Call(f, a, named)
    def callable(self):
        out = [f for f in self.funcs if not f.ctor]
        for sc in self.locfuncs: out += sc
        return out
    def args(self, f, d):
        out = []
        n = len(f.params)
        if f.defaults and self.s.p(60):
            n = min(f.defaults.keys()) if self.s.p(50) else n
        for j, p in enumerate(f.params[:n]):
            if f.rec and j == 0:
                v = self.s.i(5); out.append(Lit('int', v, str(v))); continue
            e = self.expr(p.t, d, arg=True)
            if e is None: return None
            out.append(e)
        return out
    def x_mcall(self, d, want, allow):
        s = self.s
        cs = [c for c in self.classes if any(is_prim(m.ret) for m in c.methods)]
        if not cs: return None
        c = s.pick(cs)
        m = s.pick([m for m in c.methods if is_prim(m.ret)])
        if m not in c.methods or m.calls: return None
        o = self.lvalue(('cls', c), d - 1)
        if o is None or s.p(40):
            o2 = self.simple_ref(('cls', c))
            if o2 is not None: o = o2
        if o is None: return None
        a = self.args(m, d - 1)
        if a is None: return None
        self.count("method call")
        return MCall(o, m, a)
    def simple_ref(self, t):
        v = [v for v in self.vars() if v.t == ('ref', t)]
        return Var(self.s.pick(v)) if v else None
    def x_fv(self, d, want, allow):
        vs = [v for v in self.vars() if isinstance(v.t, tuple) and v.t[0] == 'fn' and is_prim(v.t[1])]
        if not vs: return None
        v = self.s.pick(vs)
        a = []
        for t in v.t[2]:
            e = self.expr(t, d - 1, arg=True)
            if e is None: return None
            a.append(e)
        self.count("call through value")
        return FVCall(Var(v), a)
    def x_size(self, d, want, allow):
        p = self.paths(lambda t: isinstance(t, tuple) and t[0] in ('arr', 'uns'), d, False)
        if not p: return None
        return Size(self.s.pick(p)())
    def x_ptr(self, d, want, allow):
        vs = [v for v in self.vars() if isinstance(v.t, tuple) and v.t[0] == 'ref']
        if not vs: return None
        a = self.s.pick(vs)
        same = [v for v in vs if v.t == a.t]
        k = self.s.i(3)
        if k == 0: return PtrCmp(self.s.pick(['==', '!=']), Var(a), Var(self.s.pick(same)))
        if k == 1: return PtrCmp(self.s.pick(['==', '!=']), Var(a), Null(a.t))
        return Tern(Var(a), self.num(d - 1, allow), self.num(d - 1, allow))
    def x_side(self, d, want, allow):
        s = self.s
        if not s.p(self.o.side * 5): return None
        p = self.paths(lambda x: isinstance(x, str) and x != 'bool' and x in allow, d - 1, True)
        if not p: return None
        lv = s.pick(p)()
        self.count("side effect in expression")
        k = s.i(3)
        if k == 0: return Inc(s.pick(['++', '--']), lv, True)
        if k == 1: return Inc(s.pick(['++', '--']), lv, False)
        return self.assign(lv, d - 1)

    def assign(self, lv, d):
        s = self.s
        t = lv.t
        if t == 'bool':
            return Assign("", lv, self.cond(d))
        if s.p(55):
            if t in INTS: ops = ['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>']
            else: ops = ['+', '-', '*', '/']
            op = s.pick(ops)
            if op in SHIFTS:
                v = s.i(8); return Assign(op, lv, Lit('int', v, str(v)))
            if op in ('/', '%'): return Assign(op, lv, Bin('|', self.num(d - 1, INTS), Lit('int', 1, "1")))
            b = self.num(d, INTS if t in INTS and (op in BITS or s.p(85)) else PRIMS)
            return Assign(op, lv, b)
        e = self.num(d, INTS if t in INTS and s.p(85) else PRIMS)
        return Assign("", lv, e)

    # -------------------------------------------------- expressions of any type
    def expr(self, t, d, arg=False, owner=None):
        """expression convertible to t; owner: the variable that will hold it (lifetimes)"""
        s = self.s
        if is_prim(t):
            if t in INTS and not s.p(12): return self.num(d, INTS, t)
            return self.num(d, PRIMS, t)
        k = t[0]
        if k == 'cls': return self.obj(t, d)
        if k == 'arr': return self.arr(t, d)
        if k == 'ref': return self.ref(t, d, arg, owner)
        if k == 'uns': return self.uns(t, d, arg, owner)
        return self.fnval(t, d, arg, owner)

    def obj(self, t, d):
        s = self.s; c = t[1]
        k = s.w([(6, 0), (3 if c.ctors else 0, 1), (3, 2), (2 if c.ops else 0, 3)])
        if k == 1 and d > 0:
            f = s.pick(c.ctors); a = self.args(f, d - 1)
            if a is not None: self.count("constructor"); return CtorCall(f, a)
        if k == 2 and d > 0:
            fs = [f for f in self.callable() if f.ret == t]
            if fs:
                f = s.pick(fs); a = self.args(f, d - 1)
                if a is not None: return Call(f, a)
        if k == 3 and d > 0:
            op = s.pick(sorted(c.ops)); f = c.ops[op]
            if f.ret == t and not f.calls:
                a = self.obj(t, d - 1); b = self.expr(f.params[1].t, d - 1)
                if a is not None and b is not None: self.count("operator call"); return OpCall(op, f, a, b)
        lv = self.lvalue(t, d)
        if lv is not None: return lv
        if c.ctors:
            f = s.pick(c.ctors); a = self.args(f, d - 1)
            if a is not None: return CtorCall(f, a)
        return None

    def arr(self, t, d):
        s = self.s
        lv = self.lvalue(t, d) if not s.p(30) else None
        if lv is not None: return lv
        if is_prim(t[1]) and t[1] in ('int', 'double', 'long') and t[2] <= 8:
            return self.arrlit(t[1], t[2], d)
        return self.lvalue(t, d)

    def arrlit(self, et, n, d):
        el = []
        for k in range(n):
            if self.s.p(50): e = self.lit(et)
            else: e = Cast(et, self.num(d - 1, INTS if et != 'double' else PRIMS))
            if e.t != et: e = Cast(et, e)
            el.append(e)
        return ArrLit(el, ('arr', et, n))

    def addr_roots(self, owner, arg):
        """variables whose address the owner may hold"""
        for v in self.vars():
            if v.glob: yield v; continue
            if arg: yield v; continue
            if getattr(v, 'coparam', False): continue # lives on the stack of one resumption only
            if owner is not None and not owner.esc and v.fdepth == self.fn.level and v.depth <= owner.depth: yield v

    def ref(self, t, d, arg=False, owner=None):
        s = self.s; st = t[1]
        k = s.w([(5, 0), (5, 1), (2, 2)])
        if self.faulty and s.p(self.o.faults) and s.p(50):
            self.count("null reference"); return Null(t)
        if k == 0:
            vs = [v for v in self.vars() if v.t == t and (v.esc or arg or (owner is not None and not owner.esc and v.fdepth == self.fn.level and v.depth <= owner.depth))]
            if vs: return Var(s.pick(vs))
        if k <= 1:
            roots = [v for v in self.addr_roots(owner, arg) if not (isinstance(v.t, tuple) and v.t[0] in ('uns', 'ref')) and not v.ro]
            p = self.paths(lambda x: x == st, d, False, roots=roots)
            if p: self.count("address of"); return AddrOf(s.pick(p)())
        if not isinstance(st, str) and st[0] == 'cls' and st[1].ctors and s.p(50) and d > 0:
            f = s.pick(st[1].ctors); a = self.args(f, d - 1)
            if a is not None: return CtorCall(f, a, True)
        return New(st)

    def uns(self, t, d, arg=False, owner=None):
        s = self.s; et = t[1]
        k = s.w([(5, 0), (4, 1), (3, 2)])
        if k == 0:
            vs = [v for v in self.vars() if v.t == t and (v.esc or arg or (owner is not None and not owner.esc and v.fdepth == self.fn.level and v.depth <= owner.depth))]
            if vs: return Var(s.pick(vs))
        if k <= 1:
            roots = [v for v in self.addr_roots(owner, arg) if not (isinstance(v.t, tuple) and v.t[0] in ('uns', 'ref'))]
            p = self.paths(lambda x: isinstance(x, tuple) and x[0] == 'arr' and x[1] == et and x[2] >= 4, d, False, roots=roots)
            if p: self.count("array alias"); return s.pick(p)()
        if et in ('int', 'double', 'long') and s.p(40): return self.arrlit(et, s.rng(4, 6), d)
        n = s.rng(4, 9)
        return New(et, Lit('int', n, str(n)))

    def fnval(self, t, d, arg=False, owner=None):
        s = self.s
        k = s.w([(4, 0), (4, 1), (4 if self.o.closures else 0, 2), (2 if self.o.methods else 0, 3)])
        if k == 0:
            vs = [v for v in self.vars() if v.t == t]
            if vs: return Var(s.pick(vs))
        if k == 2 and d > 0 and all(is_prim(p) for p in t[2]) and is_prim(t[1]) and not self.fn.inlambda:
            return self.lambda_(t)
        if k == 3:
            for v in self.vars():
                ct = v.t
                if isinstance(ct, tuple) and ct[0] == 'cls' and v.glob:
                    ms = [m for m in ct[1].methods if m.ret == t[1] and tuple(p.t for p in m.params) == t[2] and not m.calls]
                    if ms: self.count("bound method"); return BoundMethod(Var(v), s.pick(ms))
        fs = [f for f in self.callable() if f.ret == t[1] and tuple(p.t for p in f.params) == t[2] and not f.coroutine and not f.rec]
        if fs: self.count("function value"); return FnRef(s.pick(fs))
        vs = [v for v in self.vars() if v.t == t]
        if vs: return Var(s.pick(vs))
        if all(is_prim(p) for p in t[2]) and is_prim(t[1]) and not self.fn.inlambda: return self.lambda_(t)
        return None

    def lambda_(self, t):
        """auto(params){ [decl] return expr; } capturing whatever is in scope"""
        self.count("closure")
        params = [V(self.name("p"), p, depth=self.depth + 1, fdepth=self.fn.level + 1) for p in t[2]]
        f = FuncDef("$lambda", params, t[1])
        f.rec = False
        old = self.fn; self.fn = Fn(t[1], False, old); self.fn.this = old.this if False else None
        self.fn.inlambda = True; self.fn.hide = self.fn.level
        self.push()
        oldth = old.this
        for p in params: self.decl(p)
        body = []
        if self.s.p(40):
            p = self.paths(lambda x: isinstance(x, str) and x != 'bool', 0, True)
            if p: body.append(ExprS(self.assign(self.s.pick(p)(), 1)))
        e = self.num(2, INTS if t[1] in INTS else PRIMS)
        if e.t != t[1]: e = Cast(t[1], e)
        body.append(Return(e, t[1]))
        f.body = body
        self.pop(); self.fn = old
        return Lambda(f)

    # -------------------------------------------------- statements
    def block(self, n, d):
        self.push(); out = []
        for _ in range(n): out += self.stmt(d)
        self.pop()
        return out

    def decl_stmt(self, d, glob=False):
        s = self.s
        t = self.var_type()
        if glob:
            self.gn += 1; nm = "g%d" % self.gn
        else: nm = self.name()
        esc = glob or not (isinstance(t, tuple) and t[0] in ('ref', 'uns')) or s.p(40)
        if self.fn.glob and not glob: esc = False
        v = V(nm, t, glob=glob, depth=self.depth, escaping=esc, fdepth=self.fn.level)
        init = None
        k = kind(t)
        must = k in ('ref', 'uns', 'fn')
        if must or s.p(75):
            init = self.expr(t, d, owner=v)
            if init is None and must: return []
        if k == 'ref' and isinstance(init, Null) and not self.faulty: return []
        auto = False
        if init is not None and init.t == t and not isinstance(init, (Null, ArrLit, Lambda)) and k != 'uns' and s.p(20) and (k != 'prim' or t in ('int', 'long', 'double')):
            auto = True
        self.decl(v)
        if glob: self.prog.gvars.append(v)
        self.count("decl " + k)
        return [Decl(v, init, auto)]

    def stmt(self, d):
        s = self.s
        o = self.o
        lo = self.fn.loops
        k = s.w([(10, 'assign'), (8, 'trace'), (6, 'decl'), (4 if d > 0 else 0, 'if'), (4 if d > 0 else 0, 'for'), (2 if d > 0 else 0, 'while'),
                 (2 if d > 0 and o.switch else 0, 'switch'), (2 if d > 0 and o.foreach else 0, 'foreach'), (1 if d > 0 else 0, 'block'),
                 (3 if lo and o.jumps else 0, 'jump'), (1 if not self.fn.glob and d < 2 else 0, 'return'), (3, 'copy'), (3 if self.funcs else 0, 'callst'),
                 (3 if self.fn.coroutine else 0, 'yield'),
                 (2 if o.closures and d > 0 and self.fn.level < 3 and not self.fn.inlambda else 0, 'localfn'), (2 if o.refs else 0, 'rebind'), (o.keep if self.prog.slots is not None and not self.fn.glob and not self.fn.inlambda else 0, 'capture'),
                 (2 if self.prog.slots is not None and not self.fn.inlambda else 0, 'slot'),
                 (o.keep if self.prog.slots is not None and not self.fn.inlambda and d > 1 else 0, 'nest')])
        r = getattr(self, "s_" + k)(d)
        return r if r else []

    def s_assign(self, d):
        p = self.paths(lambda x: isinstance(x, str), 1, True)
        if not p: return self.s_trace(d)
        lv = self.s.pick(p)()
        if lv.t != 'bool' and self.s.p(15): return [ExprS(Inc(self.s.pick(['++', '--']), lv, self.s.p(50)))]
        return [ExprS(self.assign(lv, self.o.depth))]
    def s_trace(self, d):
        return [Trace(self.num(self.o.depth))]
    def s_decl(self, d): return self.decl_stmt(self.o.depth - 1)
    def s_copy(self, d):
        """whole-object or whole-array assignment"""
        p = self.paths(lambda x: isinstance(x, tuple) and x[0] in ('cls', 'arr'), 1, True)
        if not p: return None
        lv = self.s.pick(p)()
        e = self.expr(lv.t, 2)
        if e is None: return None
        self.count("copy " + lv.t[0])
        return [ExprS(Assign("", lv, e))]
    def s_rebind(self, d):
        vs = [v for v in self.vars() if isinstance(v.t, tuple) and v.t[0] in ('ref', 'uns', 'fn') and not v.ro]
        if not vs: return None
        v = self.s.pick(vs)
        if not v.glob and v.fdepth != self.fn.level: return None
        own = v
        e = self.expr(v.t, 2, owner=own)
        if e is None or (isinstance(e, Lambda) and (v.glob or v.depth < self.depth) and False): return None
        self.count("rebind " + v.t[0])
        return [ExprS(Assign("", Var(v), e))]
    def s_callst(self, d):
        fs = [f for f in self.callable() if f.ret == 'void' or True]
        f = self.s.pick(fs)
        a = self.args(f, 2)
        if a is None: return None
        return [ExprS(Call(f, a))]
    def s_if(self, d):
        c = self.cond(self.o.depth - 1)
        a = self.block(self.s.rng(1, 3), d - 1)
        b = self.block(self.s.rng(1, 2), d - 1) if self.s.p(45) else None
        return [If(c, a, b)]
    def loop(self, kind, d, extra=()):
        self.fn.loops.append(kind)
        self.push()
        for v in extra: self.decl(v)
        body = []
        for _ in range(self.s.rng(1, 3)): body += self.stmt(d - 1)
        self.pop(); self.fn.loops.pop()
        return body
    def s_for(self, d):
        s = self.s
        v = V(self.name("i"), 'int', ro=True, depth=self.depth + 1, fdepth=self.fn.level)
        dec = s.p(25)
        n = s.rng(1, 5); step = 1 if not s.p(20) else 2
        self.count("for")
        if dec:
            v.bound = n + 1
            body = self.loop("loop", d, [v])
            return [For(v, n, 0, step, body, True)]
        a = 0 if not s.p(20) else s.i(3)
        v.bound = n
        return [For(v, a, n, step, self.loop("loop", d, [v]))]
    def s_while(self, d):
        fuel = V(self.name("w"), 'int', ro=True, depth=self.depth, fdepth=self.fn.level)
        n = self.s.rng(1, 4); do = self.s.p(40)
        self.noside += 1; c = self.cond(2); self.noside -= 1
        body = self.loop("loop", d)
        self.count("do while" if do else "while")
        return [While(fuel, n, c, body, do)]
    def s_foreach(self, d):
        s = self.s
        items = []
        for k in range(s.w([(6, 1), (2, 2), (2, 3)])):
            cos = [f for f in self.callable() if f.coroutine and not f.params and is_prim(f.ret)]
            if cos and s.p(50):
                f = s.pick(cos); e = FnRef(f); t = f.ret; self.count("for each coroutine")
            else:
                # any element type; the variables of the loop itself are not in scope yet
                p = self.paths(lambda x: isinstance(x, tuple) and x[0] in ('arr', 'uns') and (is_prim(x[1]) or x[1][0] == 'cls'), 0, True)
                if not p: break
                e = s.pick(p)(); t = e.t[1]
            v = V(self.name("e"), t, depth=self.depth + 1, fdepth=self.fn.level); v.byref = e.t[0] != 'fn'
            items.append((v, e, s.p(40)))
        if not items: return None
        self.count("for each" if len(items) == 1 else "for each over %d" % len(items))
        return [ForEach(*items[0][:2], self.loop("loop", d, [v for v, e, ty in items]), items[0][2], items[1:])]
    def s_switch(self, d):
        s = self.s
        e = self.num(2, ('int', 'char', 'short', 'long', 'bool') if not s.p(15) else PRIMS)
        used = set(); cases = []
        self.fn.loops.append("switch")
        for _ in range(s.rng(1, 4)):
            v = s.rng(-1, 6)
            if v in used: continue
            used.add(v)
            cases.append((Lit('int', v, str(v)), self.block(s.rng(1, 2), d - 1), s.p(25)))
        df = self.block(s.rng(1, 2), d - 1) if s.p(60) else None
        self.fn.loops.pop()
        self.count("switch")
        return [Switch(e, cases, df)]
    def s_block(self, d): return [Block(self.block(self.s.rng(1, 3), d - 1))]
    def s_jump(self, d):
        s = self.s
        lo = self.fn.loops
        k = s.pick(["break", "continue"])
        # levels: count from the innermost; switches count for break only
        if k == "break":
            n = s.rng(1, len(lo)) if s.p(40) else 1
            if "switch" in lo[len(lo) - n:] and n > 1: n = 1
        else:
            # continue applies to loops
            loops = [x for x in lo if x == "loop"]
            if not loops: return None
            if lo[-1] == "switch" and False: return None
            n = 1
            if s.p(40): n = s.rng(1, len(loops))
        self.count("%s %d" % (k, n))
        if s.p(20):
            self.count("unconditional jump"); return [Jump(k, n)]
        return [If(self.cond(2), [Jump(k, n)])]
    def s_return(self, d):
        s = self.s
        r = self.fn.ret
        if r == 'void': return [Return(None, 'void') if s.p(15) else If(self.cond(2), [Return(None, 'void')])]
        e = self.expr(r, 2)
        if e is None: return None
        if s.p(15):
            self.count("unconditional return"); return [Return(e, r)]
        return [If(self.cond(2), [Return(e, r)])]
    def s_yield(self, d):
        e = self.expr(self.fn.ret, 2)
        return [Yield(e, self.fn.ret)] if e is not None else None

    def s_capture(self, d):
        """a closure over a variable of this activation is kept in a global slot and called later"""
        s = self.s; P = self.prog
        vs = [v for v in self.vars() if not v.glob and is_prim(v.t) and not getattr(v, 'coparam', False) and not getattr(v, 'byref', False)]
        own = [v for v in vs if v.fdepth == self.fn.level]
        if P.slots is None or not vs: return None
        v = s.pick(own if own and s.p(75) else vs)
        self.count("kept closure")
        f = FuncDef("$lambda", [], 'int'); f.rec = False
        x = Var(v)
        body = []
        if not v.ro and v.t != 'bool' and s.p(40): body.append(ExprS(Inc(s.pick(['++', '--']), Var(v), s.p(50))))
        if v.t in ('float', 'double'): x = Tern(Bin(s.pick(CMPS), x, self.lit('double')), Lit('int', 1, "1"), Lit('int', 2, "2"))
        elif v.t == 'long': x = Cast('int', x)
        elif v.t != 'int': x = Bin('+', x, Lit('int', 0, "0"))
        if s.p(20):
            v2 = s.pick(vs)
            if v2.t in ('int', 'short', 'char'): x = Bin('*', x, Var(v2))
        body.append(Return(x, 'int')); f.body = body
        k = s.i(P.slots.t[2])
        out = [ExprS(Assign("", Index(Var(P.slots), Lit('int', k, str(k)), P.slots.t[1]), Lambda(f)))]
        if s.p(30): out += self.s_slot(d)
        return out
    def s_slot(self, d):
        """call a kept closure if there is one"""
        P = self.prog
        if P.slots is None: return None
        k = self.s.i(P.slots.t[2]); ix = lambda: Index(Var(P.slots), Lit('int', k, str(k)), P.slots.t[1])
        return [If(PtrBool(ix()), [Trace(FVCall(ix(), []))])]

    def s_nest(self, d):
        """nested loops that keep a closure over fresh variables at every level and leave through jumps of several levels"""
        s = self.s; P = self.prog
        n = s.rng(1, 3); size = P.slots.t[2]
        self.count("closures in nested loops")
        cnt = V(self.name("c"), 'int', ro=True, depth=self.depth, fdepth=self.fn.level); cnt.bound = None
        def keep(v):
            f = FuncDef("$lambda", [], 'int'); f.rec = False
            f.body = [Return(Bin('+', Var(v), Lit('int', 0, "0")) if not s.p(20) else Inc(s.pick(['++', '--']), Var(v), True), 'int')]
            m = 1
            while m * 2 <= size: m *= 2
            return [ExprS(Assign("", Index(Var(P.slots), Bin('&', Inc('++', Var(cnt), False), Lit('int', m - 1, str(m - 1))), P.slots.t[1]), Lambda(f)))]
        def level(k):
            v = V(self.name("i"), 'int', ro=True, depth=self.depth + 1, fdepth=self.fn.level); hi = s.rng(2, 4)
            v.bound = hi
            self.fn.loops.append("loop"); self.push(); self.decl(v)
            x = V(self.name("x"), 'int', depth=self.depth, fdepth=self.fn.level)
            body = [Decl(x, Bin(s.pick(['+', '*', '-']), Var(v), self.num(1, ('int',))))]; self.decl(x)
            if s.p(70): body += keep(x)
            if s.p(15): body += self.stmt(0)
            if k < n - 1: body += level(k + 1)
            def jump():
                j = s.pick(["break", "continue", "continue"]); self.count("nested " + j)
                return [If(Bin('==', Bin('%', Var(v), Lit('int', 2 if hi < 4 else 3, None)), Lit('int', s.i(2), None)), [Jump(j, s.rng(1, min(k + 1, 3)))])]
            for y in body: pass
            if s.p(60):
                jj = jump(); body.insert(s.i(len(body)) + 1, jj[0])
            if s.p(30): body += keep(x)
            if s.p(20): body.append(ExprS(Inc('++', Var(x), True)))
            self.pop(); self.fn.loops.pop()
            return [For(v, 0, hi, 1, body)]
        out = [Decl(cnt, Lit('int', 0, "0"))] + level(0)
        for k in range(size):
            ix = lambda: Index(Var(P.slots), Lit('int', k, str(k)), P.slots.t[1])
            out.append(If(PtrBool(ix()), [Trace(FVCall(ix(), []))]))
        return out

    def s_localfn(self, d):
        """local function capturing the scope, possibly a coroutine, optionally taken as a value"""
        s = self.s
        co = self.o.coroutines and s.p(self.o.coroutines)
        ret = self.prim(); params = [V(self.name("p"), self.prim(), depth=self.depth + 1, fdepth=self.fn.level + 1) for _ in range(s.i(3))]
        for p in params: p.coparam = bool(co)
        f = FuncDef(self.name("lf"), params, ret); f.local = True; f.coroutine = bool(co); f.rec = False
        f.fvar = V(f.name, ('fn', ret, tuple(p.t for p in params)), depth=self.depth, fdepth=self.fn.level)
        self.count("local coroutine" if co else "local function")
        self.body(f, s.rng(1, 3), d - 1)
        self.locfuncs[-1].append(f)
        out = [FuncS(f)]
        return out

    # -------------------------------------------------- functions and classes
    def body(self, f, n, d, this=None):
        s = self.s
        old = self.fn; self.fn = Fn(f.ret, False, old); self.fn.coroutine = f.coroutine; self.fn.this = this
        if f.local: self.fn.hide = self.fn.level
        self.push()
        for p in f.params: self.decl(p)
        out = []
        for _ in range(n): out += self.stmt(d)
        if f.coroutine:
            y = self.s_yield(d)
            if y: out.insert(s.i(len(out) + 1), y[0]) if False else out.append(y[0])
            if s.p(60): out += self.s_trace(d)
        if f.ret != 'void':
            if self.faulty and s.p(self.o.faults // 2 + 0):
                self.count("missing return")
                e = self.expr(f.ret, 2)
                if e is None: e = self.default_expr(f.ret) or self.fresh(f.ret, out)
                out.append(If(self.cond(2), [Return(e, f.ret)]))
            else:
                e = self.expr(f.ret, 2)
                if e is None: e = self.default_expr(f.ret)
                if e is None: e = self.fresh(f.ret, out)
                out.append(Return(e, f.ret))
        f.body = out
        self.pop(); self.fn = old

    def fresh(self, t, out):
        v = V(self.name(), t, depth=self.depth, fdepth=self.fn.level)
        out.append(Decl(v)); return Var(v)

    def default_expr(self, t):
        if is_prim(t): return self.lit(t)
        if t[0] == 'ref': return New(t[1])
        if t[0] == 'uns': return New(t[1], Lit('int', 4, "4"))
        return None

    def ret_type(self):
        k = self.s.w([(10, 0), (3, 1), (3 if self.classes else 0, 2), (1 if self.o.arrays else 0, 3)])
        if k == 0: return self.prim()
        if k == 1: return 'void'
        if k == 2: return ('cls', self.s.pick(self.classes))
        return ('uns', self.prim())

    def param_type(self):
        o = self.o
        k = self.s.w([(10, 0), (2 if self.classes else 0, 1), (2 if o.refs else 0, 2), (2 if o.arrays else 0, 3), (1 if o.arrays else 0, 4), (1 if o.fnvals and self.funcs else 0, 5)])
        if k == 0: return self.prim()
        if k == 1: return ('cls', self.s.pick(self.classes))
        if k == 2: return ('ref', self.s.pick([self.prim(), ('cls', self.s.pick(self.classes))]) if self.classes else self.prim())
        if k == 3: return ('uns', self.prim())
        if k == 4: return ('arr', self.prim(), self.s.pick([2, 4]))
        f = self.s.pick(self.funcs)
        if not all(is_prim(p.t) for p in f.params) or not is_prim(f.ret): return self.prim()
        return ('fn', f.ret, tuple(p.t for p in f.params))

    def params(self, n):
        out = []
        for _ in range(n):
            t = self.param_type()
            out.append(V(self.name("p"), t, depth=self.depth + 1, escaping=not (isinstance(t, tuple) and t[0] in ('ref', 'uns')), fdepth=self.fn.level + 1))
        return out

    def function(self):
        s = self.s
        co = s.p(self.o.coroutines // 2) if self.o.coroutines else False
        f = FuncDef(self.name("f"), self.params(s.i(5) if not s.p(8) else s.rng(5, 9)), self.ret_type()); f.rec = False
        if co:
            f.coroutine = True
            f.params = [p for p in f.params if is_prim(p.t)]; f.ret = self.prim()
            for p in f.params: p.coparam = True
            self.count("coroutine")
        if self.o.defaults and f.params and s.p(self.o.defaults) and not co:
            k = len(f.params) - 1
            while k >= 0 and is_prim(f.params[k].t) and (k == len(f.params) - 1 or s.p(50)):
                f.defaults[k] = self.lit(f.params[k].t if f.params[k].t != 'short' else 'int'); k -= 1
            if f.defaults: self.count("default arguments")
        if self.o.recursion and s.p(self.o.recursion) and not co and is_prim(f.ret):
            self.rec_function(f)
        else:
            self.body(f, s.rng(1, 4), 2)
        self.funcs.append(f)
        return FuncS(f)

    def rec_function(self, f):
        """first parameter is fuel; the body calls the function itself with less"""
        s = self.s
        fuel = V(self.name("n"), 'int', ro=True, depth=self.depth + 1, fdepth=self.fn.level + 1); fuel.bound = None
        f.params = [fuel] + [p for p in f.params if is_prim(p.t)][:3]; f.defaults = {}
        f.rec = True
        self.count("recursion")
        old = self.fn; self.fn = Fn(f.ret, False, old); self.push()
        for p in f.params: self.decl(p)
        out = [If(Bin('<=', Var(fuel), Lit('int', 0, "0")), [Return(self.expr(f.ret, 1), f.ret)])]
        for _ in range(s.i(3)): out += self.stmt(1)
        less = lambda: Bin('-', Var(fuel), Lit('int', *(lambda v: (v, str(v)))(s.rng(1, 2))))
        rest = [self.num(1, INTS if p.t in INTS else PRIMS, p.t) for p in f.params[1:]]
        e = Call(f, [less()] + rest)
        if s.p(60):
            b = self.num(1, INTS if f.ret in INTS else PRIMS)
            if s.p(30): b = Call(f, [less()] + [self.num(1, INTS if p.t in INTS else PRIMS, p.t) for p in f.params[1:]])
            e = Bin(s.pick(['+', '-', '*']), e, b)
        out.append(Return(e, f.ret))
        f.body = out
        self.pop(); self.fn = old
        # outside callers pass a small constant
        f.fuel = True

    def klass(self):
        s = self.s
        c = ClassDef(self.name("C"))
        nf = s.rng(1, 5)
        for _ in range(nf):
            t = self.data_type(1) if not s.p(15) or not self.o.refs else ('ref', self.prim())
            c.fields.append((self.name("m"), t))
        cs = ClassS(c)
        self.classes.append(c)
        out = [cs]
        if s.p(50):
            f = FuncDef(c.name, [V(self.name("p"), self.prim(), depth=1, fdepth=1) for _ in range(s.rng(1, 3))], 'void', c); f.ctor = True; f.rec = False
            self.body(f, s.i(2), 1, this=c)
            st = []
            for n, ft in c.fields:
                if is_prim(ft) and s.p(80): st.append(ExprS(Assign("", Field(n, ft), Var(s.pick([p for p in f.params])))))
            # only conversions that are defined
            st = [x for x in st if not (x.e.a.t in INTS and x.e.b.t not in INTS)]
            f.body = st + f.body
            c.ctors.append(f); self.count("class with constructor")
        if self.o.methods:
            for _ in range(s.i(3)):
                m = FuncDef(self.name("me"), [V(self.name("p"), self.prim(), depth=1, fdepth=1) for _ in range(s.i(3))], s.pick(['int', 'void', 'double', 'long'] if self.o.floats else ['int', 'void', 'long']), c)
                m.rec = False
                m.calls = 1
                self.body(m, s.rng(1, 2), 1, this=c)
                m.calls = 0
                c.methods.append(m)
                m.outside = False
                if s.p(30):
                    m.outside = True; m.calls = 1   # not callable before its definition
                    out.append(ExtMethod(m))
            if s.p(40):
                op = s.pick(['+', '-', '*'])
                t = ('cls', c)
                f = FuncDef("operator" + op, [V(self.name("p"), t, depth=1, fdepth=1), V(self.name("p"), t if s.p(60) else self.prim(), depth=1, fdepth=1)], t)
                f.rec = False; f.calls = 1
                self.body(f, s.i(2), 1)
                f.calls = 0
                c.ops[op] = f
                out.append(FuncS(f)); self.count("operator overload")
        for m in c.methods: m.calls = 0
        return out

    # -------------------------------------------------- whole program
    def program(self):
        s = self.s; o = self.o; P = self.prog
        self.faulty = bool(o.faults) and s.p(45)
        top = P.top
        if o.classes and s.p(o.classes):
            for _ in range(s.rng(1, 2)): top.extend(self.klass())
        P.slots = None
        if o.closures and s.p(o.closures):
            v = V("gslots", ('arr', ('fn', 'int', ()), s.pick([2, 4, 6])), glob=True, depth=0, escaping=True, fdepth=0); v.ro = True
            top.append(Decl(v)); P.gvars.append(v); P.slots = v
        for _ in range(s.rng(1, 4)):
            self.gdecl(top)
        for _ in range(s.i(4)):
            top.append(self.function())
            if s.p(30): self.gdecl(top)
        if s.p(o.mainfn):
            f = FuncDef("mainf", [], 'int'); f.rec = False
            self.body(f, s.rng(2, o.size), 3)
            top.append(FuncS(f))
            if P.slots is not None:
                top.append(Trace(Call(f, []))); top.extend(self.s_slot(1) + self.s_slot(1))
            top.append(GRet(Call(f, [])))
        else:
            for _ in range(s.rng(2, o.size)):
                top.extend(self.stmt(3))
            if P.slots is not None: top.extend(self.s_slot(1) + self.s_slot(1))
            e = self.num(2)
            top.append(GRet(e))
        return P

    def gdecl(self, top):
        d = self.decl_stmt(1, glob=True)
        top.extend(d)

class ExtMethod(S):
    """void A:f(...) outside of the class"""
    def __init__(self, fn): self.fn = fn
    def emit(self, o):
        f = self.fn
        h = f.header().split(" ", 1)
        pos = f.header().index(f.name + "(")
        hd = f.header()
        f.line = self.line = o.add(hd[:pos] + f.cls.name + ":" + hd[pos:] + "{")
        emit_body(o, f.body)
        f.endline = o.add("}")
    def ex(self, fr): pass
