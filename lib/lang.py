"""Typed program generator for the nullc language with a reference interpreter.

A generated program is an AST; render() gives its source text and Machine.run() predicts everything the
host can observe: trace calls, global values, result, run-time fault and the lines of the active calls.
The interpreter is written from the language documentation (LanguageEN.html) and shares nothing with /repo.

Types: 'bool' 'char' 'short' 'int' 'long' 'float' 'double' 'void'
       ('cls', ClassDef) ('ref', T) ('arr', T, n) ('uns', T) ('fn', R, (A, ...))
"""
import math, re, struct

PRIMS = ('bool', 'char', 'short', 'int', 'long', 'float', 'double')
RANK = {t: k for k, t in enumerate(PRIMS)}
INTS = ('bool', 'char', 'short', 'int', 'long')
SIZES = {'bool': 1, 'char': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8}


# ------------------------------------------------------------------ numeric model
def i32(x):
    x &= 0xffffffff
    return x - 0x100000000 if x & 0x80000000 else x

def i64(x):
    x &= 0xffffffffffffffff
    return x - 0x10000000000000000 if x & 0x8000000000000000 else x

def i8(x):
    x &= 0xff
    return x - 256 if x & 128 else x

def i16(x):
    x &= 0xffff
    return x - 65536 if x & 32768 else x

def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf

def stk(t):
    """representation an rvalue of the type is computed in"""
    if t == 'long': return 'long'
    if t in ('float', 'double'): return 'double'
    return 'int'

class Taint(Exception):
    """the program left the domain where the documentation gives a value"""

class Budget(Exception):
    pass

class Fault(Exception):
    def __init__(self, kind, site=None):
        self.kind = kind; self.site = site

def d2i(v, bits):
    if v != v or v in (math.inf, -math.inf): raise Taint("double out of integer range")
    k = int(v)
    if not -(1 << (bits - 1)) <= k < (1 << (bits - 1)): raise Taint("double out of integer range")
    return k

def conv(v, a, b):
    """numeric conversion of an rvalue of static type a to static type b (both kept in stack form)"""
    if a == b: return v
    if b == 'bool': return 1 if v != 0 else 0
    sa, sb = stk(a), stk(b)
    if sa == sb: return v
    if sa == 'double': return d2i(v, 32 if sb == 'int' else 64)
    if sb == 'double': return float(v)
    if sb == 'long': return v
    return i32(v)

def narrow(t, v):
    """what a memory location of type t holds after storing stack value v"""
    if t == 'char': return i8(v)
    if t == 'short': return i16(v)
    if t == 'float': return f32(v)
    if t == 'bool': return i8(v)
    return v

def ipow(a, b, w):
    """integer power; negative exponents give 0 except for base 1 / -1"""
    if b < 0:
        if a == 1: return 1
        if a == -1: return -1 if b & 1 else 1
        return 0
    r = 1
    m = (1 << (32 if w is i32 else 64)) - 1
    return w(pow(a & m, b, m + 1))

def dpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        neg = a < 0 and b == math.floor(b) and math.fmod(b, 2.0) != 0
        return -math.inf if neg else math.inf
    except ValueError:
        if a == 0.0:
            odd = b == math.floor(b) and math.fmod(b, 2.0) != 0
            return math.copysign(math.inf, a) if odd else math.inf
        return math.nan

def ddiv(a, b):
    if b == 0.0:
        if a != a or a == 0.0: return math.nan
        return math.inf if (a > 0) == (math.copysign(1.0, b) > 0) else -math.inf
    try:
        return a / b
    except OverflowError:
        return math.inf

def dmod(a, b):
    try:
        return math.fmod(a, b)
    except (ValueError, OverflowError):
        return math.nan

def dmul(a, b):
    return a * b

ARITH = ('+', '-', '*', '/', '%', '**')
BITS = ('&', '|', '^')
SHIFTS = ('<<', '>>')
CMPS = ('<', '>', '<=', '>=', '==', '!=')
LOGIC = ('&&', '||', '^^')
PREC = {'**': 80, '*': 70, '/': 70, '%': 70, '+': 60, '-': 60, '<<': 50, '>>': 50, '<': 40, '>': 40, '<=': 40, '>=': 40,
        '==': 30, '!=': 30, '&': 26, '^': 25, '|': 24, '&&': 20, '^^': 19, '||': 18}

def bin_type(op, a, b):
    if op in CMPS or op in LOGIC: return 'bool'
    t = a if RANK[a] >= RANK[b] else b
    if t == 'bool' and op in ARITH: return 'int'
    return t

def bin_value(op, a, b, s, site=None):
    """a op b in stack representation s ('int', 'long', 'double')"""
    if s == 'double':
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/': return ddiv(a, b)
        if op == '%': return dmod(a, b)
        if op == '**': return dpow(a, b)
    else:
        w = i32 if s == 'int' else i64
        if op == '+': return w(a + b)
        if op == '-': return w(a - b)
        if op == '*': return w(a * b)
        if op in ('/', '%'):
            if b == 0: return read_fault("div", s, site)
            if b == -1 and a == (-(1 << 31) if s == 'int' else -(1 << 63)): return read_fault("div", s, site)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if op == '/' else a - q * b
        if op == '**': return ipow(a, b, w)
        if op in SHIFTS:
            if not 0 <= b < (32 if s == 'int' else 64): raise Taint("shift count")
            return w(a << b) if op == '<<' else a >> b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
    if op == '<': return 1 if a < b else 0
    if op == '>': return 1 if a > b else 0
    if op == '<=': return 1 if a <= b else 0
    if op == '>=': return 1 if a >= b else 0
    if op == '==': return 1 if a == b else 0
    if op == '!=': return 1 if a != b else 0
    raise AssertionError(op)


# ------------------------------------------------------------------ types
class ClassDef:
    def __init__(self, name):
        self.name = name; self.fields = []; self.methods = []; self.ctors = []; self.ops = {}
        self.size = 0
    def __repr__(self): return self.name

def tname(t):
    if isinstance(t, str): return t
    k = t[0]
    if k == 'cls': return t[1].name
    if k == 'ref': return tname(t[1]) + " ref"
    if k in ('arr', 'uns'):
        dims = ""
        while not isinstance(t, str) and t[0] in ('arr', 'uns'):
            dims += "[%d]" % t[2] if t[0] == 'arr' else "[]"; t = t[1]
        return tname(t) + dims
    if k == 'fn': return "%s ref(%s)" % (tname(t[1]), ",".join(tname(x) for x in t[2]))
    raise AssertionError(t)

def tdump(t):
    """type name as the compiler stores it (inner dimensions first)"""
    if isinstance(t, str): return t
    k = t[0]
    if k == 'cls': return t[1].name
    if k == 'ref': return tdump(t[1]) + " ref"
    if k == 'arr': return tdump(t[1]) + "[%d]" % t[2]
    if k == 'uns': return tdump(t[1]) + "[]"
    return "%s ref(%s)" % (tdump(t[1]), ",".join(tdump(x) for x in t[2]))

def is_prim(t): return isinstance(t, str) and t in RANK
def kind(t): return 'prim' if isinstance(t, str) else t[0]


# ------------------------------------------------------------------ memory
class Cell:
    __slots__ = ("t", "v")
    def __init__(self, t, v): self.t = t; self.v = v

class Obj:
    __slots__ = ("t", "f")
    def __init__(self, t, f): self.t = t; self.f = f

class Arr:
    __slots__ = ("t", "e")
    def __init__(self, t, e): self.t = t; self.e = e

def zero(t):
    if isinstance(t, str): return Cell(t, 0.0 if t in ('float', 'double') else 0)
    k = t[0]
    if k == 'cls': return Obj(t, {n: zero(ft) for n, ft in t[1].fields})
    if k == 'arr': return Arr(t, [zero(t[1]) for _ in range(t[2])])
    return Cell(t, None)

class NullLoc:
    """a location reached through a null pointer: forming it is fine, touching it is a fault"""
    __slots__ = ()
    @property
    def v(self): raise Fault("null")
    @v.setter
    def v(self, x): raise Fault("null")
    @property
    def f(self): raise Fault("null")
    @property
    def e(self): raise Taint("null array")
NULL = NullLoc()

def load(loc):
    if loc is NULL: raise Fault("null")
    if type(loc) is Cell: return loc.v
    return copyloc(loc)

def copyloc(l):
    if type(l) is Cell: return Cell(l.t, l.v)
    if type(l) is Obj: return Obj(l.t, {n: copyloc(x) for n, x in l.f.items()})
    return Arr(l.t, [copyloc(x) for x in l.e])

def store(loc, v):
    if loc is NULL: raise Fault("null")
    if type(loc) is Cell:
        loc.v = narrow(loc.t, v) if isinstance(loc.t, str) else v
    elif type(loc) is Obj:
        for n, x in v.f.items(): store(loc.f[n], x.v if type(x) is Cell else x)
    else:
        for d, x in zip(loc.e, v.e): store(d, x.v if type(x) is Cell else x)

class FnVal:
    __slots__ = ("fn", "env", "this", "state")
    def __init__(self, fn, env=None, this=None):
        self.fn = fn; self.env = env; self.this = this; self.state = None
        if env:
            for k, c in env.items(): M.caps.setdefault(id(c), []).append((self, k, c))

def close_vars(ids, fr):
    """the scope of these variables ends: every function value that uses one gets its own copy (manual, 4.3.3)"""
    caps = M.caps
    if not caps: return
    for k in ids:
        c = fr.vars.get(k)
        if c is None: continue
        for f, n, c2 in caps.pop(id(c), ()):
            if f.env.get(n) is c:
                x = copyloc(c); f.env[n] = x
                st = f.state.get("fr") if f.state else None
                if st is not None and st.vars.get(n) is c: st.vars[n] = x

def declared(body):
    out = []
    for s in body:
        if isinstance(s, Decl): out.append(s.v.id)
        elif isinstance(s, FuncS) and s.fn.local: out.append(s.fn.fvar.id)
        elif isinstance(s, While): out.append(s.fuel.id)
    return out

class Uns:
    """unsized array value: elements live in an Arr"""
    __slots__ = ("arr",)
    def __init__(self, arr): self.arr = arr


# ------------------------------------------------------------------ machine
class Frame:
    __slots__ = ("vars", "name", "line", "this", "ret", "fn")
    def __init__(self, name, fn=None): self.vars = {}; self.name = name; self.line = 0; self.this = None; self.ret = None; self.fn = fn

def read_fault(kind, t, site):
    """a faulting read: raises, or - when the machine is told to skip this expression - gives an arbitrary value"""
    if site in M.elide and is_prim(t):
        return float(M.elval) if t in ('float', 'double') else M.elval
    raise Fault(kind, site if is_prim(t) else None)

def filled(t):
    """a location of type t whose numeric parts hold the arbitrary value"""
    l = zero(t)
    def fill(x):
        if isinstance(x, Cell):
            if is_prim(x.t): x.v = float(M.elval) if x.t in ('float', 'double') else M.elval
        elif isinstance(x, Arr):
            for y in x.e: fill(y)
    fill(l)
    return l

class Machine:
    elide = (); elval = 0
    def __init__(self, limit=12000):
        self.trace = []; self.g = {}; self.steps = 0; self.limit = limit; self.stack = []; self.costates = {}
        self.labels = set(); self.caps = {}
    def step(self, n=1):
        self.steps += n
        if self.steps > self.limit: raise Budget()

M = None

def dblbits(d):
    if d != d: return "nan"
    return "%016x" % struct.unpack('<Q', struct.pack('<d', d))[0]

class Dump:
    def __init__(self): self.seen = {}
    def val(self, t, l):
        if isinstance(t, str):
            v = l.v
            if t == 'bool': return "true" if v else "false"
            if t == 'float': return "f:nan" if v != v else "f:%08x" % struct.unpack('<I', struct.pack('<f', v))[0]
            if t == 'double': return "d:" + dblbits(v)
            return str(v)
        k = t[0]
        if k == 'cls': return "{" + ",".join(self.val(ft, l.f[n]) for n, ft in t[1].fields) + "}"
        if k == 'arr': return self.arr(t[1], l.e)
        if k == 'uns': return "[null,0]" if l.v is None else self.arr(t[1], l.v.arr.e)
        if k == 'ref':
            if l.v is None: return "null"
            key = (id(l.v), tname(t[1]))
            if key in self.seen: return "#%d" % self.seen[key]
            n = len(self.seen); self.seen[key] = n
            return "&%d=" % n + self.val(t[1], l.v)
        if k == 'fn': return "fn(null)" if l.v is None else "fn"
    def arr(self, t, e):
        if t == 'char':
            s = ""
            for c in e:
                b = c.v & 255
                s += chr(b) if 32 <= b < 127 and b not in (34, 92) else "\\x%02x" % b
            return '%d"%s"' % (len(e), s)
        return "%d[%s]" % (len(e), ",".join(self.val(t, x) for x in e))


# ------------------------------------------------------------------ expressions
REL = PREC['<']
AMBIG = re.compile(r"\w+ <(?![<=])")

# redundant parentheses and blocks (C19): called while rendering
PAREN = BRACE = None

class E:
    __slots__ = ("t",)
    prec = 100
    def r(self): raise NotImplementedError
    def rp(self, p):
        s = self.r()
        if PAREN is not None and PAREN(self, p): return "(" + s + ")"
        # a name followed by '<' at the start of an argument is read as a generic type
        return "(" + s + ")" if self.prec < p or (p <= 6 and AMBIG.search(s)) or (p in (REL, REL + 1) and isinstance(self, Bin) and self.prec == REL) else s
    def ev(self, fr): raise NotImplementedError

class Lit(E):
    __slots__ = ("v", "s")
    def __init__(self, t, v, s=None): self.t = t; self.v = v; self.s = str(v) if s is None else s
    @property
    def prec(self): return 90 if self.s.startswith("-") else 100
    def r(self): return self.s
    def ev(self, fr): return self.v

class Null(E):
    __slots__ = ()
    def __init__(self, t): self.t = t
    def r(self): return "nullptr"
    def ev(self, fr): return None

class V:
    """a declared variable"""
    _n = 0
    def __init__(self, name, t, glob=False, ro=False, depth=0, escaping=True, bound=None, fdepth=0):
        self.name = name; self.t = t; self.glob = glob; self.ro = ro; self.depth = depth
        self.esc = escaping   # may hold only pointers to globals / heap
        self.bound = bound    # loop counters: values stay in [0, bound)
        self.fdepth = fdepth
        V._n += 1; self.id = V._n

def lload(e, fr):
    n = len(M.stack)
    try: return load(e.loc(fr))
    except Fault as f:
        if len(M.stack) != n or f.site is not None: raise
        return read_fault(f.kind, e.t, id(e))

class Var(E):
    __slots__ = ("v",)
    def __init__(self, v): self.v = v; self.t = v.t
    def r(self): return self.v.name
    def loc(self, fr):
        x = fr.vars.get(self.v.id)
        if x is None:
            x = M.g.get(self.v.id)
            if x is None: raise AssertionError("unset variable " + self.v.name)
        return x
    def ev(self, fr): return lload(self, fr)

class Field(E):
    """implicit member access inside a method"""
    __slots__ = ("n",)
    def __init__(self, n, t): self.n = n; self.t = t
    def r(self): return self.n
    def loc(self, fr): return fr.this.f[self.n]
    def ev(self, fr): return lload(self, fr)

class Member(E):
    """o.n where o is an lvalue of class type or an expression of reference-to-class type"""
    __slots__ = ("o", "n")
    def __init__(self, o, n, t): self.o = o; self.n = n; self.t = t
    def r(self): return self.o.rp(95) + "." + self.n
    def loc(self, fr):
        if self.o.t[0] == 'ref':
            x = self.o.ev(fr)
            if x is None: return NULL
        else: x = self.o.loc(fr) if hasattr(self.o, "loc") else self.o.ev(fr)
        if x is NULL: return NULL
        return x.f[self.n]
    def ev(self, fr): return lload(self, fr)

class Index(E):
    __slots__ = ("o", "i")
    def __init__(self, o, i, t): self.o = o; self.i = i; self.t = t
    def r(self): return "%s[%s]" % (self.o.rp(95), self.i.r())
    def loc(self, fr):
        ot = self.o.t
        if ot[0] == 'arr':
            a = self.o.loc(fr) if hasattr(self.o, "loc") else self.o.ev(fr)
            e = a.e if a is not NULL else (NULL,) * ot[2]
        else:
            a = self.o.ev(fr)
            e = a.arr.e if a is not None else ()
        k = self.i.ev(fr)
        k = conv(k, self.i.t, 'int')
        if not 0 <= k < len(e): raise Fault("index")
        return e[k]
    def ev(self, fr): return lload(self, fr)

class Deref(E):
    __slots__ = ("o",); prec = 90
    def __init__(self, o): self.o = o; self.t = o.t[1]
    def r(self): return "*" + self.o.rp(95)
    def loc(self, fr):
        x = self.o.ev(fr)
        if x is None: return NULL
        return x
    def ev(self, fr): return lload(self, fr)

class AddrOf(E):
    __slots__ = ("o",); prec = 90
    def __init__(self, o): self.o = o; self.t = ('ref', o.t)
    def r(self): return "&" + self.o.rp(95)
    def ev(self, fr):
        n = len(M.stack)
        try: x = self.o.loc(fr)
        except Fault as f:
            if len(M.stack) != n or f.site is not None: raise
            if id(self) in M.elide: return filled(self.o.t)
            raise Fault(f.kind, id(self))
        if x is NULL: raise Taint("address through null")
        return x

class Bin(E):
    __slots__ = ("op", "a", "b", "ct")
    def __init__(self, op, a, b):
        self.op = op; self.a = a; self.b = b; self.t = bin_type(op, a.t, b.t)
        x = a.t if RANK[a.t] >= RANK[b.t] else b.t
        self.ct = stk(x)   # representation operands are brought to
    @property
    def prec(self): return PREC[self.op]
    def r(self):
        p = PREC[self.op]
        return "%s %s %s" % (self.a.rp(p), self.op, self.b.rp(p + 1))
    def ev(self, fr):
        op = self.op
        M.step()
        if op == '&&':
            if self.a.ev(fr) == 0: return 0
            return 1 if self.b.ev(fr) != 0 else 0
        if op == '||':
            if self.a.ev(fr) != 0: return 1
            return 1 if self.b.ev(fr) != 0 else 0
        x = self.a.ev(fr); y = self.b.ev(fr)
        if op == '^^': return (1 if x != 0 else 0) ^ (1 if y != 0 else 0)
        s = self.ct
        if s == 'double': x = float(x); y = float(y)
        return bin_value(op, x, y, s, id(self))

class Un(E):
    __slots__ = ("op", "a"); prec = 90
    def __init__(self, op, a):
        self.op = op; self.a = a
        self.t = 'bool' if op == '!' else a.t
    def r(self):
        s = self.a.rp(91)
        return self.op + s
    def ev(self, fr):
        x = self.a.ev(fr)
        if self.op == '!': return 1 if not x else 0
        s = stk(self.a.t)
        if self.op == '-': return -x if s == 'double' else (i32(-x) if s == 'int' else i64(-x))
        if self.op == '~': return ~x
        return x

class Tern(E):
    __slots__ = ("c", "a", "b"); prec = 5
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b
        self.t = a.t if a.t == b.t else (a.t if RANK[a.t] >= RANK[b.t] else b.t)
    def r(self): return "%s ? %s : %s" % (self.c.rp(6), self.a.rp(6), self.b.rp(6))
    def ev(self, fr):
        M.step()
        c = self.c.ev(fr)
        x = self.a if (c is not None and c != 0) else self.b
        v = x.ev(fr)
        return conv(v, x.t, self.t) if is_prim(x.t) else v

class Cast(E):
    """explicit conversion  T(expr)"""
    __slots__ = ("a", "form")
    def __init__(self, t, a, form=0): self.t = t; self.a = a; self.form = form
    def r(self): return "%s(%s)" % (self.t, self.a.rp(1))
    def ev(self, fr): return narrow(self.t, conv(self.a.ev(fr), self.a.t, self.t))

def to_type(v, a, b):
    """implicit conversion at assignment / argument / return"""
    if is_prim(b): return conv(v, a, b)
    if b[0] == 'uns' and a[0] == 'arr':
        return Uns(v)   # v must already be the location to alias
    return v

class ArgMixin: pass

def ev_as(e, t, fr):
    """evaluate e for a destination of type t"""
    if is_prim(t): return conv(e.ev(fr), e.t, t)
    if t[0] == 'uns' and e.t[0] == 'arr':
        x = e.loc(fr) if hasattr(e, "loc") else e.ev(fr)
        if x is NULL: raise Taint("address through null")
        return Uns(x)
    return e.ev(fr)

class Assign(E):
    __slots__ = ("op", "a", "b"); prec = 1
    def __init__(self, op, a, b): self.op = op; self.a = a; self.b = b; self.t = a.t
    def r(self): return "%s %s= %s" % (self.a.rp(2), self.op, self.b.rp(1))
    def ev(self, fr):
        M.step()
        loc = self.a.loc(fr)
        if not self.op:
            v = ev_as(self.b, self.a.t, fr)
        else:
            at, bt = self.a.t, self.b.t
            x = loc.v
            y = self.b.ev(fr)
            rt = bin_type(self.op, at, bt)
            s = stk(at if RANK[at] >= RANK[bt] else bt)
            if s == 'double': x = float(x); y = float(y)
            v = conv(bin_value(self.op, x, y, s, id(self)), rt, at)
        store(loc, v)
        return load(loc)

class Inc(E):
    __slots__ = ("op", "a", "post"); prec = 90
    def __init__(self, op, a, post): self.op = op; self.a = a; self.post = post; self.t = a.t
    def r(self): return self.a.rp(95) + self.op if self.post else self.op + self.a.rp(95)
    @property
    def prec(self): return 95 if self.post else 90
    def ev(self, fr):
        loc = self.a.loc(fr); x = loc.v
        d = 1 if self.op == '++' else -1
        s = stk(self.a.t)
        n = x + float(d) if s == 'double' else (i32(x + d) if s == 'int' else i64(x + d))
        store(loc, n)
        return x if self.post else loc.v

class ArrLit(E):
    __slots__ = ("el",)
    def __init__(self, el, t): self.el = el; self.t = t
    def r(self): return "{" + ", ".join(x.rp(1) for x in self.el) + "}"
    def ev(self, fr):
        et = self.t[1]
        out = []
        for x in self.el:
            v = ev_as(x, et, fr); l = zero(et); store(l, v); out.append(l)
        return Arr(self.t, out)

class New(E):
    """new T / new T[n]"""
    __slots__ = ("n", "et")
    def __init__(self, et, n=None):
        self.et = et; self.n = n
        self.t = ('ref', et) if n is None else ('uns', et)
    def r(self): return "new " + tname(self.et) + ("" if self.n is None else "[%s]" % self.n.r())
    def ev(self, fr):
        M.step()
        if self.n is None: return zero(self.et)
        k = conv(self.n.ev(fr), self.n.t, 'int')
        if k < 0 or k > 4096: raise Taint("allocation size")
        M.step(k // 4)
        return Uns(Arr(('arr', self.et, k), [zero(self.et) for _ in range(k)]))

class Size(E):
    __slots__ = ("o",)
    def __init__(self, o): self.o = o; self.t = 'int'
    def r(self): return self.o.rp(95) + ".size"
    def ev(self, fr):
        if self.o.t[0] == 'arr':
            return self.o.t[2]
        v = self.o.ev(fr)
        return 0 if v is None else len(v.arr.e)

class PtrCmp(E):
    __slots__ = ("op", "a", "b"); prec = 30
    def __init__(self, op, a, b): self.op = op; self.a = a; self.b = b; self.t = 'bool'
    def r(self): return "%s %s %s" % (self.a.rp(31), self.op, self.b.rp(31))
    def ev(self, fr):
        x = self.a.ev(fr); y = self.b.ev(fr)
        same = same_ptr(x, y)
        return 1 if same == (self.op == '==') else 0

def same_ptr(x, y): return x is y

class PtrBool(E):
    __slots__ = ("a", "neg")
    def __init__(self, a, neg=False): self.a = a; self.neg = neg; self.t = 'bool'
    @property
    def prec(self): return 90 if self.neg else 95
    def r(self): return ("!" if self.neg else "") + self.a.rp(95)
    def ev(self, fr): return 1 if (self.a.ev(fr) is None) == self.neg else 0


def default_ret(fn):
    return None

class FuncDef:
    def __init__(self, name, params, ret, cls=None):
        self.name = name; self.params = params; self.ret = ret; self.body = []; self.cls = cls
        self.coroutine = False; self.local = False; self.defaults = {}; self.line = 0; self.endline = 0
        self.uses_env = False; self.calls = 0; self.ctor = False
        self.display = name
        self.inline = False; self.rec = False; self.fuel = False
    def header(self):
        parts = []
        for k, p in enumerate(self.params):
            parts.append("%s %s%s" % (tname(p.t), p.name, " = " + self.defaults[k].r() if k in self.defaults else ""))
        pre = "coroutine " if self.coroutine else ""
        return "%s%s %s(%s)" % (pre, tname(self.ret) if self.ret != 'void' else 'void', self.name, ", ".join(parts))

class CoRestart(Exception): pass

def call_fn(fn, args, fr, env=None, this=None, state=None):
    """args: values already converted to the parameter types; returns the value in stack form"""
    M.step(2)
    if len(M.stack) > 120: raise Taint("deep recursion")
    nf = Frame(fn.name, fn)
    if env: nf.vars.update(env)
    nf.this = this
    for p, v in zip(fn.params, args):
        l = zero(p.t); store(l, v); nf.vars[p.id] = l
    nf.line = fn.line
    M.stack.append(nf)
    if fn.coroutine:
        r = resume(fn, nf, state)
    else:
        sig = run_block(fn.body, nf)
        if sig is not RET:
            if fn.ret != 'void':
                nf.line = fn.endline
                raise Fault("noreturn")
        r = nf.ret
    if M.caps: close_vars([p.id for p in fn.params], nf)
    M.stack.pop()
    return r

def resume(fn, nf, state):
    """coroutines: run to the next yield / return; parameters are fresh, locals persist"""
    if state.get("gen") is None:
        fr = Frame(fn.name, fn); fr.vars = nf.vars; fr.this = nf.this
        state["fr"] = fr
        state["gen"] = co_block(fn.body, fr)
    fr = state["fr"]
    for p in fn.params: fr.vars[p.id] = nf.vars[p.id]
    M.stack[-1] = fr
    if state.get("line"): fr.line = state["line"]
    if state["gen"].gi_running: raise Taint("coroutine entered again while running")
    try:
        while True:
            sig = next(state["gen"])
            state["line"] = fr.line
            return sig[1]
    except StopIteration as st:
        state["gen"] = None; state["line"] = 0
        if st.value is RET: return fr.ret
        if fn.ret != 'void':
            fr.line = fn.endline
            raise Fault("noreturn")
        return None
    except Fault:
        state["gen"] = None
        raise

class Call(E):
    __slots__ = ("fn", "args", "named")
    def __init__(self, fn, args, named=None):
        self.fn = fn; self.args = args; self.t = fn.ret; self.named = named
    def r(self):
        if self.named:
            return "%s(%s)" % (self.fn.name, ", ".join("%s: %s" % (self.fn.params[k].name, self.args[j].rp(1)) for j, k in enumerate(self.named)))
        return "%s(%s)" % (self.fn.name, ", ".join(a.rp(1) for a in self.args))
    def getargs(self, fr):
        fn = self.fn
        if self.named:
            vals = {}
            # evaluated in the order of the parameters, not in the order they are written
            at = {k: j for j, k in enumerate(self.named)}
            for k in range(len(fn.params)):
                vals[k] = ev_as(self.args[at[k]], fn.params[k].t, fr) if k in at else ev_as(fn.defaults[k], fn.params[k].t, None)
            return [vals[k] for k in range(len(fn.params))]
        vals = [ev_as(a, p.t, fr) for a, p in zip(self.args, fn.params)]
        for k in range(len(self.args), len(fn.params)): vals.append(ev_as(fn.defaults[k], fn.params[k].t, fr))
        return vals
    def ev(self, fr):
        fn = self.fn
        vals = self.getargs(fr)
        env = this = state = None
        if fn.local:
            fv = fr.vars[fn.fvar.id].v   # FnVal
            env = fv.env
            if fn.coroutine: state = fv.state
        elif fn.coroutine:
            state = M.costates.setdefault(id(fn), {})
        elif fn.cls is not None:
            this = fr.this
        return call_fn(fn, vals, fr, env, this, state)

def snap(v, t): return v

class MCall(E):
    """o.method(args)"""
    __slots__ = ("o", "fn", "args")
    def __init__(self, o, fn, args): self.o = o; self.fn = fn; self.args = args; self.t = fn.ret
    def r(self): return "%s.%s(%s)" % (self.o.rp(95), self.fn.name, ", ".join(a.rp(1) for a in self.args))
    def ev(self, fr):
        if self.o.t[0] == 'ref':
            this = self.o.ev(fr)
        else:
            this = self.o.loc(fr) if hasattr(self.o, "loc") else self.o.ev(fr)
        vals = [ev_as(a, p.t, fr) for a, p in zip(self.args, self.fn.params)]
        if this is None or this is NULL: raise Taint("null object method")
        return call_fn(self.fn, vals, fr, None, this)

class CtorCall(E):
    """A(args)"""
    __slots__ = ("fn", "args", "heap")
    def __init__(self, fn, args, heap=False):
        self.fn = fn; self.args = args; self.heap = heap
        self.t = ('ref', ('cls', fn.cls)) if heap else ('cls', fn.cls)
    def r(self): return "%s%s(%s)" % ("new " if self.heap else "", self.fn.cls.name, ", ".join(a.rp(1) for a in self.args))
    def ev(self, fr):
        this = zero(('cls', self.fn.cls))
        vals = [ev_as(a, p.t, fr) for a, p in zip(self.args, self.fn.params)]
        call_fn(self.fn, vals, fr, None, this)
        return this

class OpCall(E):
    """overloaded binary operator"""
    __slots__ = ("op", "fn", "a", "b")
    def __init__(self, op, fn, a, b): self.op = op; self.fn = fn; self.a = a; self.b = b; self.t = fn.ret
    @property
    def prec(self): return PREC[self.op]
    def r(self): return "%s %s %s" % (self.a.rp(PREC[self.op]), self.op, self.b.rp(PREC[self.op] + 1))
    def ev(self, fr):
        vals = [ev_as(self.a, self.fn.params[0].t, fr), ev_as(self.b, self.fn.params[1].t, fr)]
        return call_fn(self.fn, vals, fr)

class FVCall(E):
    """call through a function value"""
    __slots__ = ("f", "args")
    def __init__(self, f, args): self.f = f; self.args = args; self.t = f.t[1]
    def r(self): return "%s(%s)" % (self.f.rp(95), ", ".join(a.rp(1) for a in self.args))
    def ev(self, fr):
        pt = self.f.t[2]
        f = self.f.ev(fr)   # the function value is taken before the arguments
        vals = [ev_as(a, t, fr) for a, t in zip(self.args, pt)]
        if f is None: raise Fault("nullfn")
        st = None
        if f.fn.coroutine: st = f.state if f.state is not None else M.costates.setdefault(id(f.fn), {})
        return call_fn(f.fn, vals, fr, f.env, f.this, st)

class FnRef(E):
    """function name used as a value"""
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn; self.t = ('fn', fn.ret, tuple(p.t for p in fn.params))
    def r(self): return self.fn.name
    def ev(self, fr):
        if self.fn.local: return fr.vars[self.fn.fvar.id].v
        return FnVal(self.fn)

class BoundMethod(E):
    __slots__ = ("o", "fn")
    def __init__(self, o, fn): self.o = o; self.fn = fn; self.t = ('fn', fn.ret, tuple(p.t for p in fn.params))
    def r(self): return "%s.%s" % (self.o.rp(95), self.fn.name)
    def ev(self, fr):
        this = self.o.ev(fr) if self.o.t[0] == 'ref' else self.o.loc(fr)
        return FnVal(self.fn, None, this)

class Lambda(E):
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn; self.t = ('fn', fn.ret, tuple(p.t for p in fn.params))
    def r(self):
        body = " ".join(s.inline() for s in self.fn.body)
        return "%s(%s){ %s }" % ("auto", ", ".join("%s %s" % (tname(p.t), p.name) for p in self.fn.params), body)
    def ev(self, fr):
        return FnVal(self.fn, dict(fr.vars), fr.this)


# ------------------------------------------------------------------ statements
class Sig:
    __slots__ = ("k", "n")
    def __init__(self, k, n=0): self.k = k; self.n = n
RET = Sig("ret")

class Out:
    def __init__(self): self.lines = []; self.ind = 0
    def add(self, s):
        self.lines.append("  " * self.ind + s)
        return len(self.lines)

class S:
    line = 0
    def emit(self, o): raise NotImplementedError
    def ex(self, fr): raise NotImplementedError
    def inline(self): raise NotImplementedError

def run_block(body, fr):
    for s in body:
        M.step()
        if s.line: fr.line = s.line
        sig = s.ex(fr)
        if sig is not None: break
    else: sig = None
    if M.caps: close_vars(declared(body), fr)
    return sig

def co_block(body, fr):
    for s in body:
        M.step()
        if s.line: fr.line = s.line
        sig = yield from s.co(fr)
        if sig is not None: break
    else: sig = None
    if M.caps: close_vars(declared(body), fr)
    return sig

class Simple(S):
    def text(self): raise NotImplementedError
    def emit(self, o): self.line = o.add(self.text())
    def inline(self): return self.text()
    def co(self, fr):
        return self.ex(fr)
        yield

class ExprS(Simple):
    def __init__(self, e): self.e = e
    def text(self): return "{ " + self.e.rp(1) + "; }" if BRACE is not None and BRACE() else self.e.rp(1) + ";"
    def ex(self, fr): self.e.ev(fr)

class Trace(Simple):
    F = {'int': 'ti', 'long': 'tl', 'double': 'td'}
    def __init__(self, e): self.e = e; self.k = stk(e.t)
    def text(self): return "%s(%s);" % (self.F[self.k], self.e.rp(1))
    def ex(self, fr):
        v = self.e.ev(fr)
        if self.k == 'double': M.trace.append("d" + dblbits(v))
        else: M.trace.append(("i%d" if self.k == 'int' else "l%d") % v)
        M.step()

class Decl(Simple):
    def __init__(self, v, init=None, auto=False): self.v = v; self.init = init; self.auto = auto
    def text(self):
        t = "auto" if self.auto else tname(self.v.t)
        if self.init is None: return "%s %s;" % (t, self.v.name)
        return "%s %s = %s;" % (t, self.v.name, self.init.rp(1))
    def ex(self, fr):
        l = zero(self.v.t)
        if self.init is not None: store(l, ev_as(self.init, self.v.t, fr))
        if self.v.glob: M.g[self.v.id] = l
        else: fr.vars[self.v.id] = l

class Return(Simple):
    def __init__(self, e, ft): self.e = e; self.ft = ft
    def text(self): return "return;" if self.e is None else "return %s;" % self.e.rp(1)
    def ex(self, fr):
        if self.e is not None:
            v = ev_as(self.e, self.ft, fr)
            if is_prim(self.ft) and self.ft != 'bool': v = narrow(self.ft, v)
            fr.ret = v
        return RET

class Yield(Simple):
    def __init__(self, e, ft): self.e = e; self.ft = ft
    def text(self): return "yield %s;" % self.e.rp(1)
    def co(self, fr):
        v = ev_as(self.e, self.ft, fr)
        if is_prim(self.ft) and self.ft != 'bool': v = narrow(self.ft, v)
        yield ("y", v)

class Jump(Simple):
    def __init__(self, k, n): self.k = k; self.n = n
    def text(self): return "%s%s;" % (self.k, "" if self.n == 1 else " %d" % self.n)
    def ex(self, fr): return Sig(self.k, self.n)

class Block(S):
    def __init__(self, body): self.body = body
    def emit(self, o):
        self.line = o.add("{"); o.ind += 1
        for s in self.body: s.emit(o)
        o.ind -= 1; o.add("}")
    def inline(self): return "{ " + " ".join(s.inline() for s in self.body) + " }"
    def ex(self, fr): return run_block(self.body, fr)
    def co(self, fr): return (yield from co_block(self.body, fr))

def emit_body(o, body):
    o.ind += 1
    for s in body: s.emit(o)
    o.ind -= 1

class If(S):
    def __init__(self, c, a, b=None): self.c = c; self.a = a; self.b = b
    def emit(self, o):
        self.line = o.add("if(%s){" % self.c.r()); emit_body(o, self.a)
        if self.b is not None: o.add("}else{"); emit_body(o, self.b)
        o.add("}")
    def inline(self):
        s = "if(%s){ %s }" % (self.c.r(), " ".join(x.inline() for x in self.a))
        if self.b is not None: s += "else{ %s }" % " ".join(x.inline() for x in self.b)
        return s
    def pick(self, fr):
        c = self.c.ev(fr)
        return self.a if (c is not None and c != 0) else (self.b or [])
    def ex(self, fr): return run_block(self.pick(fr), fr)
    def co(self, fr): return (yield from co_block(self.pick(fr), fr))

def loop_sig(sig):
    """-> (stop, value) : what a loop does with a signal from its body"""
    if sig is None: return None
    if sig is RET: return (sig,)
    if sig.n > 1: return (Sig(sig.k, sig.n - 1),)
    if sig.k == "break": return (None,)
    return None

class For(S):
    """for(int i = a; i < n; i++) with a private counter"""
    def __init__(self, v, a, n, step, body, dec=False): self.v = v; self.a = a; self.n = n; self.step = step; self.body = body; self.dec = dec
    def emit(self, o):
        i = self.v.name
        self.line = o.add("for(int %s = %d; %s %s %d; %s){" % (i, self.a, i, '>=' if self.dec else '<', self.n, self.inc()))
        emit_body(o, self.body); o.add("}")
    def inc(self):
        i = self.v.name
        if self.dec: return i + "--" if self.step == 1 else "%s -= %d" % (i, self.step)
        return i + "++" if self.step == 1 else "%s += %d" % (i, self.step)
    def inline(self):
        i = self.v.name
        return "for(int %s = %d; %s %s %d; %s){ %s }" % (i, self.a, i, '>=' if self.dec else '<', self.n, self.inc(), " ".join(x.inline() for x in self.body))
    def test(self, l): return l.v >= self.n if self.dec else l.v < self.n
    def ex(self, fr):
        l = Cell('int', self.a); fr.vars[self.v.id] = l
        while self.test(l):
            M.step()
            sig = loop_sig(run_block(self.body, fr))
            if sig is not None: close_vars([self.v.id], fr); return sig[0]
            if self.line: fr.line = self.line
            # each iteration has its own counter variable: closures made in the body keep theirs
            close_vars([self.v.id], fr)
            l = Cell('int', l.v); fr.vars[self.v.id] = l
            l.v = i32(l.v + (-self.step if self.dec else self.step))
    def co(self, fr):
        l = Cell('int', self.a); fr.vars[self.v.id] = l
        while self.test(fr.vars[self.v.id]):
            M.step()
            sig = loop_sig((yield from co_block(self.body, fr)))
            if sig is not None: close_vars([self.v.id], fr); return sig[0]
            if self.line: fr.line = self.line
            close_vars([self.v.id], fr)
            l = Cell('int', fr.vars[self.v.id].v); fr.vars[self.v.id] = l
            l.v = i32(l.v + (-self.step if self.dec else self.step))

class While(S):
    """while((c)) with a fuel counter declared before it"""
    def __init__(self, fuel, n, c, body, do=False): self.fuel = fuel; self.n = n; self.c = c; self.body = body; self.do = do
    def head(self): return "%s-- > 0 && %s" % (self.fuel.name, self.c.rp(21))
    def emit(self, o):
        self.line = o.add("int %s = %d;" % (self.fuel.name, self.n))
        if self.do:
            o.add("do{"); emit_body(o, self.body); self.hline = o.add("}while(%s);" % self.head())
        else:
            self.hline = o.add("while(%s){" % self.head()); emit_body(o, self.body); o.add("}")
    def inline(self):
        if self.do: return "int %s = %d; do{ %s }while(%s);" % (self.fuel.name, self.n, " ".join(x.inline() for x in self.body), self.head())
        return "int %s = %d; while(%s){ %s }" % (self.fuel.name, self.n, self.head(), " ".join(x.inline() for x in self.body))
    def cond(self, fr):
        fr.line = getattr(self, "hline", self.line)
        l = fr.vars[self.fuel.id]; x = l.v; l.v = i32(x - 1)
        if not x > 0: return False
        c = self.c.ev(fr)
        return c is not None and c != 0
    def ex(self, fr):
        fr.vars[self.fuel.id] = Cell('int', self.n)
        first = self.do
        while first or self.cond(fr):
            first = False
            M.step()
            sig = loop_sig(run_block(self.body, fr))
            if sig is not None: return sig[0]
    def co(self, fr):
        fr.vars[self.fuel.id] = Cell('int', self.n)
        first = self.do
        while first or self.cond(fr):
            first = False
            M.step()
            sig = loop_sig((yield from co_block(self.body, fr)))
            if sig is not None: return sig[0]

class ForEach(S):
    """for(i in arr, T j in arr2, k in coroutine): array variables stand for the element itself, the loop ends with the shortest"""
    def __init__(self, v, arr, body, typed, more=()): self.items = [(v, arr, typed)] + list(more); self.body = body
    def head(self):
        return "for(%s){" % ", ".join("%s%s in %s" % (tname(v.t) + " " if typed else "", v.name, arr.r()) for v, arr, typed in self.items)
    def emit(self, o):
        self.line = o.add(self.head()); emit_body(o, self.body); o.add("}")
    def inline(self): return self.head() + " " + " ".join(x.inline() for x in self.body) + " }"
    def place(self, fr, arr):
        """the array expression is evaluated once; an unsized array is read again before every iteration"""
        n = len(M.stack)
        try: return arr.loc(fr) if hasattr(arr, "loc") else Cell(arr.t, arr.ev(fr))
        except Fault as f:
            if len(M.stack) != n or f.site is not None or arr.t[0] != 'arr': raise
            if id(self) in M.elide: return filled(arr.t)
            raise Fault(f.kind, id(self))
    def start(self, fr):
        its = []
        for v, arr, typed in self.items:
            if arr.t[0] == 'fn':
                f = arr.ev(fr); it = CoIter(v, f)
                it.next(fr); its.append(it)
            else:
                l = self.place(fr, arr)
                if arr.t[0] == 'arr':
                    if isinstance(l, Cell): l = l.v
                    its.append(ArrIter(v, list(l.e if l is not NULL else (NULL,) * arr.t[2])))
                else: its.append(UnsIter(v, l))
        return its
    def cond(self, its, fr): return all(it.more(fr) for it in its)
    def bind(self, its, fr):
        M.step()
        for it in its: it.bind(fr)
    def step(self, its, fr):
        if self.line: fr.line = self.line
        for it in its: it.next(fr)
    def ex(self, fr):
        its = self.start(fr)
        while self.cond(its, fr):
            self.bind(its, fr)
            sig = loop_sig(run_block(self.body, fr))
            close_vars([it.v.id for it in its if isinstance(it, CoIter)], fr)
            if sig is not None: return sig[0]
            self.step(its, fr)
    def co(self, fr):
        its = self.start(fr)
        while self.cond(its, fr):
            self.bind(its, fr)
            sig = loop_sig((yield from co_block(self.body, fr)))
            close_vars([it.v.id for it in its if isinstance(it, CoIter)], fr)
            if sig is not None: return sig[0]
            self.step(its, fr)

class ArrIter:
    def __init__(self, v, e): self.v = v; self.e = e; self.i = 0
    def more(self, fr): return self.i < len(self.e)
    def bind(self, fr): fr.vars[self.v.id] = self.e[self.i]
    def next(self, fr): self.i += 1
class UnsIter(ArrIter):
    def __init__(self, v, l): self.v = v; self.l = l; self.i = 0
    def more(self, fr):
        a = load(self.l)
        return a is not None and self.i < len(a.arr.e)
    def bind(self, fr):
        a = load(self.l); fr.vars[self.v.id] = a.arr.e[self.i]
class CoIter:
    def __init__(self, v, f):
        self.v = v; self.f = f; self.st = f.state if f.state is not None else M.costates.setdefault(id(f.fn), {})
    def more(self, fr): return self.st.get("gen") is not None
    def bind(self, fr): pass
    def next(self, fr):
        r = call_fn(self.f.fn, [], fr, self.f.env, self.f.this, self.st)
        c = Cell(self.v.t, None); store(c, r); fr.vars[self.v.id] = c

class Switch(S):
    """cases: list of (Lit, body, falls) ; default body or None (always last)"""
    def __init__(self, e, cases, dflt): self.e = e; self.cases = cases; self.dflt = dflt
    def emit(self, o):
        self.line = o.add("switch(%s){" % self.e.r())
        for l, b, falls in self.cases:
            o.add("case %s:" % l.r()); emit_body(o, b)
            if not falls: o.add("  break;")
        if self.dflt is not None:
            o.add("default:"); emit_body(o, self.dflt)
        o.add("}")
    def inline(self):
        s = "switch(%s){ " % self.e.r()
        for l, b, falls in self.cases: s += "case %s: %s %s" % (l.r(), " ".join(x.inline() for x in b), "" if falls else "break; ")
        if self.dflt is not None: s += "default: " + " ".join(x.inline() for x in self.dflt)
        return s + " }"
    def chosen(self, fr):
        v = narrow(self.e.t, self.e.ev(fr)) # the value is kept in a variable of its type
        out = []; on = False
        for l, b, falls in self.cases:
            if not on:
                s = stk(self.e.t if RANK[self.e.t] >= RANK[l.t] else l.t)
                x, y = (float(v), float(l.v)) if s == 'double' else (v, l.v)
                on = x == y
            if on:
                out += b
                if not falls: return out
        return out + (self.dflt or [])
    def after(self, sig):
        if sig is None or sig is RET: return sig
        if sig.k == "break":
            return None if sig.n == 1 else Sig("break", sig.n - 1)
        return sig
    def ex(self, fr): return self.after(run_block(self.chosen(fr), fr))
    def co(self, fr): return self.after((yield from co_block(self.chosen(fr), fr)))

class FuncS(S):
    """function definition as a statement (global or local)"""
    def __init__(self, fn): self.fn = fn
    def emit(self, o):
        f = self.fn
        f.line = self.line = o.add(f.header() + "{")
        emit_body(o, f.body)
        f.endline = o.add("}")
    def inline(self): return self.fn.header() + "{ " + " ".join(s.inline() for s in self.fn.body) + " }"
    def ex(self, fr):
        f = self.fn
        if f.local:
            fv = FnVal(f, dict(fr.vars), fr.this)
            if f.coroutine: fv.state = {}
            fr.vars[f.fvar.id] = Cell(('fn',), fv)
            fv.env[f.fvar.id] = fr.vars[f.fvar.id]
    def co(self, fr):
        self.ex(fr)
        return None
        yield

class ClassS(S):
    def __init__(self, c): self.c = c
    def emit(self, o):
        c = self.c
        self.line = o.add("class %s{" % c.name); o.ind += 1
        for n, t in c.fields: o.add("%s %s;" % (tname(t), n))
        for f in c.ctors + [m for m in c.methods if not getattr(m, "outside", False)]: FuncS(f).emit(o)
        o.ind -= 1; o.add("}")
    def ex(self, fr): pass

class Raw(S):
    def __init__(self, s): self.s = s
    def emit(self, o): self.line = o.add(self.s)
    def ex(self, fr): pass


# ------------------------------------------------------------------ running the model
class Expect:
    """what a program is predicted to do"""
    def __init__(self): self.trace = ""; self.globals = ""; self.result = None; self.fault = None; self.lines = None; self.steps = 0; self.site = None

class Program:
    def __init__(self):
        self.top = []; self.gvars = []; self.main_names = []; self.imports = ["vt"]; self.stats = {}; self.slots = None
    def render(self):
        o = Out()
        for i in self.imports: o.add("import %s;" % i)
        for s in self.top: s.emit(o)
        return "\n".join(o.lines) + "\n"
    def predict(self, limit=12000, elide=(), elval=0):
        global M
        M = Machine(limit); M.elide = elide; M.elval = elval
        fr = Frame("global scope"); M.stack = [fr]
        x = Expect()
        try:
            sig = run_block(self.top, fr)
            if sig is RET: x.result = fr.ret
        except Fault as f:
            x.fault = f.kind; x.site = f.site
            x.lines = [(q.name, q.line) for q in M.stack]
        except RecursionError:
            raise Budget()
        x.trace = "".join(t + "\n" for t in M.trace)
        d = Dump()
        out = ""
        for v in self.gvars:
            l = M.g.get(v.id)
            if l is None: l = zero(v.t)
            out += "%s:%s=%s\n" % (v.name, tdump(v.t), d.val(v.t, l))
        x.globals = out; x.steps = M.steps
        return x
