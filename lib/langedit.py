"""Structural edits of a generated program, used to shrink failing cases."""
from lang import *
import lang, langgen

def stmt_lists(P):
    """every list of statements in the program, outermost first"""
    out = []
    def go(lst):
        out.append(lst)
        for s in lst: sub(s)
    def sub(s):
        if isinstance(s, Switch):
            for c in s.cases: go(c[1])
            if s.dflt is not None: go(s.dflt)
            return
        if isinstance(s, If):
            go(s.a)
            if s.b is not None: go(s.b)
            return
        if isinstance(s, (FuncS, langgen.ExtMethod)): go(s.fn.body); return
        if isinstance(s, ClassS):
            for f in s.c.ctors + [m for m in s.c.methods if not getattr(m, "outside", False)]: go(f.body)
            return
        b = getattr(s, "body", None)
        if isinstance(b, list): go(b)
    go(P.top)
    return out

def slots(x):
    for k in type(x).__mro__:
        for n in getattr(k, "__slots__", ()): yield n

def expr_sites(P):
    """(setter, expression) for every numeric expression, outermost first"""
    out = []
    def e(get, put, x, site):
        if site and is_prim(getattr(x, "t", None)): out.append((put, x))
        if isinstance(x, Lambda):
            for s in x.fn.body: st(s)
            return
        for n in slots(x):
            v = getattr(x, n, None)
            if isinstance(v, E):
                # lvalues must stay lvalues
                ok = not (n == "a" and isinstance(x, (Assign, Inc, AddrOf))) and not (n == "o")
                e(None, (lambda q, x=x, n=n: setattr(x, n, q)), v, ok)
            elif isinstance(v, list):
                for k, y in enumerate(v):
                    if isinstance(y, E): e(None, (lambda q, v=v, k=k: v.__setitem__(k, q)), y, True)
    def st(s):
        for n, v in list(vars(s).items()):
            if isinstance(v, E): e(None, (lambda q, s=s, n=n: setattr(s, n, q)), v, True)
    for l in stmt_lists(P):
        for s in l: st(s)
    return out

def zero_lit(t):
    if t == 'bool': return Lit('bool', 0, "false")
    if t == 'char': return Lit('char', 97, "'a'")
    if t in ('short', 'int'): return Lit('int', 1, "1")
    if t == 'long': return Lit('long', 1, "1l")
    if t == 'float': return Lit('float', 1.0, "1.0f")
    return Lit('double', 1.0, "1.0")

def apply(P, edits):
    """returns False when an edit does not apply"""
    for ed in edits:
        k = ed[0]
        if k == "D":
            pos = 0; n = 0
            for l in stmt_lists(P):
                i = 0
                keep = []
                for s in l:
                    if ed[1] <= pos < ed[1] + ed[2] and not isinstance(s, langgen.GRet) : n += 1
                    else: keep.append(s)
                    pos += 1
                l[:] = keep
            if not n: return False
        else:
            sites = expr_sites(P)
            if ed[1] >= len(sites): return False
            put, x = sites[ed[1]]
            if k == "Z":
                if isinstance(x, Lit): return False
                put(zero_lit(x.t))
            else:
                ch = [getattr(x, n, None) for n in slots(x)]
                ch = [c for c in ch if isinstance(c, E) and is_prim(getattr(c, "t", None))]
                if ed[2] >= len(ch) or ch[ed[2]].t != x.t: return False
                put(ch[ed[2]])
    # globals whose declaration was removed are gone
    P.gvars = [v for v in P.gvars if any(getattr(s, "v", None) is v for s in P.top)]
    return True

def count_stmts(P): return sum(len(l) for l in stmt_lists(P))

def edits(P):
    """candidate edits, largest first"""
    n = count_stmts(P)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k): yield ["D", i, k]
        k //= 2
    m = len(expr_sites(P))
    for j in range(m):
        yield ["Z", j]
        for c in (0, 1, 2): yield ["H", j, c]
