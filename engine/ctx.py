"""Simplify values under a path condition: branches of conditionals that the path rules out are dropped."""
import z3
from val import *
import val

def table(e):
    n = 0
    while z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)): e = e.arg(2); n += 1
    return n >= 4
_hi = {}
def has_ite(e):
    if not z3.is_expr(e): return False
    i = tid(e)
    r = _hi.get(i)
    if r is None:
        r = e.decl().kind() == z3.Z3_OP_ITE and not (e.sort() == IntS and table(e)) or any(has_ite(c) for c in e.children())
        _hi[i] = r
    return r

class Ctx:
    def __init__(s, pc, limit=200):
        s.s = z3.Solver(); s.s.set('timeout', 300)
        for x in pc:
            if z3.is_expr(x): s.s.add(x)
        s.ctx = (); s.memo = {}; s.left = limit
    def decide(s, c):
        if not z3.is_expr(c): return c
        key = ('?', c.get_id(), s.ctx)
        if key in s.memo: return s.memo[key][0]
        r = None
        if s.left > 0:
            s.left -= 1
            s.s.push(); s.s.add(c)
            if s.s.check() == z3.unsat: r = False
            s.s.pop()
            if r is None:
                s.s.push(); s.s.add(z3.Not(c))
                if s.s.check() == z3.unsat: r = True
                s.s.pop()
        s.memo[key] = (r, c)
        return r
    def under(s, c, f):
        old = s.ctx
        s.ctx = old + (c.get_id(),); s.s.push(); s.s.add(c)
        try: return f()
        finally: s.s.pop(); s.ctx = old
    def ite(s, c, a, b, f, mk):
        d = s.decide(c)
        if d is True: return f(a)
        if d is False: return f(b)
        x = s.under(c, lambda: f(a)); y = s.under(z3.Not(c), lambda: f(b))
        if x is y or same(x, y): return x
        return mk(c, x, y)
    def t(s, e):
        if not z3.is_expr(e) or s.left <= 0 or len(s.ctx) > 4 or not has_ite(e): return e
        key = (e.get_id(), s.ctx)
        if key in s.memo: return s.memo[key][0]
        if e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if e.sort() == IntS: r = s.ite(c, simp_i(a), simp_i(b), s.t, iite)
            elif z3.is_bool(e): r = s.ite(c, a, b, s.t, biteb)
            else: r = s.ite(c, a, b, s.t, dite)
        elif z3.is_bool(e) and e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): r = e
        else:
            ch = e.children(); sub = []
            for c in ch:
                n = s.t(c)
                if n is not c: sub.append((c, zi(n) if c.sort() == IntS else zb(n) if z3.is_bool(c) else n))
            r = z3.substitute(e, *sub) if sub else e
            if sub and e.sort() == IntS: r = lcomb([(1, simp_i(r))])
            elif sub and r.decl().name()[:2] == "d.": r = renorm(r)
        s.memo[key] = (r, e)
        return r
    def v(s, x):
        if isinstance(x, (int, bool)) or x is None: return x
        if z3.is_expr(x): return s.t(x)
        if isinstance(x, Obj):
            d = {}; ch = False
            for o, (k, v) in x.over.items():
                if k in ('zero', 'und', 'view'): d[o] = (k, v); continue
                n = s.v(v); d[o] = (k, n); ch = ch or n is not v
            return mkobj(d, x.base) if ch else x
        if isinstance(x, SUpd):
            b = s.v(x.s); e = s.v(x.e)
            return x if b is x.s and e is x.e else supd(b, x.i, e)
        if isinstance(x, SIte): return s.ite(x.c, x.a, x.b, s.v, site)
        if isinstance(x, SUnit):
            e = s.v(x.e); return x if e is x.e else sunit(e)
        if isinstance(x, SCat):
            ps = [s.v(p) for p in x.ps]
            return x if all(a is b for a, b in zip(ps, x.ps)) else scat(ps)
        if isinstance(x, SSlice):
            b = s.v(x.s); lo = s.t(x.lo); n = s.t(x.n)
            return x if b is x.s and same(lo, x.lo) and same(n, x.n) else sslice(b, lo, n)
        if isinstance(x, SFn):
            n = s.t(x.n)
            return x if same(n, x.n) else sfn(n, x.k, x.body)
        if isinstance(x, PIte): return s.ite(x.c, x.a, x.b, s.v, pite)
        return x

    def rel(s, x, b):
        """simplify x; a part that equals the corresponding part of b is returned as in b"""
        if x is b: return x
        if isinstance(x, Obj) and isinstance(b, Obj):
            d = {}; ch = False
            for o, (k, v) in x.over.items():
                if k in ('zero', 'und', 'view'): d[o] = (k, v); continue
                e = b.over.get(o)
                n = s.rel(v, e[1]) if e is not None and e[0] == k else s.v(v)
                d[o] = (k, n); ch = ch or n is not v
            return mkobj(d, x.base) if ch else x
        if isinstance(x, SUpd):
            y = s.rel(x.s, b); e = s.rel(x.e, b.at(x.i) if isinstance(b, Seq) else None)
            return x if y is x.s and e is x.e else supd(y, x.i, e)
        if isinstance(x, SCat) and isinstance(b, Seq):
            # pieces that were there before stay as they were
            px, pb = list(x.pieces()), list(b.pieces()) if b is not EMPTY else []
            n = 0
            while n < len(px) and n < len(pb) and px[n] is pb[n]: n += 1
            if n:
                rest = [s.v(p) for p in px[n:]]
                return x if all(p is q for p, q in zip(rest, px[n:])) else scat(px[:n] + rest)
        n = s.v(x)
        if b is not None and b is not x and type(n) == type(b) and not isinstance(b, (int, bool)):
            if n is b or same(n, s.v(b)): return b
        return n

def simplify_state(E, base):
    """E: state, base: memory it started from; only objects that changed are looked at"""
    c = None
    for r, o in list(E.mem.items()):
        if isinstance(o, Obj) and base.get(r) is not o:
            if c is None: c = Ctx(E.pc)
            b = base.get(r)
            E.mem[r] = c.rel(o, b) if isinstance(b, Obj) else c.v(o)
