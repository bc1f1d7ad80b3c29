"""Value domain of the verifier: z3 scalars, pointers, objects and immutable sequences.

Everything is hash-consed, so structural equality is object identity (ints/bools
may be plain Python constants).  Integers are mathematical integers holding the
canonical *signed* value of the machine integer.
"""
import math
import z3, sys
sys.setrecursionlimit(100000)

class Dead(Exception): pass
class ToolLimit(Exception):
    """The construct is outside the verifier's reach (never a violation)."""

IntS = z3.IntSort(); BoolS = z3.BoolSort(); RealS = z3.RealSort()
D = z3.DeclareSort('D')          # IEEE double (abstract)
Id = z3.DeclareSort('Id')        # identity of a (string / container) value
SORTS = {'i': IntS, 'b': BoolS, 'd': D, 'id': Id}

_keep = {}
def tid(e):
    """stable id of a z3 term / python scalar"""
    if isinstance(e, bool): return ('B', e)
    if isinstance(e, int): return ('I', e)
    if z3.is_expr(e):
        i = e.get_id()
        if i not in _keep: _keep[i] = e
        return i
    return ('o', id(e))

def is_c(x):
    return isinstance(x, (int, bool))

def zi(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    return z3.IntVal(x) if isinstance(x, int) else x
def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def simp_i(e):
    """z3 int -> python int if constant"""
    if isinstance(e, int): return int(e)
    if z3.is_int_value(e): return e.as_long()
    return e

# ---------------------------------------------------------------- integers
_lin = {}
def lin(e):
    """linear normal form: dict termid->(coef, term), const"""
    if isinstance(e, int): return {}, int(e)
    i = tid(e)
    r = _lin.get(i)
    if r is not None: return r
    d = {}; c = 0
    k = e.decl().kind()
    if z3.is_int_value(e):
        c = e.as_long()
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        for n, x in enumerate(e.children()):
            sgn = 1 if (k == z3.Z3_OP_ADD or n == 0) else -1
            dd, cc = lin(x)
            c += sgn * cc
            for kk, (co, t) in dd.items():
                o = d.get(kk, (0, t))[0] + sgn * co
                if o: d[kk] = (o, t)
                else: d.pop(kk, None)
    elif k == z3.Z3_OP_UMINUS:
        dd, cc = lin(e.children()[0]); c = -cc
        d = {kk: (-co, t) for kk, (co, t) in dd.items()}
    elif k == z3.Z3_OP_MUL and len(e.children()) == 2 and any(z3.is_int_value(x) for x in e.children()):
        a, b = e.children()
        if z3.is_int_value(b): a, b = b, a
        m = a.as_long()
        dd, cc = lin(b); c = m * cc
        if m: d = {kk: (m * co, t) for kk, (co, t) in dd.items()}
    else:
        d = {i: (1, e)}
    _lin[i] = (d, c)
    return d, c

def unlin(d, c):
    if not d: return c
    ts = []
    for kk in sorted(d, key=lambda x: x if isinstance(x, int) else 0):
        co, t = d[kk]
        ts.append(t if co == 1 else z3.IntVal(co) * t)
    if c: ts.append(z3.IntVal(c))
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    if len(ts) > 1: _lin[tid(r)] = (d, c)
    return r

def lcomb(pairs, c=0):
    d = {}
    for m, e in pairs:
        dd, cc = lin(e); c += m * cc
        for kk, (co, t) in dd.items():
            o = d.get(kk, (0, t))[0] + m * co
            if o: d[kk] = (o, t)
            else: d.pop(kk, None)
    return unlin(d, c)

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return lcomb([(1, a), (1, b)])
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return lcomb([(1, a), (-1, b)])
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int): return lcomb([(a, b)])
    if isinstance(b, int): return lcomb([(b, a)])
    return z3.simplify(a * b)
def ineg(a): return isub(0, a)

_rng = {}   # term id -> (lo, hi) known range of a term (registered by creators)
def set_range(e, lo, hi):
    if not is_c(e): _rng[tid(e)] = (lo, hi)
UF_RANGE = {}  # function name -> (lo, hi)
INF = None
def rng(e, depth=0):
    """cheap interval (lo, hi) with None = unbounded"""
    if isinstance(e, int): return (int(e), int(e))
    r = _rng.get(tid(e))
    if r: return r
    r = (None, None)
    k = e.decl().kind()
    if depth > 14: return r
    if k == z3.Z3_OP_UNINTERPRETED:
        r = UF_RANGE.get(e.decl().name(), r)
    elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_MUL or k == z3.Z3_OP_SUB:
        d, c = lin(e)
        if len(d) == 1 and list(d.values())[0][1].eq(e):
            if k == z3.Z3_OP_MUL: pass
        else:
            lo = hi = c
            for co, t in d.values():
                a, b = rng(t, depth + 1)
                if co < 0: a, b = b, a
                lo = None if (lo is None or a is None) else lo + co * a
                hi = None if (hi is None or b is None) else hi + co * b
            r = (lo, hi)
    elif k == z3.Z3_OP_ITE:
        a = rng(simp_i(e.arg(1)), depth + 1); b = rng(simp_i(e.arg(2)), depth + 1)
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    elif k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        r = (0, e.arg(1).as_long() - 1)
    elif k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
        n = e.arg(1).as_long(); a, b = rng(e.arg(0), depth + 1)
        if n > 0: r = (None if a is None else a // n, None if b is None else b // n)
    if r != (None, None): _rng[tid(e)] = r
    return r

# ---------------------------------------------------------------- booleans
T_, F_ = True, False
def bnot(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def band(*xs):
    out = []; seen = set()
    for x in xs:
        if x is True: continue
        if x is False: return False
        for y in (x.children() if z3.is_and(x) else [x]):
            i = tid(y)
            if i in seen: continue
            if tid(bnot(y)) in seen: return False
            seen.add(i); out.append(y)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(out)
def bor(*xs):
    out = []; seen = set()
    for x in xs:
        if x is False: continue
        if x is True: return True
        for y in (x.children() if z3.is_or(x) else [x]):
            i = tid(y)
            if i in seen: continue
            if tid(bnot(y)) in seen: return True
            seen.add(i); out.append(y)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(out)
def bimp(a, b): return bor(bnot(a), b)
def beq(a, b):
    if isinstance(a, bool): return b if a else bnot(b)
    if isinstance(b, bool): return a if b else bnot(a)
    if a.eq(b): return True
    return a == b
def biteb(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else bnot(c)
    if a is True: return bor(c, b)
    if a is False: return band(bnot(c), b)
    if b is True: return bor(bnot(c), a)
    if b is False: return band(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)

def const_tree(e):
    """a conditional whose leaves are all constants"""
    if isinstance(e, int): return True
    return z3.is_app_of(e, z3.Z3_OP_ITE) and const_tree(simp_i(e.arg(1))) and const_tree(simp_i(e.arg(2)))
def icmp_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = lcomb([(1, a), (-1, b)])
    if isinstance(d, int): return d == 0
    lo, hi = rng(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    # ite(c, 1, 0) == const
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and not isinstance(x, int) and z3.is_app_of(x, z3.Z3_OP_ITE):
            p, q = simp_i(x.arg(1)), simp_i(x.arg(2))
            if isinstance(p, int) and isinstance(q, int):
                if p == q: return p == y
                if p == y: return simp_b(x.arg(0))
                if q == y: return bnot(simp_b(x.arg(0)))
                return False
            if (isinstance(p, int) or isinstance(q, int)) and const_tree(p) and const_tree(q):
                return biteb(simp_b(x.arg(0)), icmp_eq(p, y), icmp_eq(q, y))
    return zi(a) == zi(b)
def simp_b(e):
    if isinstance(e, bool): return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def ile(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    d = lcomb([(1, b), (-1, a)])
    if isinstance(d, int): return d >= 0
    lo, hi = rng(d)
    if lo is not None and lo >= 0: return True
    if hi is not None and hi < 0: return False
    return zi(a) <= zi(b)
def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return bnot(ile(b, a))

def iite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
    elif tid(a) == tid(b): return a
    else:
        # (x == y ? x : y) is y
        neg = z3.is_not(c); q = c.arg(0) if neg else c
        if z3.is_eq(q) and q.arg(0).sort() == IntS:
            x, y = tid(simp_i(q.arg(0))), tid(simp_i(q.arg(1)))
            if {tid(a), tid(b)} == {x, y}: return a if neg else b
        # pull the common linear part out of the conditional
        da, ca = lin(zi(a)); db, cb = lin(zi(b))
        com = {k: x for k, x in da.items() if k in db and db[k][0] == x[0]}
        if com:
            ra = unlin({k: x for k, x in da.items() if k not in com}, ca)
            rb = unlin({k: x for k, x in db.items() if k not in com}, cb)
            return iadd(unlin(com, 0), iite(c, ra, rb))
    return z3.If(c, zi(a), zi(b))
def iite_raw(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, zi(a), zi(b))
WR = {}     # term id -> (v, m): the term is congruent to v modulo m
_red = {}
def reduce_mod(e, n, depth=0):
    """a simpler term congruent to e modulo n"""
    if isinstance(e, int): return e % n
    key = (tid(e), n)
    r = _red.get(key)
    if r is not None: return r[0]
    d, c = lin(e)
    ps = []
    for kk, (co, t) in d.items():
        co %= n
        if co == 0: continue
        g = n // math.gcd(co, n)
        # prefer small negative coefficients
        if co > n // 2 and n - co < co: co -= n
        ps.append((co, red_atom(t, g, depth)))
    r = lcomb(ps, c % n) if ps else c % n
    _red[key] = (r, e)
    return r
def red_atom(t, g, depth):
    if depth > 12: return t
    w = WR.get(tid(t))
    if w is not None and w[1] % g == 0: return reduce_mod(w[0], g, depth + 1)
    k = t.decl().kind()
    if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        if t.arg(1).as_long() % g == 0: return reduce_mod(simp_i(t.arg(0)), g, depth + 1)
    elif k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
        b = t.arg(1).as_long()
        if b > 0:
            y = simp_i(t.arg(0)); y2 = reduce_mod(y, b * g, depth + 1)
            if not same_i(y, y2): return idiv(y2, b)
    elif k == z3.Z3_OP_ITE:
        p, q = simp_i(t.arg(1)), simp_i(t.arg(2))
        p2, q2 = reduce_mod(p, g, depth + 1), reduce_mod(q, g, depth + 1)
        if isinstance(p2, int) and isinstance(q2, int):
            if p2 == q2: return p2
            return t
        return iite(t.arg(0), p2, q2)
    return t
def same_i(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return tid(a) == tid(b)

def idiv(a, n):
    """floor division by a positive python constant"""
    if isinstance(a, int): return a // n
    if n == 1: return a
    # (x mod A) div n with n | A
    if a.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(a.arg(1)):
        A = a.arg(1).as_long()
        if A % n == 0: return imod(idiv(simp_i(a.arg(0)), n), A // n) if A > n else 0
    # (x*n*m + c) div n
    d, c = lin(a)
    q = {}; r = {}
    for kk, (co, t) in d.items():
        if co % n == 0: q[kk] = (co // n, t)
        else: r[kk] = (co, t)
    rest = unlin(r, c % n)
    base = unlin(q, c // n)
    lo, hi = rng(rest)
    if lo is not None and hi is not None and lo // n == hi // n:
        return iadd(base, lo // n)
    return iadd(base, zi(rest) / z3.IntVal(n))
def imod(a, n):
    if isinstance(a, int): return a % n
    lo, hi = rng(a)
    if lo is not None and hi is not None and lo // n == hi // n:
        return isub(a, (lo // n) * n)
    a = reduce_mod(a, n)
    if isinstance(a, int): return a % n
    d, c = lin(a)
    r = {kk: (co % n, t) for kk, (co, t) in d.items() if co % n}
    # keep small negative coefficients as they are if the range says nothing is needed
    lo, hi = rng(a)
    if lo is not None and hi is not None and lo // n == hi // n:
        return isub(a, (lo // n) * n)
    rest = unlin(r, c % n)
    if isinstance(rest, int): return rest % n
    lo, hi = rng(rest)
    if lo is not None and hi is not None and lo // n == hi // n:
        return isub(rest, (lo // n) * n)
    return zi(rest) % z3.IntVal(n)

def wrap(v, bits, signed=True, fits=False):
    """canonical signed value of v modulo 2^bits"""
    if bits >= 64: return v if not isinstance(v, int) else ((int(v) + (1 << 63)) % (1 << 64)) - (1 << 63)
    m = 1 << bits; h = m >> 1
    if isinstance(v, int): return ((v + h) % m) - h
    lo, hi = rng(v)
    if lo is not None and hi is not None and lo >= -h and hi < h: return v
    u = imod(v, m) if not fits else v
    lo, hi = rng(u)
    if hi is not None and hi < h: return u
    r = iite_raw(ile(h, u), isub(u, m), u)
    if not isinstance(r, int): WR[tid(r)] = (u, m, r, fits); set_range(r, -h, h - 1)
    return r
def unsig(v, bits):
    """unsigned value of a canonical signed value"""
    if isinstance(v, int): return v % (1 << bits)
    lo, hi = rng(v)
    if lo is not None and lo >= 0: return v
    if bits >= 64: return v     # 64-bit unsigned values are treated as mathematical (documented)
    w = WR.get(tid(v))
    if w is not None and w[1] == 1 << bits:
        l2, h2 = rng(w[0])
        if l2 is not None and l2 >= 0 and h2 is not None and h2 < w[1] or len(w) > 3 and w[3]: return w[0]
    r = iite_raw(ilt(v, 0), iadd(v, 1 << bits), v)
    if not isinstance(r, int):
        WR[tid(r)] = (v, 1 << bits, r)
        set_range(r, 0, (1 << bits) - 1)
    return r

# ---------------------------------------------------------------- doubles
_dc = {}
def dconst(f):
    import struct
    b = struct.pack('>d', f).hex()
    if f != f: b = 'nan'
    if b not in _dc:
        c = z3.Const('D!' + b, D)
        _dc[b] = c; DVAL[c.get_id()] = f; _keep[c.get_id()] = c
    return _dc[b]
DVAL = {}
def dval(x): return DVAL.get(x.get_id())
f_nan = z3.Function('d.nan', D, BoolS)
f_ord = z3.Function('d.ord', D, RealS)
f_add = z3.Function('d.add', D, D, D)
f_mul = z3.Function('d.mul', D, D, D)
f_div = z3.Function('d.div', D, D, D)
f_neg = z3.Function('d.neg', D, D)
f_i2d = z3.Function('d.i2d', IntS, D)
f_d2i = z3.Function('d.d2i', D, IntS)
f_floor = z3.Function('d.floor', D, D)
def disi2d(x): return x.decl().name() == 'd.i2d'
def as_int(x):
    """python int / z3 int n if x is known to be the double of integer n"""
    v = dval(x)
    if v is not None:
        if v == v and abs(v) < 2**53 and v == int(v) and not (v == 0 and str(v)[0] == '-'): return int(v)
        return None
    if disi2d(x): return simp_i(x.arg(0))
    return None
def i2d(n):
    if isinstance(n, int): return dconst(float(n))
    return f_i2d(n)
def d2i(x):
    v = dval(x)
    if v is not None and v == v and abs(v) < 2**62: return int(v)
    n = as_int(x)
    if n is not None: return n
    return f_d2i(x)
def dneg(x):
    v = dval(x)
    if v is not None: return dconst(-v)
    if x.decl().name() == 'd.neg': return x.arg(0)
    return f_neg(x)
def dkey(x):
    return x.sexpr()
def dadd(a, b):
    va, vb = dval(a), dval(b)
    if va is not None and vb is not None: return dconst(va + vb)
    na, nb = as_int(a), as_int(b)
    if na is not None and nb is not None:
        return i2d(iadd(na, nb))   # exact while |sum| < 2^53 (documented assumption)
    if dkey(a) > dkey(b): a, b = b, a
    return f_add(a, b)
def dsub(a, b): return dadd(a, dneg(b))
def dmul(a, b):
    va, vb = dval(a), dval(b)
    if va is not None and vb is not None: return dconst(va * vb)
    for x, y in ((va, b), (vb, a)):
        if x == -1.0: return dneg(y)
        if x == 1.0: return y
    if dkey(a) > dkey(b): a, b = b, a
    return f_mul(a, b)
def ddiv(a, b):
    va, vb = dval(a), dval(b)
    if va is not None and vb: return dconst(va / vb)
    if vb == 1.0: return a
    return f_div(a, b)
def dnan(x):
    v = dval(x)
    if v is not None: return v != v
    if disi2d(x): return False
    return f_nan(x)
import math
from fractions import Fraction
def dord(x):
    v = dval(x)
    if v is not None and v == v and not math.isinf(v):
        return z3.RealVal(str(Fraction(v)))
    if disi2d(x): return z3.ToReal(x.arg(0))
    return f_ord(x)
def diteq(a, b):  # same value bitwise
    if a.eq(b): return True
    va, vb = dval(a), dval(b)
    if va is not None and vb is not None: return False
    na, nb = as_int(a), as_int(b)
    if na is not None and nb is not None: return icmp_eq(na, nb)
    return a == b
def dcmp(op, a, b):
    """ordered comparison op in lt le eq (false on NaN)"""
    va, vb = dval(a), dval(b)
    if va is not None and vb is not None:
        return {'lt': va < vb, 'le': va <= vb, 'eq': va == vb}[op]
    na, nb = as_int(a), as_int(b)
    if na is not None and nb is not None:
        return {'lt': ilt, 'le': ile, 'eq': icmp_eq}[op](na, nb)
    if op == 'eq':
        if va is not None and va == va and va != 0: return a == b
        if vb is not None and vb == vb and vb != 0: return a == b
        if a.eq(b): return bnot(dnan(a))
        e = dord(a) == dord(b)
    elif op == 'lt':
        if a.eq(b): return False
        e = dord(a) < dord(b)
    else:
        if a.eq(b): return bnot(dnan(a))
        e = dord(a) <= dord(b)
    return band(bnot(dnan(a)), bnot(dnan(b)), e)

def dite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a.eq(b): return a
    na, nb = as_int(a), as_int(b)
    if na is not None and nb is not None: return i2d(iite(c, na, nb))
    return z3.If(c, a, b)

# ---------------------------------------------------------------- fresh symbols
class Amb:
    stack = []        # ambient index constants (loop counters, bound variables)
    n = 0
def uid():
    Amb.n += 1
    return Amb.n
def amb():
    return tuple(Amb.stack)
HV = ['']     # prefix of fresh symbols while the state at a loop head is made arbitrary
_fns = {}
def ufun(name, idx, sort):
    """application of the uninterpreted function `name` to the terms idx"""
    if not idx:
        k = (name, sort.name())
        if k not in _fns: _fns[k] = z3.Const(name, sort)
        return _fns[k]
    ss = tuple(x.sort() if z3.is_expr(x) else (BoolS if isinstance(x, bool) else IntS) for x in idx)
    k = (name, tuple(s.name() for s in ss), sort.name())
    if k not in _fns: _fns[k] = z3.Function(name, *ss, sort)
    return _fns[k](*[x if z3.is_expr(x) else (zb(x) if isinstance(x, bool) else zi(x)) for x in idx])
def fresh(name, sort, rngs=None, idx=None):
    nm = '%s!%d' % (name, uid())
    if rngs:
        nm += ':%s:%s' % rngs
        UF_RANGE[nm] = rngs
    return ufun(nm, amb() if idx is None else idx, sort)

# ---------------------------------------------------------------- substitution
class Subst:
    def __init__(self, pairs):
        self.pairs = [(k, (v if z3.is_expr(v) else zb(v) if isinstance(v, bool) else zi(v))) for k, v in pairs]
        self.m = {}
        self.nm = {}
        ns = [k.decl().name() if k.num_args() == 0 else '?' for k, v in self.pairs]
        self.names = frozenset(ns) if all(x[:2] in ('k!', 'b!') or x[:3] == 'sk!' for x in ns) else None
    def t(self, e):
        if isinstance(e, (int, bool)): return e
        if self.names is not None and not (self.names & fvars(e)): return e
        i = tid(e)
        r = self.m.get(i)
        if r is None:
            r = z3.substitute(e, *self.pairs)
            if r.eq(e): r = e
            else: r = renorm(r)
            self.m[i] = r
        return r
    def v(self, x):
        if x is None or isinstance(x, (int, bool, str)): return x
        if z3.is_expr(x): return self.t(x)
        if self.names is not None and not (self.names & vars_of(x, fvars)): return x
        r = self.nm.get(x.uid_)
        if r is None: r = self.nm[x.uid_] = x.subst(self)
        return r

_rn = {}
def renorm(e):
    """rebuild a term with the folding constructors"""
    i = tid(e)
    r = _rn.get(i)
    if r is not None: return r
    r = _renorm(e)
    _rn[i] = r
    return r
def _renorm(e):
    if not z3.is_app(e): return e
    k = e.decl().kind()
    ch = e.children()
    if not ch:
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return e
    c = [renorm(x) for x in ch]
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(('bit.xor', 'bit.or', 'bit.and')):
        return e.decl()(*[zi(x) for x in sorted(c, key=lambda t: (1, tid(t)) if z3.is_expr(t) else (0, t))])
    if k == z3.Z3_OP_ADD: return lcomb([(1, x) for x in c]) if e.sort() == IntS else e.decl()(*[zr(x) for x in c])
    if e.sort() == IntS:
        if k == z3.Z3_OP_SUB: return lcomb([(1 if n == 0 else -1, x) for n, x in enumerate(c)])
        if k == z3.Z3_OP_UMINUS: return ineg(c[0])
        if k == z3.Z3_OP_MUL and len(c) == 2: return imul(c[0], c[1])
        if k == z3.Z3_OP_ITE: return iite(c[0], c[1], c[2])
        if k == z3.Z3_OP_IDIV and isinstance(c[1], int) and c[1] > 0: return idiv(c[0], c[1])
        if k == z3.Z3_OP_MOD and isinstance(c[1], int) and c[1] > 0: return imod(c[0], c[1])
    if k == z3.Z3_OP_NOT: return bnot(c[0])
    if k == z3.Z3_OP_AND: return band(*c)
    if k == z3.Z3_OP_OR: return bor(*c)
    if k == z3.Z3_OP_ITE and e.sort() == BoolS: return biteb(*c)
    if k == z3.Z3_OP_ITE and e.sort() == D: return dite(*c)
    if k == z3.Z3_OP_ITE and e.sort() == Id: return c[1] if c[0] is True else c[2] if c[0] is False else z3.If(*c)
    if k == z3.Z3_OP_EQ:
        s = ch[0].sort()
        if s == IntS: return icmp_eq(c[0], c[1])
        if s == BoolS: return beq(c[0], c[1])
        if s == D: return diteq(c[0], c[1])
        if c[0].eq(c[1]): return True
        return c[0] == c[1]
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and ch[0].sort() == IntS:
        a, b = c
        return {z3.Z3_OP_LE: ile(a, b), z3.Z3_OP_GE: ile(b, a), z3.Z3_OP_LT: ilt(a, b), z3.Z3_OP_GT: ilt(b, a)}[k]
    nm = e.decl().name()
    if nm == 'd.i2d': return i2d(c[0])
    if nm == 'd.d2i': return d2i(c[0])
    if nm == 'd.add': return dadd(c[0], c[1])
    if nm == 'd.mul': return dmul(c[0], c[1])
    if nm == 'd.div': return ddiv(c[0], c[1])
    if nm == 'd.neg': return dneg(c[0])
    def up(x, o):
        if z3.is_expr(x): return x
        return zb(x) if isinstance(x, bool) else zi(x)
    if k == z3.Z3_OP_TO_REAL: return z3.ToReal(zi(c[0]))
    return e.decl()(*[up(x, o) for x, o in zip(c, ch)])
def zr(x):
    return z3.RealVal(x) if isinstance(x, int) else x

# ---------------------------------------------------------------- interning
_tab = {}
class Node:
    __slots__ = ('key', 'uid_', '_free')
def mk(cls, key, init):
    k = (cls.__name__, key)
    r = _tab.get(k)
    if r is None:
        r = cls.__new__(cls)
        r.uid_ = len(_tab) + 1
        r._free = None
        init(r)
        _tab[k] = r
    return r
def vid(v):
    if v is None: return 'N'
    if isinstance(v, Node): return ('n', v.uid_)
    if isinstance(v, str): return v
    if isinstance(v, tuple): return tuple(vid(x) for x in v)
    return tid(v)
def same(a, b):
    return vid(a) == vid(b)

_fv = {}
def fvars(e):
    """free 0-ary uninterpreted constants (ids) of a z3 term -- only bound-style ints"""
    if not z3.is_expr(e): return frozenset()
    i = tid(e)
    r = _fv.get(i)
    if r is None:
        if z3.is_app(e) and e.num_args() == 0:
            nm = e.decl().name() if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
            r = frozenset([nm]) if nm[:2] in ('k!', 'b!') or nm[:3] == 'sk!' else frozenset()
        else:
            r = frozenset()
            for c in e.children(): r |= fvars(c)
        _fv[i] = r
    return r
_uf = {}
def ufuns(e):
    """all uninterpreted function names occurring in e"""
    if not z3.is_expr(e): return frozenset()
    i = tid(e)
    r = _uf.get(i)
    if r is None:
        r = frozenset()
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = frozenset([e.decl().name()])
            for c in e.children(): r |= ufuns(c)
        _uf[i] = r
    return r
def vars_of(v, f):
    """union of f(term) over all z3 terms in a value"""
    if v is None or isinstance(v, (int, bool, str, bytes)): return frozenset()
    if z3.is_expr(v): return f(v)
    if isinstance(v, tuple):
        r = frozenset()
        for x in v: r |= vars_of(x, f)
        return r
    k = (v.uid_, f.__name__)
    r = _vo.get(k)
    if r is None:
        r = frozenset()
        for x in v.parts(): r |= vars_of(x, f)
        if isinstance(v, SSym): r |= frozenset([v.name]) if f is ufuns else frozenset()
        if isinstance(v, BLazy): r |= frozenset([v.name]) if f is ufuns else frozenset()
        if isinstance(v, SUnk): r |= frozenset([v.name]) if f is ufuns else frozenset()
        _vo[k] = r
    return r
_vo = {}

# ---------------------------------------------------------------- pointers
class Ptr(Node):
    """root + hops (off, idx, stride, n) + byte offset"""
    __slots__ = ('root', 'hops', 'off')
    def parts(s): return tuple(h[1] for h in s.hops)
    def subst(s, S):
        return mkptr(s.root, tuple((h[0], S.t(h[1]), h[2], h[3]) for h in s.hops), s.off)
    def __repr__(s):
        return '&%s%s+%s' % (s.root, ''.join('.%d[%s]' % (h[0], h[1]) for h in s.hops), s.off)
def mkptr(root, hops=(), off=0):
    key = (root, tuple((h[0], tid(h[1]), h[2], h[3]) for h in hops), off)
    def init(r): r.root = root; r.hops = hops; r.off = off
    return mk(Ptr, key, init)
NULL = mkptr(None)
def heap_ptr(ref):
    if isinstance(ref, int) and ref == 0: return NULL
    return mkptr('HEAP', ((0, ref, None, None),), 0)
class PIte(Node):
    __slots__ = ('c', 'a', 'b')
    def parts(s): return (s.c, s.a, s.b)
    def subst(s, S): return pite(S.t(s.c), S.v(s.a), S.v(s.b))
    def __repr__(s): return 'PIte(%s,%r,%r)' % (s.c, s.a, s.b)
def pite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.off == b.off and len(a.hops) == len(b.hops) and a.root is not None \
       and all(x[0] == y[0] and x[2] == y[2] for x, y in zip(a.hops, b.hops)):
        hs = tuple((x[0], iite(c, x[1], y[1]), x[2], x[3] if x[3] is not None else y[3]) for x, y in zip(a.hops, b.hops))
        return mkptr(a.root, hs, a.off)
    ra, rb = heap_ref(a), heap_ref(b)
    if ra is not None and rb is not None:
        return heap_ptr(iite(c, ra, rb))
    def init(r): r.c = c; r.a = a; r.b = b
    return mk(PIte, (tid(c), a.uid_, b.uid_), init)
def heap_ref(p):
    """the Int reference of a pointer to a symbolic heap object (or null)"""
    if isinstance(p, Ptr):
        if p.root is None: return 0
        if p.root == 'HEAP' and len(p.hops) == 1 and p.off == 0: return p.hops[0][1]
    return None
def pcases(p, c=True):
    if isinstance(p, PIte):
        return pcases(p.a, band(c, p.c)) + pcases(p.b, band(c, bnot(p.c)))
    return [(c, p)]
ROOTREF = {}
def root_ref(root):
    if root not in ROOTREF: ROOTREF[root] = z3.Const('root!%d' % (len(ROOTREF) + 1), IntS)
    return ROOTREF[root]
def peq(p, q):
    """pointer equality"""
    if p is q: return True
    if isinstance(p, PIte): return biteb(p.c, peq(p.a, q), peq(p.b, q))
    if isinstance(q, PIte): return biteb(q.c, peq(p, q.a), peq(p, q.b))
    if not isinstance(p, Ptr) or not isinstance(q, Ptr): raise ToolLimit('pointer comparison')
    rp, rq = heap_ref(p), heap_ref(q)
    if rp is not None and rq is not None: return icmp_eq(rp, rq)
    if p.root != q.root or p.root is None or q.root is None:
        for a, b in ((p, q), (q, p)):
            if a.root == 'HEAP' and len(a.hops) == 1 and a.off == 0 and b.root is not None and b.root[0] in ('h', 'l', 'g') and not b.hops and b.off == 0:
                # a pointer found in the initial state never equals a freshly allocated object
                if b.root[0] == 'l' and not b.root[2]: return icmp_eq(a.hops[0][1], root_ref(b.root))
                return False
        return False
    if len(p.hops) != len(q.hops):
        # begin of array vs element 0
        return False
    c = True
    for x, y in zip(p.hops, q.hops):
        if x[0] != y[0]: return False
        c = band(c, icmp_eq(x[1], y[1]))
    return band(c, p.off == q.off)

# ---------------------------------------------------------------- objects
class BLazy(Node):
    """unknown initial contents: leaves are uninterpreted functions of idx"""
    __slots__ = ('name', 'idx', 'ty')
    def parts(s): return s.idx
    def subst(s, S): return blazy(s.name, tuple(S.t(x) for x in s.idx), s.ty)
    def __repr__(s): return '<%s%s>' % (s.name, list(s.idx))
def blazy(name, idx, ty=None):
    def init(r): r.name = name; r.idx = tuple(idx); r.ty = ty
    return mk(BLazy, (name, tuple(tid(x) for x in idx), ty), init)
class BIte(Node):
    __slots__ = ('c', 'a', 'b')
    def parts(s): return (s.c, s.a, s.b)
    def subst(s, S): return obj_ite(S.t(s.c), S.v(s.a), S.v(s.b)).base_of()
class BZero(Node):
    __slots__ = ()
    def parts(s): return ()
    def subst(s, S): return s
BZ = mk(BZero, (), lambda r: None)

class Zero:  # zero range marker
    pass

KSIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'd': 8, 'f': 4, 'p': 8, 'sc': 8}
def ksize(k):
    if k[:2] == 'so': return 8
    return KSIZE[k]
def krange(k):
    if k[0] == 'i' and k != 'i64':
        n = int(k[1:])
        if n == 1: return (0, 1)
        return (-(1 << n - 1), (1 << n - 1) - 1)
    return None
LEAF_HOOK = [None]     # called on creation of lazies: (kind, name, idx, val)

FIELDS = {}            # name of an unknown object -> the fields of it that were read
def lazy_leaf(name, idx, off, kind):
    FIELDS.setdefault(name, set()).add((off, kind))
    nm = '%s@%d:%s' % (name, off, kind)
    if kind == 'd': return ufun(nm, idx, D)
    if kind == 'i64': return ufun(nm, idx, IntS)
    if kind[0] == 'i':
        UF_RANGE[nm] = krange(kind)
        return ufun(nm, idx, IntS)
    if kind == 'p':
        UF_RANGE[nm] = (0, None)
        return heap_ptr(ufun(nm, idx, IntS))
    if kind == 'sc': return ssym(nm, idx, 'c')
    if kind[:2] == 'so': return ssym(nm, idx, kind)
    raise ToolLimit('lazy leaf of kind ' + kind)
def zero_leaf(kind):
    if kind == 'd' or kind == 'f': return dconst(0.0)
    if kind[0] == 'i': return 0
    if kind == 'p': return NULL
    if kind == 'sc' : return EMPTY
    if kind[:2] == 'so': return EMPTY
    raise ToolLimit('zero of ' + kind)

class Obj(Node):
    """object contents: leaves by offset over a base; zero ranges"""
    __slots__ = ('over', 'base')
    # over: dict off -> (kind, val)
    def parts(s): return tuple(v for k, v in s.over.values()) + ((s.base,) if s.base is not None else ())
    def subst(s, S):
        return mkobj({o: (k, S.v(v)) for o, (k, v) in s.over.items()}, S.v(s.base) if s.base is not None else None)
    def base_of(s):
        return s if s.over or s.base is None else s.base
    def __repr__(s): return 'Obj{%s|%r}' % (', '.join('%d:%r' % (o, v) for o, (k, v) in s.over.items()), s.base)
    def read(s, off, kind):
        e = s.over.get(off)
        if e is not None:
            k, v = e
            if k == kind: return v
            if k == 'zero': return zero_leaf(kind)
            if {k, kind} == {'i1', 'i8'}: return v
            if k == 'und': return und_leaf(kind)
            if k == 'view' and v.n >= ksize(kind): return v.ob.read(v.d, kind)
            if v is UNDEF: return UNDEF
            if kind == 'i8' and k == 'sc': return v.at(0)
            if k[:2] == 'so' and kind in ('d', 'i64', 'i32', 'p', 'i8'):
                return v.at(0).read(0, kind)
            if k[:2] == 'so' and kind[:2] == 'so' : return v
            if k[0] == 'i' and kind[0] == 'i' and k != kind and isinstance(v, int):
                if int(kind[1:]) < int(k[1:]): return wrap(v, int(kind[1:]))
            return s.packed(off, kind)
        if s.over:
            for o, (k, v) in s.over.items():
                if k in ('zero', 'und'):
                    if o <= off < o + v: return zero_leaf(kind) if k == 'zero' else und_leaf(kind)
                elif k == 'view':
                    n, ob, d = v.n, v.ob, v.d
                    if o <= off < o + n: return ob.read(off - o + d, kind)
                elif k == 'sc' and kind == 'i8' and isinstance(v, SLit) and o <= off < o + len(v.b):
                    return v.at(off - o)
                elif k[:2] == 'so' and o < off and k != 'so' and kind[0] in 'idp' and (off - o) % int(k[2:] or 1) == 0 and s.base is None and not isinstance(v, (SSym,)):
                    return v.at((off - o) // int(k[2:])).read(0, kind)
        if s.base is None:
            return UNDEF
        if any(o < off + ksize(kind) and off < o + esize(k, v) for o, (k, v) in s.over.items() if k not in ('zero', 'und', 'view')):
            return s.packed(off, kind)
        b = s.base
        return base_read(b, off, kind)
    def packed(s, off, kind):
        if kind[0] == 'i':
            n = int(kind[1:]) // 8
            return mkpacked(s, off, n)
        raise ToolLimit('mixed-type access at offset %d kind %s over %s' % (off, kind, s.over.get(off)))
    def write(s, off, kind, val):
        if isinstance(val, Packed):
            return s.copy_range(off, val.ob, val.off, val.n)
        d = dict(s.over)
        sz = ksize(kind)
        clear(d, off, sz)
        d[off] = (kind, val)
        return mkobj(d, s.base)
    def copy_range(s, off, src, soff, n):
        d = dict(s.over)
        clear(d, off, n)
        # copy explicit leaves and view the rest
        exp = {}
        for o, (k, v) in src.over.items():
            if k in ('zero', 'und'):
                a, b = max(o, soff), min(o + v, soff + n)
                if a < b: exp[a - soff + off] = (k, b - a)
            elif k == 'view':
                a, b = max(o, soff), min(o + v.n, soff + n)
                if a < b: exp[a - soff + off] = ('view', mkview(v.ob, v.d + (a - o), b - a))
            elif soff <= o < soff + n:
                exp[o - soff + off] = (k, v)
        if src.base is not None:
            # gaps of the range are views on the base
            segs = sorted((o, o + esize(k, v)) for o, (k, v) in exp.items())
            pos = off
            bo = mkobj({}, src.base)
            for a, b in segs + [(off + n, off + n)]:
                if a > pos: exp[pos] = ('view', mkview(bo, pos - off + soff, a - pos))
                pos = max(pos, b)
        d.update(exp)
        return mkobj(d, s.base)
    def fill(s, off, n, what):
        d = dict(s.over); clear(d, off, n)
        d[off] = (what, n)
        return mkobj(d, s.base)

def esize(k, v):
    if k in ('zero', 'und'): return v
    if k == 'view': return v.n
    return ksize(k)
def clear(d, off, sz):
    for o in list(d):
        k, v = d[o]
        e = esize(k, v)
        if o < off + sz and off < o + e:
            del d[o]
            if k in ('zero', 'und'):
                if o < off: d[o] = (k, off - o)
                if o + e > off + sz: d[off + sz] = (k, o + e - off - sz)
            elif k == 'view':
                if o < off: d[o] = ('view', mkview(v.ob, v.d, off - o))
                if o + e > off + sz: d[off + sz] = ('view', mkview(v.ob, v.d + (off + sz - o), o + e - off - sz))

class View(Node):
    __slots__ = ('ob', 'd', 'n')
    def parts(s): return (s.ob,)
    def subst(s, S): return mkview(S.v(s.ob), s.d, s.n)
def mkview(ob, d, n):
    def init(r): r.ob = ob; r.d = d; r.n = n
    return mk(View, (ob.uid_, d, n), init)
class Packed(Node):
    __slots__ = ('ob', 'off', 'n')
    def parts(s): return (s.ob,)
    def subst(s, S): return mkpacked(S.v(s.ob), s.off, s.n)
def mkpacked(ob, off, n):
    def init(r): r.ob = ob; r.off = off; r.n = n
    return mk(Packed, (ob.uid_, off, n), init)
class Undef(Node):
    __slots__ = ()
    def parts(s): return ()
    def subst(s, S): return s
    def __repr__(s): return 'undef'
UNDEF = mk(Undef, (), lambda r: None)
def und_leaf(kind): return UNDEF

def mkobj(over, base):
    key = (tuple(sorted((o, k, vid(v)) for o, (k, v) in over.items())), base.uid_ if base is not None else 0)
    def init(r): r.over = over; r.base = base
    return mk(Obj, key, init)
def lazy_obj(name, idx, ty=None): return mkobj({}, blazy(name, idx, ty))
def scalar_obj(kind, v): return mkobj({0: (kind, v)}, None)
ONONE = mkobj({}, None)

def base_read(b, off, kind):
    if isinstance(b, Obj): return b.read(off, kind)
    if isinstance(b, BLazy): return lazy_leaf(b.name, b.idx, off, kind)
    if isinstance(b, BIte): return vite(b.c, b.a.read(off, kind), b.b.read(off, kind))
    if isinstance(b, BZero): return zero_leaf(kind)
    if isinstance(b, BUnk): return lazy_leaf(b.name, b.idx, off, kind)
    raise ToolLimit('base')
class BUnk(BLazy):
    __slots__ = ()

def obj_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a.base is b.base:
        d = {}
        ok = True
        for o in set(a.over) | set(b.over):
            ea, eb = a.over.get(o), b.over.get(o)
            k = (ea or eb)[0]
            if ea is not None and eb is not None and same(ea[1], eb[1]) and ea[0] == eb[0]:
                d[o] = ea; continue
            if k in ('zero', 'und', 'view') or (ea and eb and ea[0] != eb[0]):
                ok = False; break
            try:
                va = a.read(o, k); vb = b.read(o, k)
                d[o] = (k, vite(c, va, vb))
            except ToolLimit:
                ok = False; break
        if ok:
            return mkobj(d, a.base)
    def init(r): r.c = c; r.a = a; r.b = b
    return mkobj({}, mk(BIte, (tid(c), a.uid_, b.uid_), init))

# ---------------------------------------------------------------- sequences
class Seq(Node):
    __slots__ = ('_len',)
    def len(s):
        raise NotImplementedError
    def pieces(s): return (s,)

def ssym(name, idx, ek):
    def init(r): r.name = name; r.idx = tuple(idx); r.ek = ek
    return mk(SSym, (name, tuple(tid(x) for x in idx), ek), init)
class SSym(Seq):
    """unknown sequence: element i is a function of (idx, i)"""
    __slots__ = ('name', 'idx', 'ek')
    def parts(s): return s.idx
    def subst(s, S): return ssym(s.name, tuple(S.t(x) for x in s.idx), s.ek)
    def len(s):
        nm = s.name + '#len'
        UF_RANGE[nm] = (0, None)
        return ufun(nm, s.idx, IntS)
    def at(s, i):
        if s.ek == 'c':
            nm = s.name + '[]'
            UF_RANGE[nm] = (-128, 127)
            return ufun(nm, s.idx + (i,), IntS)
        return lazy_obj(s.name + '[]', s.idx + (i,))
    def __repr__(s): return '%s%s' % (s.name, list(s.idx) if s.idx else '')

class SLit(Seq):
    __slots__ = ('b',)
    def parts(s): return ()
    def subst(s, S): return s
    def len(s): return len(s.b)
    def at(s, i):
        if isinstance(i, int):
            if 0 <= i < len(s.b):
                v = s.b[i]
                return v - 256 if v > 127 else v
            return 0
        # constant table lookup: uninterpreted with facts
        return lit_at(s, i)
    def __repr__(s): return repr(s.b)
def lit_at(s, i):
    """table lookup as nested ite, grouping arithmetic runs"""
    b = s.b
    runs = []
    j = 0
    n = len(b)
    while j < n:
        e = j
        while e + 1 < n and b[e + 1] == b[e] + 1: e += 1
        runs.append((j, e)); j = e + 1
    if len(runs) > 40: raise ToolLimit('large table')
    r = 0
    for a, e in reversed(runs):
        v = b[a] - 256 if b[a] > 127 else b[a]
        r = iite(ile(i, e), iadd(i, v - a), r)
    if not isinstance(r, int): set_range(r, -128, 127)
    return r
def slit(b):
    if isinstance(b, str): b = b.encode('latin1')
    def init(r): r.b = bytes(b)
    return mk(SLit, bytes(b), init)
EMPTY = slit(b'')

class SUnit(Seq):
    __slots__ = ('e',)
    def parts(s): return (s.e,)
    def subst(s, S): return sunit(S.v(s.e))
    def len(s): return 1
    def at(s, i): return s.e
    def __repr__(s): return '[%r]' % (s.e,)
def sunit(e):
    if isinstance(e, int): return slit(bytes([e % 256]))
    def init(r): r.e = e
    return mk(SUnit, vid(e), init)

class SCat(Seq):
    __slots__ = ('ps',)
    def parts(s): return s.ps
    def subst(s, S): return scat([S.v(p) for p in s.ps])
    def len(s):
        r = 0
        for p in s.ps: r = iadd(r, p.len())
        return r
    def pieces(s): return s.ps
    def at(s, i):
        # from the left
        pos = 0
        cases = []
        for n, p in enumerate(s.ps):
            l = p.len()
            e = iadd(pos, l)
            c = ilt(i, e)
            if c is True:
                r = p.at(isub(i, pos)); break
            if n == len(s.ps) - 1:
                r = p.at(isub(i, pos)); break
            if c is not False:
                cases.append((c, p.at(isub(i, pos))))
            pos = e
        for c, v in reversed(cases):
            r = vite(c, v, r)
        return r
    def __repr__(s): return '(' + ' ++ '.join(map(repr, s.ps)) + ')'
def scat(ps):
    out = []
    for p in ps:
        for q in p.pieces():
            if q is EMPTY: continue
            if isinstance(q, SSlice) and out and isinstance(out[-1], SSlice) and out[-1].s is q.s and isub(q.lo, iadd(out[-1].lo, out[-1].n)) == 0:
                m = out.pop()
                q = sslice(m.s, m.lo, iadd(m.n, q.n))
            if isinstance(q, SLit) and out and isinstance(out[-1], SLit):
                out[-1] = slit(out[-1].b + q.b)
            else:
                out.append(q)
    if not out: return EMPTY
    if len(out) == 1: return out[0]
    def init(r): r.ps = tuple(out)
    return mk(SCat, tuple(p.uid_ for p in out), init)

def bound_depth(v):
    """largest canonical bound index in v"""
    m = 0
    for nm in vars_of(v, fvars):
        if nm.startswith('b!'): m = max(m, int(nm[2:]))
    # bound variables are substituted, so also count inner binders
    return max(m, inner_depth(v))
_idp = {}
def inner_depth(v):
    if v is None or isinstance(v, (int, bool, str)) or z3.is_expr(v): return 0
    r = _idp.get(v.uid_)
    if r is None:
        r = 0
        for p in v.parts(): r = max(r, inner_depth(p))
        if isinstance(v, (SFlat, SFn)): r = max(r, int(v.k.decl().name()[2:]))
        _idp[v.uid_] = r
    return r
def canon_bound(k, body):
    d = max(bound_depth(Subst([(k, 0)]).v(body)) if body is not None else 0, 0) + 1
    nk = z3.Const('b!%d' % d, IntS)
    if not nk.eq(k): body = Subst([(k, nk)]).v(body)
    return nk, body

class SFlat(Seq):
    """concatenation of body(k) for k in 0..n-1"""
    __slots__ = ('n', 'k', 'body')
    def parts(s): return (s.n, s.body)
    def subst(s, S):
        return sflat(S.t(s.n), s.k, S.v(s.body))
    def len(s):
        w = s.body.len()
        if s.k.decl().name() not in fvars(zi(w)):
            return imul_nn(s.n, w)
        r = sum_term(s.n, s.k, w)
        return r
    def elem_at(s, j): return Subst([(s.k, j)]).v(s.body)
    def at(s, i):
        w = s.body.len()
        if isinstance(w, int) and w >= 1:
            return s.elem_at(idiv(i, w)).at(imod(i, w))
        lo, hi = rng(w)
        if lo is None or lo < 0: raise ToolLimit('index into a concatenation of variable-width pieces')
        # the piece that holds position i: sel(i), with sum of widths before it <= i < sum of widths up to it
        Lk = sum_term(s.k, s.k, w)
        if not z3.is_app(Lk) or not Lk.decl().name().startswith('sum!'): raise ToolLimit('index into a concatenation of variable-width pieces')
        sel = sel_term(Lk, s.n, i)
        if hi is not None and hi <= 1:
            r = Subst([(s.k, sel), (Lk, i)]).v(s.body); return first(r)
        r = Subst([(s.k, sel)]).v(s.body)
        return r.at(isub(i, Subst([(s.k, sel)]).t(Lk)))
    def __repr__(s): return 'Flat(%s<%s: %r)' % (s.k, s.n, s.body)
def first(s):
    """the only element of a sequence of at most one element"""
    if isinstance(s, SIte):
        if s.a is EMPTY: return first(s.b)
        if s.b is EMPTY: return first(s.a)
        return vite(s.c, first(s.a), first(s.b))
    return s.at(0)
SELS = {}
def sel_term(Lk, n, i):
    nm = Lk.decl().name(); args = tuple(simp_i(x) for x in Lk.children()[:-1]); sn = 'SEL!' + nm[4:]
    if sn not in SELS:
        SELS[sn] = nm
        ps = tuple(z3.Const('q!%d' % j, IntS) for j in range(len(args))); qn, qi, j = z3.Const('q!n', IntS), z3.Const('q!i', IntS), z3.Const('q!j', IntS)
        L = lambda x: ufun(nm, ps + (x,), IntS)
        t = ufun(sn, ps + (qn, qi), IntS)
        import smt
        smt.add_fact(sn, ps + (qn, qi), z3.Implies(z3.And(qi >= 0, qi < L(qn)), z3.And(t >= 0, t < qn, L(t) <= qi, qi < L(t + 1))), 2)
        smt.add_lemma(sn, ps + (qn, qi), j, band(ile(0, j), ilt(j, qn), ile(L(j), qi), ilt(qi, L(iadd(j, 1)))), t == j)
    return ufun(sn, args + (n, i), IntS)
def imul_nn(a, b): return imul(a, b)
_probe = z3.Const('probe!k', IntS)
def mentions(x, k):
    S = Subst([(k, _probe)])
    return S.v(x) is not x if isinstance(x, Node) else not same(S.t(x), x)
def sflat(n, k, body):
    if body is EMPTY: return EMPTY
    if isinstance(n, int) and n <= 0: return EMPTY
    if isinstance(n, int) and n <= 8:
        return scat([Subst([(k, j)]).v(body) for j in range(n)])
    nk, nb = canon_bound(k, body)
    # Flat(n, k: [s.at(k)]) over all of s  ==> s
    if isinstance(nb, SUnit):
        r = eta(n, nk, nb.e)
        if r is not None: return r
    r = flat_of_selection(n, nk, nb)
    if r is not None: return r
    # adjacent slices of one sequence: s[c + m k : c + m k + m] for k < n is s[c : c + m n]
    if isinstance(nb, SSlice) and isinstance(nb.n, int) and z3.is_expr(nk) and ile(0, n) is True and not mentions(nb.s, nk):
        c = isub(nb.lo, imul(nb.n, nk))
        if not mentions(c, nk): return sslice(nb.s, c, imul(nb.n, n))
    def init(r): r.n = n; r.k = nk; r.body = nb
    return mk(SFlat, (tid(n), tid(nk), nb.uid_), init)
def flat_of_selection(n, k, body):
    """concatenation over the elements kept by an earlier filter: one pass over the unfiltered range"""
    if not any(x[:4] == 'SEL!' for x in vars_of(body, ufuns)): return None
    w, rest = n, 0
    if not (z3.is_app(n) and n.decl().name()[:4] == 'sum!'):
        d, c = lin(n)
        ts = [x for x in d.items()]
        if len(ts) != 1 or not 1 <= c <= 4: return None
        w = isub(n, c); rest = c
        if not (z3.is_app(w) and w.decl().name()[:4] == 'sum!'): return None
    nm = w.decl().name(); args = tuple(simp_i(x) for x in w.children())
    sel = ufun('SEL!' + nm[4:], args[:-1] + (args[-1], k), IntS)
    _, canon, nk, ww = SUMNAME[nm][:4]
    lo, hi = rng(ww)
    if lo is None or lo < 0 or hi is None or hi > 1: return None
    if rest:
        if rng(w)[0] is None or rng(w)[0] < 0: return None
        tail = scat([Subst([(k, iadd(w, j))]).v(body) for j in range(rest)])
        return scat([sflat(w, k, Subst([(zb(ile(w, k)), False), (zb(ilt(k, w)), True)]).v(body)), tail])
    j = z3.Const('j!sel', IntS)
    nb = Subst([(sel, j)]).v(body)
    if mentions(nb, k): return None
    width = Subst(list(zip(canon, args[:-1])) + [(nk, j)]).t(ww)
    return sflat(args[-1], j, site(icmp_eq(width, 1), nb, EMPTY))

def eta(n, k, e):
    """[e(k) | k<n] where e(k) = s.at(k): return s (prefix)"""
    s = None
    if z3.is_expr(e) and z3.is_app(e) and e.num_args() > 0 and e.decl().name().endswith('[]') and e.arg(e.num_args() - 1).eq(k):
        nm = e.decl().name()[:-2]
        idx = tuple(simp_i(e.arg(j)) for j in range(e.num_args() - 1))
        s = ssym(nm, idx, 'c')
    elif isinstance(e, Obj) and not e.over and isinstance(e.base, BLazy) and e.base.name.endswith('[]') and e.base.idx and not is_c(e.base.idx[-1]) and e.base.idx[-1].eq(k):
        s = None
        nm = e.base.name[:-2]
        for ek in EKS.get(nm, ()):
            s = ssym(nm, e.base.idx[:-1], ek)
    if s is not None and k.decl().name() not in vars_of(s, fvars):
        l = s.len()
        if icmp_eq(l, n) is True: return s
    return None
EKS = {}
_oss = ssym
def ssym(name, idx, ek):   # noqa: record element kinds
    EKS.setdefault(name, set()).add(ek)
    return _oss(name, idx, ek)

class SFn(Seq):
    """sequence of length n whose element k is body(k)"""
    __slots__ = ('n', 'k', 'body')
    def parts(s): return (s.n, s.body)
    def subst(s, S): return sfn(S.t(s.n), s.k, S.v(s.body))
    def len(s): return s.n
    def at(s, i): return Subst([(s.k, i)]).v(s.body)
    def __repr__(s): return 'Fn(%s<%s: %r)' % (s.k, s.n, s.body)
def sfn(n, k, body):
    if isinstance(n, int) and n == 0: return EMPTY
    nk, nb = canon_bound(k, body)
    r = eta(n, nk, nb)
    if r is not None: return r
    def init(r): r.n = n; r.k = nk; r.body = nb
    return mk(SFn, (tid(n), tid(nk), vid(nb)), init)

class SIte(Seq):
    __slots__ = ('c', 'a', 'b')
    def parts(s): return (s.c, s.a, s.b)
    def subst(s, S): return site(S.t(s.c), S.v(s.a), S.v(s.b))
    def len(s): return iite(s.c, s.a.len(), s.b.len())
    def at(s, i):
        # an index into the empty side is out of range there (a separate obligation)
        if s.a is EMPTY: return s.b.at(i)
        if s.b is EMPTY: return s.a.at(i)
        return vite(s.c, s.a.at(i), s.b.at(i))
    def __repr__(s): return 'Ite(%s ? %r : %r)' % (s.c, s.a, s.b)
def site(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if z3.is_expr(c) and z3.is_not(c): return site(simp_b(c.arg(0)), b, a)
    # factor common prefix
    pa, pb = list(a.pieces()), list(b.pieces())
    pre = []
    while pa and pb and pa[0] is pb[0]:
        pre.append(pa.pop(0)); pb.pop(0)
    if not pa and not pb: return scat(pre)
    if pa and pb and isinstance(pa[0], SLit) and isinstance(pb[0], SLit):
        x, y = pa[0].b, pb[0].b
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]: n += 1
        if n:
            pre.append(slit(x[:n])); pa[0] = slit(x[n:]); pb[0] = slit(y[n:])
    suf = []
    while pa and pb and pa[-1] is pb[-1]:
        suf.insert(0, pa.pop()); pb.pop()
    A, B = scat(pa), scat(pb)
    if A is B: m = A
    elif isinstance(A, SUpd) and (A.s is B or (isinstance(B, SUpd) and B.s is A.s and icmp_eq(A.i, B.i) is True)):
        m = supd(A.s, A.i, vite(c, A.e, B.e if isinstance(B, SUpd) else B.at(A.i)))
    elif isinstance(B, SUpd) and B.s is A:
        m = supd(A, B.i, vite(c, A.at(B.i), B.e))
    elif isinstance(A, SUnit) and isinstance(B, SUnit) and isinstance(A.e, Obj) and isinstance(B.e, Obj):
        m = sunit(obj_ite(c, A.e, B.e))
    elif isinstance(A, (SUnit, SLit)) and isinstance(B, (SUnit, SLit)) and A.len() == 1 and B.len() == 1 and not isinstance(A.at(0), Obj) and not isinstance(B.at(0), Obj):
        m = sunit(iite(c, A.at(0), B.at(0)))
    else:
        def init(r): r.c = c; r.a = A; r.b = B
        m = mk(SIte, (tid(c), A.uid_, B.uid_), init)
    return scat(pre + [m] + suf)

class SUpd(Seq):
    __slots__ = ('s', 'i', 'e')
    def parts(s): return (s.s, s.i, s.e)
    def subst(s, S): return supd(S.v(s.s), S.t(s.i), S.v(s.e))
    def len(s): return s.s.len()
    def at(s, i):
        c = icmp_eq(i, s.i)
        if c is True: return s.e
        if c is False: return s.s.at(i)
        return vite(c, s.e, s.s.at(i))
    def __repr__(s): return 'Upd(%r, %s, %r)' % (s.s, s.i, s.e)
def supd(s, i, e):
    if isinstance(s, SUpd):
        if icmp_eq(s.i, i) is True: s = s.s
    if same(s.at(i), e): return s
    if isinstance(s, SUnit) and i == 0: return sunit(e)
    if isinstance(s, SLit) and isinstance(i, int) and 0 <= i < len(s.b):
        return scat([slit(s.b[:i]), sunit(e), slit(s.b[i + 1:])])
    if isinstance(s, SCat) and isinstance(i, int):
        pos = 0; ps = list(s.ps)
        for n, p in enumerate(ps):
            l = p.len()
            if not isinstance(l, int): break
            if i < pos + l:
                ps[n] = supd(p, i - pos, e)
                return scat(ps)
            pos += l
    if isinstance(s, SCat):
        # update in the last unit piece(s)
        tot = s.len(); ps = list(s.ps)
        pos = tot
        for n in range(len(ps) - 1, -1, -1):
            l = ps[n].len()
            if not isinstance(l, int): break
            pos = isub(pos, l)
            d = isub(i, pos)
            if isinstance(d, int) and 0 <= d < l:
                ps[n] = supd(ps[n], d, e)
                return scat(ps)
    def init(r): r.s = s; r.i = i; r.e = e
    return mk(SUpd, (s.uid_, tid(i), vid(e)), init)

class SSlice(Seq):
    __slots__ = ('s', 'lo', 'n')
    def parts(s): return (s.s, s.lo, s.n)
    def subst(s, S): return sslice(S.v(s.s), S.t(s.lo), S.t(s.n))
    def len(s): return s.n
    def at(s, i): return s.s.at(iadd(s.lo, i))
    def __repr__(s): return '%r[%s:+%s]' % (s.s, s.lo, s.n)
def sslice(s, lo, n):
    """s[lo : lo+n]; the caller guarantees 0<=lo, 0<=n, lo+n<=len"""
    if isinstance(n, int) and n == 0: return EMPTY
    if isinstance(lo, int) and lo == 0 and icmp_eq(n, s.len()) is True: return s
    if isinstance(s, SLit) and isinstance(lo, int) and isinstance(n, int): return slit(s.b[lo:lo + n])
    if isinstance(s, SSlice): return sslice(s.s, iadd(s.lo, lo), n)
    if isinstance(s, SIte): pass
    if isinstance(s, SCat):
        # drop whole pieces at both ends when lengths are syntactically decidable
        ps = list(s.ps)
        while ps:
            d = isub(lo, ps[0].len())
            if (isinstance(d, int) and d >= 0) or ile(0, d) is True:
                lo = d; ps.pop(0)
            else: break
        tot = 0
        for p in ps: tot = iadd(tot, p.len())
        while ps:
            # end = lo+n <= tot - len(last) ?
            d = isub(isub(tot, ps[-1].len()), iadd(lo, n))
            if (isinstance(d, int) and d >= 0) or ile(0, d) is True:
                tot = isub(tot, ps[-1].len()); ps.pop()
            else: break
        r = scat(ps)
        if not isinstance(r, SCat) or len(ps) < len(s.ps): return sslice(r, lo, n)
        # slices spanning literal edges
        if isinstance(lo, int) and lo > 0 and isinstance(ps[0], SLit) and lo < len(ps[0].b):
            return sslice(scat([slit(ps[0].b[lo:])] + ps[1:]), 0, n)
        d = isub(iadd(lo, n), tot)
        if isinstance(d, int) and d == 0 and ile(lo, ps[0].len()) is True:
            l0 = ps[0].len()
            return scat([sslice(ps[0], lo, isub(l0, lo))] + ps[1:])
        if lo == 0:
            # prefix ending inside the last piece
            before = isub(tot, ps[-1].len())
            rest = isub(n, before)
            if ile(0, rest) is True:
                return scat(ps[:-1] + [sslice(ps[-1], 0, rest)])
        s = r
    if isinstance(s, SFn):
        if isinstance(lo, int) and lo == 0: return sfn(n, s.k, s.body)
    def init(r): r.s = s; r.lo = lo; r.n = n
    return mk(SSlice, (s.uid_, tid(lo), tid(n)), init)

class SUnk(Seq):
    """loop-carried sequence not yet summarised (only during loop analysis)"""
    __slots__ = ('name', 'idx', 'ek')
    def parts(s): return s.idx
    def subst(s, S): return sunk(s.name, tuple(S.t(x) for x in s.idx), s.ek)
    def len(s):
        g = UNKLEN.get(s.name)
        if g is not None: return iadd(g[0], imul(g[1], s.idx[-1]))
        return ufun(s.name + '#len', s.idx, IntS)
    def at(s, i):
        if s.ek == 'c': return ufun(s.name + '[]', s.idx + (i,), IntS)
        return lazy_obj(s.name + '[]', s.idx + (i,))
    def __repr__(s): return '?%s' % s.name
UNKLEN = {}   # guessed lengths (only during loop analysis; the summary found is checked)
def sunk(name, idx, ek):
    def init(r): r.name = name; r.idx = idx; r.ek = ek
    UF_RANGE[name + '#len'] = (0, None)
    if ek == 'c': UF_RANGE[name + '[]'] = (-128, 127)
    return mk(SUnk, (name, tuple(tid(x) for x in idx), ek), init)

# recursively defined sums (lengths of variable-width concatenations, accumulators)
SUMS = {}
def sum_term(n, k, w):
    """sum of w(k) for k<n as an interned recursive function of n and the free indices"""
    nk = z3.Const('b!0', IntS)
    ww = Subst([(k, nk)]).t(zi(w))
    w0 = ww; args, canon = [], []
    for x in occ_order(zi(ww)):
        if x != 'b!0':
            args.append(z3.Const(x, IntS)); canon.append(z3.Const('q!%d' % len(canon), IntS))
    if args: ww = Subst(list(zip(args, canon))).t(zi(ww))
    key = tid(zi(ww))
    if key not in SUMS:
        SUMS[key] = same_sum(w0, args) or ('sum!%d' % len(SUMS), canon, nk, ww)
        if len(SUMS[key]) == 4:
            SUMNAME[SUMS[key][0]] = SUMS[key]
            SUMORIG[SUMS[key][0]] = (w0, args)
            lo, hi = rng(ww)
            if lo is not None and lo >= 0: UF_RANGE[SUMS[key][0]] = (0, None)
    nm = SUMS[key][0]
    if len(SUMS[key]) == 5: args = [args[i] for i in SUMS[key][4]]
    return ufun(nm, tuple(args) + (n,), IntS)
SUMORIG = {}
def same_sum(w, args):
    """an existing sum whose terms are provably equal to w"""
    if not z3.is_expr(w): return None
    fs = set(ufuns(w)); names = {a.decl().name() for a in args}
    for nm, (w2, args2) in list(SUMORIG.items())[-60:]:
        if not z3.is_expr(w2) or {a.decl().name() for a in args2} != names or set(ufuns(w2)) != fs: continue
        sv = z3.Solver(); sv.set('timeout', 300); sv.add(w != w2)
        if sv.check() == z3.unsat:
            pos = {a.decl().name(): i for i, a in enumerate(args)}
            return SUMNAME[nm] + ([pos[a.decl().name()] for a in args2],)
    return None
SUMNAME = {}
def occ_order(e):
    """names of the free index constants in order of first occurrence"""
    acc, seen, st = [], set(), [e]
    while st:
        e = st.pop()
        if not z3.is_expr(e) or tid(e) in seen or not fvars(e): continue
        seen.add(tid(e))
        if e.num_args() == 0:
            nm = e.decl().name()
            if nm not in acc: acc.append(nm)
        st.extend(reversed(e.children()))
    return acc

# ---------------------------------------------------------------- generic ite
def vite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is UNDEF: return b       # reading an uninitialised value is unconstrained
    if b is UNDEF: return a
    if isinstance(a, Seq) and isinstance(b, Seq): return site(c, a, b)
    if isinstance(a, Obj) and isinstance(b, Obj): return obj_ite(c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)): return pite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg): return agg([vite(c, x, y) for x, y in zip(a.vs, b.vs)])
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and a.sort() == BoolS):
        if isinstance(a, bool) and isinstance(b, int) and not isinstance(b, bool): a = int(a)
        elif isinstance(b, bool) and isinstance(a, int) and not isinstance(a, bool): b = int(b)
        elif z3.is_expr(b) and b.sort() == IntS or z3.is_expr(a) and a.sort() == IntS:
            a = int(a) if isinstance(a, bool) else a; b = int(b) if isinstance(b, bool) else b
            return iite(c, a, b)
        else: return biteb(c, a, b)
    if isinstance(a, int) or isinstance(b, int) or (z3.is_expr(a) and a.sort() == IntS):
        if isinstance(a, Node) or isinstance(b, Node): raise ToolLimit('merge of integer and non-integer')
        return iite(c, a, b)
    if z3.is_expr(a) and a.sort() == D: return dite(c, a, b)
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, Packed) and isinstance(b, Packed) and a.n == b.n and a.off == b.off:
        return mkpacked(obj_ite(c, a.ob, b.ob), a.off, a.n)
    raise ToolLimit('merge of %s and %s' % (type(a).__name__, type(b).__name__))

class Agg(Node):
    """first-class LLVM aggregate"""
    __slots__ = ('vs',)
    def parts(s): return s.vs
    def subst(s, S): return agg([S.v(v) for v in s.vs])
def agg(vs):
    vs = tuple(vs)
    def init(r): r.vs = vs
    return mk(Agg, tuple(vid(v) for v in vs), init)
