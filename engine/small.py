"""Confirm a failed obligation: a model in which every loop count, length and recursion depth is small and
every definition is fully unfolded is a genuine counterexample to the obligation (nothing in it depends on an
uninstantiated fact)."""
import z3, time
from val import *
from intr import idof
import val, smt
from smt import QFACTS, FACTS, ID_SEQ, Query

class Incomplete(Exception): pass

def seqat(s, i, B):
    if isinstance(s, SCat):
        pos = 0; cases = []
        for p in s.ps:
            l = p.len(); cases.append((ilt(i, iadd(pos, l)), p, pos)); pos = iadd(pos, l)
        r = None
        for c, p, q in reversed(cases):
            v = seqat(p, isub(i, q), B)
            if r is None or c is True: r = v
            elif c is False: continue
            else: r = vite(c, v, r)
        return r
    if isinstance(s, SIte) and s.a is EMPTY: return seqat(s.b, i, B)
    if isinstance(s, SIte) and s.b is EMPTY: return seqat(s.a, i, B)
    if isinstance(s, SIte): return vite(s.c, seqat(s.a, i, B), seqat(s.b, i, B))
    if isinstance(s, SFlat) and not isinstance(s.body.len(), int):
        pos = 0; cases = []
        for j in range(B + 1):
            p = s.elem_at(j); l = p.len(); cases.append((ilt(i, iadd(pos, l)), p, pos)); pos = iadd(pos, l)
        r = None
        for c, p, q in reversed(cases):
            v = seqat(p, isub(i, q), B)
            r = v if r is None else vite(c, v, r) if not isinstance(c, bool) else (v if c else r)
        return r
    return s.at(i)

def differ(x, y, B, extra, depth=0):
    """formula: the two values differ"""
    if depth > 4: raise Incomplete('nesting')
    if x is y: return False
    if isinstance(x, Seq) and isinstance(y, Seq):
        lx, ly = x.len(), y.len()
        r = [bnot(icmp_eq(lx, ly))]
        i = z3.Const('sm!%d' % uid(), IntS)
        d = differ(seqat(x, i, B), seqat(y, i, B), B, extra, depth + 1)
        r.append(band(ile(0, i), ilt(i, lx), icmp_eq(lx, ly), d))
        for s in (x, y): flat_bounds(s, B, extra)
        return bor(*r)
    if isinstance(x, Obj) and isinstance(y, Obj):
        offs = {}
        for o in (x, y):
            for k, (kind, v) in o.over.items():
                if kind in ('zero', 'und', 'view'): raise Incomplete('object shape')
                offs[k] = kind
        if x.base is not y.base and x.base is not None and y.base is not None:
            if not (isinstance(x.base, BLazy) and isinstance(y.base, BLazy)): raise Incomplete('object base')
        rs = []
        for k, kind in offs.items():
            a, b = x.read(k, kind), y.read(k, kind)
            if a is UNDEF or b is UNDEF: raise Incomplete('undefined')
            rs.append(differ(a, b, B, extra, depth + 1))
        return bor(*rs)
    if isinstance(x, (Ptr, PIte)) and isinstance(y, (Ptr, PIte)): return bnot(peq(x, y))
    if isinstance(x, (Seq, Obj, Node)) or isinstance(y, (Seq, Obj, Node)): raise Incomplete('values')
    if z3.is_expr(x) and x.sort() == D or z3.is_expr(y) and y.sort() == D: return bnot(diteq(x, y))
    if isinstance(x, bool) or isinstance(y, bool) or z3.is_bool(x) if z3.is_expr(x) else isinstance(x, bool): return bnot(beq(x, y))
    return bnot(icmp_eq(x, y))

def fields_of(ids):
    """element kind -> offset -> field kind, over the sequences identified"""
    r = {}
    for e in ids:
        for sq in leaves(smt.seq_of(e)):
            if not isinstance(sq, SSym) or sq.ek == 'c': continue
            d = r.setdefault(sq.ek, {})
            for off, kind in val.FIELDS.get(sq.name + '[]', ()):
                if d.setdefault(off, kind) != kind: raise Incomplete('element shape')
    return r
def leaves(s):
    if isinstance(s, Seq):
        yield s
        for p in s.parts():
            if isinstance(p, Seq): yield from leaves(p)

def equal(x, y, B, fields):
    """formula: the two elements are equal"""
    if x is y: return True
    if isinstance(x, Seq) and isinstance(y, Seq): return simp_b(idof(x) == idof(y))
    if isinstance(x, Obj) and isinstance(y, Obj):
        offs = dict(fields)
        for o in (x, y):
            for k, (kind, v) in o.over.items():
                if kind in ('zero', 'und', 'view'): raise Incomplete('object shape')
                if offs.setdefault(k, kind) != kind: raise Incomplete('object shape')
        if not offs: raise Incomplete('object shape')
        rs = []
        for k, kind in offs.items():
            a, b = x.read(k, kind), y.read(k, kind)
            if a is UNDEF or b is UNDEF: raise Incomplete('undefined')
            rs.append(equal(a, b, B, fields))
        return band(*rs)
    if isinstance(x, (Seq, Obj)) or isinstance(y, (Seq, Obj)): raise Incomplete('values')
    return bnot(differ(x, y, B, None))

def flat_bounds(s, B, extra):
    if isinstance(s, SFlat): extra.append(ile(s.n, B))
    for p in s.parts():
        if isinstance(p, Seq): flat_bounds(p, B, extra)

OPAQUE = ('d.div', 'd.floor', 'arith.', 'bit.', 'undefc!', 'W!', 'clen!', 'str.lt', 'hash.')

class Small(Query):
    def __init__(s, forms, B):
        s.B = B; s.sumdone = set(); s.lens = set()
        Query.__init__(s, forms, 1, 40000)
    def run(s):
        B = s.B; top = B + 3
        done = set(); dpos = 0; ids = {}; pairs = set()
        end = s.end = time.time() + 25
        while True:
            n0 = len(s.forms)
            if time.time() > end or n0 > 30000: raise Incomplete('too large')
            work, s.work = s.work, []
            for e, g in work:
                nm = e.decl().name()
                if nm.startswith(OPAQUE): raise Incomplete(nm)
                rg = UF_RANGE.get(nm)
                if rg:
                    if rg[0] is not None: s.add(e >= rg[0], 0)
                    if rg[1] is not None: s.add(e <= rg[1], 0)
                if nm.endswith('#len') : s.add(e <= B, 0)
                if nm.startswith('K!'): s.add(e <= top, 0)
                if e.sort() == Id:
                    if smt.seq_of(e) is None: raise Incomplete('identity ' + nm)
                    ids[tid(e)] = e
                sm = SUMNAME.get(nm)
                if sm: s.unfold(nm, e, lambda args, c: s.sumdef(nm, sm, args, c), top)
                elif nm in FACTS:
                    if not nm.startswith('fold!'):
                        for params, f, gl in FACTS[nm]:
                            if gl < 3 and not nm.startswith('SEL!'): raise Incomplete(nm)
                            s.add(Subst(list(zip(params, e.children()))).t(zb(f)) if params else f, 0)
                    else:
                        s.unfold(nm, e, lambda args, c: s.folddef(nm, args, c), top)
                        for params, f, gl in FACTS[nm][1:]: s.add(Subst(list(zip(params, e.children()))).t(zb(f)), 0)
                    if nm.startswith('fold!'):
                        for params, f, gl in FACTS[nm][1:]: s.add(Subst(list(zip(params, e.children()))).t(zb(f)), 0)
            for q in list(QFACTS):
                if q.params: insts = [tuple(e.children()) for e, g in s.apps.get(q.owner, ())]
                elif q.owner and q.owner not in s.apps: continue
                else: insts = [()]
                for ps in insts:
                    key = (q.id, tuple(tid(x) for x in ps))
                    if key in done: continue
                    done.add(key)
                    hi = s.upper(q)
                    if hi is None: raise Incomplete('range of ' + str(q.owner))
                    S = list(zip(q.params, ps))
                    h = Subst(S).t(zi(hi)) if S else hi
                    s.add(zi(h) <= top + 1, 0)
                    for j in range(0, top + 1):
                        T = Subst(S + [(q.j, j)])
                        s.add(bimp(T.t(q.guard), T.t(q.body)), 0)
            while dpos < len(s.dterms):
                x, g = s.dterms[dpos]; dpos += 1
                s.dfacts(x, 0); s.dsmall(x)
            if not s.work: s.identities(ids, pairs)
            if len(s.forms) == n0 and not s.work: break
        ts = [x for x, g in s.dterms if dval(x) is None]
        if len(ts) > 80: raise Incomplete('too many doubles')
        for a in range(len(ts)):
            for b in range(a):
                s.forms.append(z3.Implies(z3.And(z3.Not(f_nan(ts[a])), z3.Not(f_nan(ts[b])), f_ord(ts[a]) == f_ord(ts[b])), ts[a] == ts[b]))
        if s.dterms: s.forms.append(smt.PINF > smt.BIG)
    def identities(s, ids, pairs):
        """equal identities exactly for equal sequences"""
        il = list(ids.values()); B = s.B
        if len(il) > 160: raise Incomplete('too many identities')
        if len(il) < 2: return
        fields = fields_of(il); shape = tuple(sorted((k, tuple(sorted(v.items()))) for k, v in fields.items()))
        for a in range(len(il)):
            for b in range(a):
                key = (tid(il[a]), tid(il[b]), shape)
                if key in pairs: continue
                pairs.add(key)
                if len(pairs) > 14000 or time.time() > s.end: raise Incomplete('too many identities')
                x, y = smt.seq_of(il[a]), smt.seq_of(il[b])
                kx, ky = ({q.ek for q in leaves(z) if isinstance(q, SSym)} | {'c' for q in leaves(z) if isinstance(q, SLit)} for z in (x, y))
                if kx and ky and not kx & ky: continue
                ek = next(iter(kx | ky), 'c')
                if ek != 'c' and not fields.get(ek) and isinstance(x, SSym) and isinstance(y, SSym):
                    # nothing looks inside: any two that are not empty can be told apart or not
                    s.add(zb(bimp(il[a] == il[b], icmp_eq(x.len(), y.len()))), 0)
                    s.add(zb(bimp(band(icmp_eq(x.len(), 0), icmp_eq(y.len(), 0)), il[a] == il[b])), 0)
                    continue
                cap = max([B if isinstance(z, SSym) else len(z.b) if isinstance(z, SLit) else B + 8 for z in (x, y)])
                eqs = [icmp_eq(x.len(), y.len())]
                for j in range(cap):
                    if isinstance(x, SLit) and j >= len(x.b) or isinstance(y, SLit) and j >= len(y.b): break
                    eqs.append(bor(ile(x.len(), j), equal(seqat(x, j, B), seqat(y, j, B), B, fields.get(ek, {}))))
                s.add(zb(beq(il[a] == il[b], band(*eqs))), 0)
                for z in (x, y):
                    if not isinstance(z, (SSym, SLit)): s.add(zb(ile(z.len(), B + 8)), 0)
    def upper(s, q):
        """hi such that the guard contains j < hi"""
        j = q.j
        def go(g):
            if not z3.is_expr(g): return None
            if z3.is_and(g):
                for c in g.children():
                    r = go(c)
                    if r is not None: return r
            if z3.is_not(g):
                a = g.arg(0)
                if z3.is_le(a):
                    d = lcomb([(1, simp_i(a.arg(0))), (-1, simp_i(a.arg(1)))])   # d <= 0 means hi <= j
                    dd, c = lin(zi(d)) if not isinstance(d, int) else ({}, d)
                    co = dd.get(tid(j))
                    if co and co[0] == -1: return unlin({k: v for k, v in dd.items() if k != tid(j)}, c)
            return None
        g = q.guard
        r = go(g) if z3.is_expr(g) else None
        if r is None: return None
        return r if not (z3.is_expr(r) and j.decl().name() in fvars(r)) else None
    def unfold(s, nm, e, mk, top):
        args = e.children(); n = args[-1]
        c = n.as_long() if z3.is_int_value(n) else None
        if c is None: s.add(n <= top, 0)
        elif c > top + 4: raise Incomplete('unfolding to %d' % c)
        key = (nm, tuple(tid(a) for a in args[:-1]))
        for c in range(0, max(top, c or 0) + 1):
            if (key, c) not in s.sumdone: s.sumdone.add((key, c)); s.add(mk(args[:-1], c), 0)
        s.add(bimp(n <= 0, mk(args[:-1], n)), 0) if not z3.is_int_value(n) else None
    def sumdef(s, nm, sm, args, c):
        _, params, k, w = sm
        if not isinstance(c, int): return ufun(nm, tuple(args) + (c,), IntS) == 0
        if c == 0: return zi(ufun(nm, tuple(args) + (0,), IntS)) == 0
        wv = Subst(list(zip(params, args)) + [(k, c - 1)]).t(zi(w))
        return zi(ufun(nm, tuple(args) + (c,), IntS)) == zi(ufun(nm, tuple(args) + (c - 1,), IntS)) + zi(wv)
    def folddef(s, nm, args, c):
        (params, f, gl) = FACTS[nm][0]
        cs = list(args) + [z3.IntVal(c) if isinstance(c, int) else c]
        if not isinstance(c, int):
            x = args[-1]
            return ufun(nm, tuple(cs), x.sort()) == x
        return Subst(list(zip(params, cs))).t(zb(f))
    def dsmall(s, x):
        if dval(x) is not None: return
        nm = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
        s.add(z3.Or(f_nan(x), z3.And(z3.IsInt(f_ord(x)), f_ord(x) <= 1000, f_ord(x) >= -1000)), 0)
        def fin(y):
            s.add(z3.Not(f_nan(y)), 0)
            v = dval(y)
            if v is not None:
                if v != v or v in (float('inf'), float('-inf')): raise Incomplete('arithmetic on infinities')
                s.add(f_ord(y) == z3.RealVal(str(val.Fraction(v))), 0)
        if nm in ('d.add', 'd.mul'):
            a, b = x.arg(0), x.arg(1); fin(a); fin(b)
            if nm == 'd.mul': s.add(z3.And(f_ord(a) != 0, f_ord(b) != 0), 0)
            s.add(z3.And(z3.Not(f_nan(x)), f_ord(x) == (f_ord(a) + f_ord(b) if nm == 'd.add' else f_ord(a) * f_ord(b))), 0)
        if nm == 'd.neg': s.add(f_ord(x.arg(0)) != 0, 0)
        if z3.is_app_of(x, z3.Z3_OP_ITE): pass

def confirm(o, budget=20):
    """-> model text if the obligation has a genuine small counterexample, else None"""
    end = time.time() + budget
    for B in (1, 2, 4, 10):
        if time.time() > end: return None
        try:
            extra = []
            g = o.goal
            if isinstance(g, tuple): neg = differ(g[1], g[2], B, extra)
            else: neg = bnot(g) if not isinstance(g, bool) else (not g)
            if neg is False: return None
            forms = [f for f in list(o.pc) + [neg] if f is not True]
            if any(f is False for f in forms): return None
            if any(nm.startswith('seqid!') for f in forms if z3.is_expr(f) for nm in ufuns(f)): raise Incomplete('identity of a composed sequence')
            q = Small(forms, B)
            for f in extra: q.add(f, 0)
            q.run()
            for f in extra: q.add(f, 0)
        except (Incomplete, ToolLimit) as e:
            confirm.why = str(e)
            return None
        sv = z3.Solver(); sv.set('timeout', max(1000, int(min(8, end - time.time()) * 1000)))
        for f in q.forms: sv.add(f)
        r = sv.check()
        confirm.why = 'size %d: %s' % (B, r)
        if r == z3.sat: return str(sv.model())[:3000]
    return None
confirm.why = ''
