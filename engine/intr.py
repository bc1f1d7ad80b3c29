"""Intrinsics: semantics of the container / string / synchronisation primitives that the
verification build of the standard library (vstl/) is written in, plus the specification
primitives used by the contracts in specs/."""
import re, z3
from val import *
import val, smt, ir
from smt import add_fact, QFact
from exec import *
import exec as E_

I = {}
def intr(f):
    I[f.__name__] = f
    return f

def cint(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return int(v)
    raise ToolLimit('constant expected')

def skind(stride): return 'sc' if stride == 1 else 'so%d' % stride

def rd(ex, st, p, kind):
    """sequence stored at handle p"""
    if isinstance(p, PIte):
        r = None
        for c, q in reversed(pcases(p)):
            if q.root is None:
                ex.oblige(st, bnot(c), 'pointer is not null'); continue
            s2 = st.copy()
            if not s2.assume(c): continue
            v = rd(ex, s2, q, kind)
            r = v if r is None else vite(c, v, r)
        if r is None: raise Dead()
        return r
    o = ex.get_obj(st, p)
    if ex.monitor: ex.monitor(ex, st, p, kind, False)
    if not isinstance(o, Obj): raise ToolLimit('handle inside a character')
    v = o.read(p.off, kind)
    if v is UNDEF: raise ToolLimit('use of an uninitialised container')
    return v
def wr(ex, st, p, kind, v):
    ex.store(st, p, kind, v)

def chars(ex, st, p, n):
    """the n characters at char pointer p"""
    if isinstance(p, PIte):
        r = None
        for c, q in reversed(pcases(p)):
            v = chars(ex, st, q, n)
            r = v if r is None else site(c, v, r)
        return r
    if isinstance(n, int) and n == 0: return EMPTY
    seq, i, lim = charseq(ex, st, p)
    if not same(i, 0) or not same(n, seq.len()):
        ex.oblige(st, band(ile(0, i), ile(0, n), ile(iadd(i, n), lim)), 'characters read are in bounds')
    return sslice(seq, i, n)
def charseq(ex, st, p):
    if not isinstance(p, Ptr): raise ToolLimit('character pointer %r' % (p,))
    if p.root is None: ex.oblige(st, False, 'pointer is not null')
    if p.hops and p.hops[-1][2] == 1 and p.off == 0:
        h = p.hops[-1]
        q = mkptr(p.root, p.hops[:-1], h[0])
        seq = rd(ex, st, q, 'sc')
        return seq, h[1], seq.len()
    # character array object (string literal, local buffer)
    o = ex.get_obj(st, p)
    for off, (k, v) in o.over.items():
        if k == 'sc' and off <= p.off and isinstance(v, SLit) and p.off - off <= len(v.b):
            return v, p.off - off, len(v.b)
        if k == 'zero' and isinstance(v, int) and off <= p.off < off + v <= off + 4096: return slit(b'\0' * v), p.off - off, v
    if o.over.get(p.off, ('',))[0] == 'i8' or (o.base is not None and not o.over):
        return sunit(o.read(p.off, 'i8')), 0, 1
    raise ToolLimit('character pointer into an object without characters')

_clen = {}
NONUL = set()      # names of sequences known to contain no NUL
def no_nul(seq):
    if isinstance(seq, SLit): return 0 not in seq.b
    if isinstance(seq, SSym): return seq.name in NONUL
    if isinstance(seq, SCat): return all(no_nul(p) for p in seq.ps)
    if isinstance(seq, SIte): return no_nul(seq.a) and no_nul(seq.b)
    if isinstance(seq, SSlice): return no_nul(seq.s)
    if isinstance(seq, SFlat): return no_nul(seq.body)
    if isinstance(seq, SUnit):
        lo, hi = rng(seq.e) if not isinstance(seq.e, Node) else (None, None)
        return (lo is not None and lo > 0) or (hi is not None and hi < 0)
    return False
def cstrlen(ex, st, p):
    if isinstance(p, PIte):
        r = None
        for c, q in reversed(pcases(p)):
            v = cstrlen(ex, st, q)
            r = v if r is None else iite(c, v, r)
        return r
    seq, i, lim = charseq(ex, st, p)
    if isinstance(seq, SLit) and isinstance(i, int):
        e = seq.b.find(b'\0', i)
        return (len(seq.b) if e < 0 else e) - i
    if no_nul(seq): return isub(lim, i)
    # first NUL: canonical function of the sequence
    key = seq.uid_
    if key not in _clen: _clen[key] = 'clen!%d' % len(_clen)
    fv = sorted(x for x in vars_of(seq, fvars) if not x.startswith('b!'))
    idx = tuple(z3.Const(x, IntS) for x in fv) + (i,)
    nm = _clen[key]
    UF_RANGE[nm] = (0, None)
    r = ufun(nm, idx, IntS)
    if isinstance(i, int):
        st.assume(ile(r, isub(lim, i)))
        if nm not in _clenfact:
            _clenfact.add(nm)
            j = z3.Const('b!800', IntS)
            if not fv: smt.add_lemma(nm, idx[:-1], j, band(ile(i, j), ilt(j, iadd(i, r))), bnot(icmp_eq(seq.at(j), 0)))
        v = seq.at(iadd(i, r))
        if not isinstance(v, Node): st.assume(bor(icmp_eq(iadd(i, r), lim), icmp_eq(v, 0)))
    return r
_clenfact = set()

# ---------------------------------------------------------------- identity of sequences
_ids = {}
def idof(seq):
    """Id term of a sequence value: equal sequences <=> equal ids"""
    if isinstance(seq, SSym):
        smt.ID_OF['#id.' + seq.name] = (seq.name, seq.ek)
        return ufun('#id.' + seq.name, seq.idx, Id)
    if isinstance(seq, SIte): return z3.If(seq.c, idof(seq.a), idof(seq.b))
    fv = [x for x in sorted(vars_of(seq, fvars)) if not x.startswith('b!')]
    cs = [z3.Const(x, IntS) for x in fv]
    ab = Subst([(c, z3.Const('q!%d' % n, IntS)) for n, c in enumerate(cs)]).v(seq) if cs else seq
    if ab.uid_ not in _ids: _ids[ab.uid_] = 'seqid!%d' % len(_ids)
    nm = _ids[ab.uid_]
    smt.ID_OF[nm] = (tuple(z3.Const('q!%d' % n, IntS) for n in range(len(cs))), ab)
    t = ufun(nm, tuple(cs), Id)
    smt.ID_SEQ[tid(t)] = seq
    return t
smt.IDNAME = {}
def remember(t, seq):
    smt.ID_SEQ[tid(t)] = seq

def eqf(a, b, depth=0):
    """formula: the two sequences are equal"""
    if a is b: return True
    if isinstance(a, SIte): return biteb(a.c, eqf(a.a, b, depth + 1), eqf(a.b, b, depth + 1))
    if isinstance(b, SIte): return biteb(b.c, eqf(a, b.a, depth + 1), eqf(a, b.b, depth + 1))
    pa, pb = list(a.pieces()), list(b.pieces())
    # strip identical ends
    while pa and pb:
        if pa[0] is pb[0]: pa.pop(0); pb.pop(0); continue
        if isinstance(pa[0], SLit) and isinstance(pb[0], SLit):
            x, y = pa[0].b, pb[0].b
            n = min(len(x), len(y))
            if x[:n] != y[:n]: return False
            pa[0:1] = [slit(x[n:])] if x[n:] else []
            pb[0:1] = [slit(y[n:])] if y[n:] else []
            continue
        break
    while pa and pb:
        if pa[-1] is pb[-1]: pa.pop(); pb.pop(); continue
        if isinstance(pa[-1], SLit) and isinstance(pb[-1], SLit):
            x, y = pa[-1].b, pb[-1].b
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]: return False
            pa[-1:] = [slit(x[:len(x) - n])] if x[:len(x) - n] else []
            pb[-1:] = [slit(y[:len(y) - n])] if y[:len(y) - n] else []
            continue
        break
    if not pa and not pb: return True
    A, B = scat(pa), scat(pb)
    if A is EMPTY: return icmp_eq(B.len(), 0)
    if B is EMPTY: return icmp_eq(A.len(), 0)
    if isinstance(B, SLit): A, B = B, A
    le = icmp_eq(A.len(), B.len())
    if le is False: return False
    if isinstance(A, SLit) and len(A.b) <= 64:
        try:
            return band(le, *[icmp_eq(B.at(i), A.at(i)) for i in range(len(A.b))])
        except ToolLimit: pass
    t1, t2 = idof(A), idof(B)
    remember(t1, A); remember(t2, B)
    return t1 == t2 if not t1.eq(t2) else True

def cmp3(a, b):
    """three-way comparison as an integer in {-1, 0, 1}"""
    e = eqf(a, b)
    if e is True: return 0
    lt = ufun('str.lt', (idof(a), idof(b)), BoolS)
    if isinstance(a, SLit) and isinstance(b, SLit): lt = a.b < b.b
    return iite(e, 0, iite(lt, -1, 1))

# ---------------------------------------------------------------- strings
@intr
def __v_str_init(ex, st, a, ins): wr(ex, st, a[0], 'sc', EMPTY)
@intr
def __v_str_copy(ex, st, a, ins): wr(ex, st, a[0], 'sc', rd(ex, st, a[1], 'sc'))
@intr
def __v_str_from(ex, st, a, ins): wr(ex, st, a[0], 'sc', chars(ex, st, a[1], a[2]))
@intr
def __v_str_fill(ex, st, a, ins):
    n, c = a[1], a[2]
    if isinstance(n, int): v = scat([sunit(c)] * n)
    else: v = sfn(n, z3.Const('k!u', IntS), c)
    wr(ex, st, a[0], 'sc', v)
@intr
def __v_str_len(ex, st, a, ins): return rd(ex, st, a[0], 'sc').len()
@intr
def __v_str_data(ex, st, a, ins):
    p = a[0]
    def f(p):
        if isinstance(p, PIte): return pite(p.c, f(p.a), f(p.b))
        if p.root is None: ex.oblige(st, False, 'pointer is not null')
        return mkptr(p.root, p.hops + ((p.off, 0, 1, None),), 0)
    return f(p)
@intr
def __v_str_append(ex, st, a, ins):
    s = rd(ex, st, a[1], 'sc')
    wr(ex, st, a[0], 'sc', scat([rd(ex, st, a[0], 'sc'), s]))
@intr
def __v_str_append_n(ex, st, a, ins):
    c = chars(ex, st, a[1], a[2])
    wr(ex, st, a[0], 'sc', scat([rd(ex, st, a[0], 'sc'), c]))
@intr
def __v_str_push(ex, st, a, ins):
    c = a[1]
    if c is UNDEF: raise ToolLimit('undefined character')
    wr(ex, st, a[0], 'sc', scat([rd(ex, st, a[0], 'sc'), sunit(c)]))
@intr
def __v_str_sub(ex, st, a, ins):
    # caller guarantees pos <= len and pos + n <= len
    s = rd(ex, st, a[1], 'sc')
    wr(ex, st, a[0], 'sc', sslice(s, a[2], a[3]))
@intr
def __v_str_replace(ex, st, a, ins):
    """d[pos, pos+n) := s"""
    d = rd(ex, st, a[0], 'sc'); pos, n = a[1], a[2]
    s = rd(ex, st, a[3], 'sc')
    l = d.len()
    wr(ex, st, a[0], 'sc', scat([sslice(d, 0, pos), s, sslice(d, iadd(pos, n), isub(l, iadd(pos, n)))]))
@intr
def __v_str_eq(ex, st, a, ins): return eqf(rd(ex, st, a[0], 'sc'), rd(ex, st, a[1], 'sc'))
@intr
def __v_str_cmp(ex, st, a, ins): return cmp3(rd(ex, st, a[0], 'sc'), rd(ex, st, a[1], 'sc'))
@intr
def __v_str_hash(ex, st, a, ins): return ufun('hash.str', (idof(rd(ex, st, a[0], 'sc')),), IntS)
@intr
def __v_cstrlen(ex, st, a, ins): return cstrlen(ex, st, a[0])
I['strlen'] = __v_cstrlen
@intr
def __v_fmt_int(ex, st, a, ins):
    n = a[1]
    if isinstance(n, int): v = slit(str(n))
    else:
        UF_RANGE['fmti#len'] = (1, 20); EKS.setdefault('fmti', set()).add('c'); NONUL.add('fmti')
        v = ssym('fmti', (n,), 'c')
    wr(ex, st, a[0], 'sc', v)
@intr
def __v_fmt_double(ex, st, a, ins):
    x, prec, loc = a[1], a[2], a[3]
    NONUL.add('fmtd')
    wr(ex, st, a[0], 'sc', ssym('fmtd', (x, prec, loc), 'c'))
@intr
def __v_str_opaque(ex, st, a, ins):
    """d := an uninterpreted function (named) of the string s and integer n"""
    s = rd(ex, st, a[2], 'sc')
    wr(ex, st, a[0], 'sc', ssym('op.' + cname(ex, st, a[1]), (idof(s), a[3]), 'c'))
@intr
def __v_nonul(ex, st, a, ins):
    s = rd(ex, st, a[0], 'sc')
    if isinstance(s, SSym): NONUL.add(s.name)

# ---------------------------------------------------------------- vectors
@intr
def __v_vec_init(ex, st, a, ins): wr(ex, st, a[0], skind(cint(a[1])), EMPTY)
@intr
def __v_vec_len(ex, st, a, ins): return rd(ex, st, a[0], skind(cint(a[1]))).len()
@intr
def __v_vec_at(ex, st, a, ins):
    s = cint(a[2])
    def f(p):
        if isinstance(p, PIte): return pite(p.c, f(p.a), f(p.b))
        if p.root is None: ex.oblige(st, False, 'pointer is not null')
        return mkptr(p.root, p.hops + ((p.off, a[1], s, None),), 0)
    return f(a[0])
@intr
def __v_vec_copy(ex, st, a, ins):
    k = skind(cint(a[2])); wr(ex, st, a[0], k, rd(ex, st, a[1], k))
def elem(ex, st, p, stride):
    o = ex.get_obj(st, p)
    if ex.monitor: ex.monitor(ex, st, p, 'obj', False)
    if not isinstance(o, Obj):
        return o
    if stride == 1: return o.read(p.off, 'i8')
    return mkobj({}, None).copy_range(0, o, p.off, stride)
@intr
def __v_vec_push(ex, st, a, ins):
    s = cint(a[2]); k = skind(s)
    e = elem(ex, st, a[1], s)
    wr(ex, st, a[0], k, scat([rd(ex, st, a[0], k), sunit(e)]))
@intr
def __v_vec_fill(ex, st, a, ins):
    """v := n copies of *tmp"""
    s = cint(a[3]); n = a[1]
    e = elem(ex, st, a[2], s)
    wr(ex, st, a[0], skind(s), scat([sunit(e)] * n) if isinstance(n, int) and n <= 64 else sfn(n, z3.Const('k!u', IntS), e))
@intr
def __v_vec_insert(ex, st, a, ins):
    """v.insert(pos, *tmp)"""
    s = cint(a[3]); k = skind(s); pos = a[1]
    e = elem(ex, st, a[2], s)
    v = rd(ex, st, a[0], k); l = v.len()
    if same(pos, l): r = scat([v, sunit(e)])
    else:
        ex.oblige(st, band(ile(0, pos), ile(pos, l)), 'insert position is in bounds')
        r = scat([sslice(v, 0, pos), sunit(e), sslice(v, pos, isub(l, pos))])
    wr(ex, st, a[0], k, r)
@intr
def __v_vec_erase(ex, st, a, ins):
    """erase [lo, hi)"""
    s = cint(a[3]); k = skind(s); lo, hi = a[1], a[2]
    v = rd(ex, st, a[0], k); l = v.len()
    ex.oblige(st, band(ile(0, lo), ile(lo, hi), ile(hi, l)), 'erased range is in bounds')
    wr(ex, st, a[0], k, scat([sslice(v, 0, lo), sslice(v, hi, isub(l, hi))]))
@intr
def __v_vec_splice(ex, st, a, ins):
    """d.insert(pos, s[lo, hi))"""
    s = cint(a[5]); k = skind(s); pos = a[1]; lo, hi = a[3], a[4]
    v = rd(ex, st, a[0], k); w = rd(ex, st, a[2], k)
    l = v.len()
    if not (same(lo, 0) and same(hi, w.len())):
        ex.oblige(st, band(ile(0, lo), ile(lo, hi), ile(hi, w.len())), 'copied range is in bounds')
    m = sslice(w, lo, isub(hi, lo))
    if same(pos, l): r = scat([v, m])
    else:
        ex.oblige(st, band(ile(0, pos), ile(pos, l)), 'insert position is in bounds')
        r = scat([sslice(v, 0, pos), m, sslice(v, pos, isub(l, pos))])
    wr(ex, st, a[0], k, r)
@intr
def __v_vec_resize(ex, st, a, ins):
    s = cint(a[3]); k = skind(s); n = a[1]
    v = rd(ex, st, a[0], k); l = v.len()
    e = elem(ex, st, a[2], s)
    c = ile(n, l)
    if c is True: r = sslice(v, 0, n)
    else:
        d = isub(n, l)
        g = scat([v, sfn(d, z3.Const('k!u', IntS), e) if not isinstance(d, int) or d > 64 else scat([sunit(e)] * d)])
        r = g if c is False else site(c, sslice(v, 0, n), g)
    wr(ex, st, a[0], k, r)
@intr
def __v_vec_eq(ex, st, a, ins):
    k = skind(cint(a[2])); return eqf(rd(ex, st, a[0], k), rd(ex, st, a[1], k))
@intr
def __v_vec_raw(ex, st, a, ins):
    """copy elements from raw array pointer p[0..n) into the vector"""
    s = cint(a[3]); k = skind(s); n = a[2]; p = a[1]
    if s == 1: wr(ex, st, a[0], k, chars(ex, st, p, n)); return
    if isinstance(p, Ptr) and p.hops and p.off == 0 and p.hops[-1][2] == s:
        h = p.hops[-1]
        q = mkptr(p.root, p.hops[:-1], h[0])
        seq = ex.container(ex.get_obj(st, q), h)
        wr(ex, st, a[0], k, sslice(seq, h[1], n)); return
    if isinstance(n, int):
        es = []
        for i in range(n):
            es.append(sunit(elem(ex, st, ex.padd_elem(p, s, i) if (p.hops and p.off == 0 and p.hops[-1][2] == s) else padd(p, s * i), s)))
        wr(ex, st, a[0], k, scat(es)); return
    raise ToolLimit('raw range of symbolic length')
@intr
def __v_vec_sort(ex, st, a, ins):
    raise ToolLimit('sort')

# ---------------------------------------------------------------- heap and exceptions
def new_(ex, st, a, ins):
    r = ex.new_root('h', tuple(tid(x) for x in Amb.stack))
    st.mem[r] = mkobj({}, None)
    return mkptr(r)
def delete_(ex, st, a, ins):
    p = a[0]
    for c, q in pcases(p):
        if q.root is None: continue
        if c is not True:
            if not st.copy().assume(c): continue
            if isinstance(q, Ptr) and q.root is not None and q.root[0] == 'h':
                ob = ex.root_obj(st, q.root)
                ex.oblige(st, bor(bnot(c), bnot(dead_when(ob))), 'object is deleted once')
                st.mem[q.root] = maydead(bor(c, dead_when(ob)), live_part(ob)) if live_part(ob) is not None else DEADOBJ
                continue
            raise ToolLimit('conditional delete')
        if q.root == 'HEAP':
            r = heap_ref(q)
            if r is None: raise ToolLimit('delete of an interior pointer')
            if same(r, 0): continue
            for c2, f in st.freed:
                ex.oblige(st, bor(icmp_eq(r, 0), bnot(c2), bnot(icmp_eq(r, f))), 'object is deleted once')
            st.freed = st.freed + ((True, r),)
            continue
        if q.root[0] != 'h': ex.oblige(st, False, 'deleted object was allocated with new')
        ob = ex.root_obj(st, q.root)
        if not isinstance(ob, Obj): ex.oblige(st, bnot(dead_when(ob)), 'object is deleted once')
        st.mem[q.root] = DEADOBJ
for n in ('_Znwm', '_Znam', '__cxa_allocate_exception'): I[n] = new_
for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '__cxa_free_exception'): I[n] = delete_
def cxa_throw(ex, st, a, ins):
    p, t = a[0], a[1]
    st.exc = ((True, t.root[2], p),)
    return None, st
I['__cxa_throw'] = cxa_throw
I['__cxa_begin_catch'] = lambda ex, st, a, ins: begin_catch(ex, st, a)
def begin_catch(ex, st, a):
    return a[0]
I['__cxa_end_catch'] = lambda ex, st, a, ins: setattr(st, 'exc', None)
def cxa_rethrow(ex, st, a, ins):
    if st.exc is None: raise ToolLimit('rethrow without exception')
    return None, st
I['__cxa_rethrow'] = cxa_rethrow
def term(ex, st, a, ins):
    ex.oblige(st, False, 'no call of std::terminate')
    raise Dead()
I['_ZSt9terminatev'] = term
I['__clang_call_terminate'] = term
I['abort'] = term
def purev(ex, st, a, ins):
    ex.oblige(st, False, 'no pure virtual call'); raise Dead()
I['__cxa_pure_virtual'] = purev
def afail(ex, st, a, ins):
    ex.oblige(st, False, 'assert() in the code holds'); raise Dead()
I['__assert_fail'] = afail
I['__cxa_atexit'] = lambda ex, st, a, ins: 0
def guard_acq(ex, st, a, ins):
    return 1
I['__cxa_guard_acquire'] = guard_acq
I['__cxa_guard_release'] = lambda ex, st, a, ins: None
I['__cxa_guard_abort'] = lambda ex, st, a, ins: None

# ---------------------------------------------------------------- llvm intrinsics
def memcpy(ex, st, a, ins):
    d, s, n = a[0], a[1], a[2]
    if not isinstance(n, int): raise ToolLimit('memcpy of symbolic size')
    if n == 0: return
    if isinstance(s, PIte):
        o = None
        for c, q in reversed(pcases(s)):
            v = mkobj({}, None).copy_range(0, ex.get_obj(st, q), q.off, n)
            o = v if o is None else obj_ite(c, v, o)
        soff = 0
    else:
        o = ex.get_obj(st, s); soff = s.off
        if ex.monitor: ex.monitor(ex, st, s, 'obj', False)
        if not isinstance(o, Obj):
            wr(ex, st, d, 'i8', o); return
    ex.update(st, d, lambda x: x.copy_range(d.off, o, soff, n), 'obj', None)
def memset(ex, st, a, ins):
    d, v, n = a[0], a[1], a[2]
    if not isinstance(n, int): raise ToolLimit('memset of symbolic size')
    if n == 0: return
    if v == 0: ex.update(st, d, lambda x: x.fill(d.off, n, 'zero'), 'obj', None)
    else: raise ToolLimit('memset of a nonzero value')
nop = lambda ex, st, a, ins: None
def typeid_for(ex, st, a, ins): return ex.typeid(a[0].root[2])
def assume_(ex, st, a, ins):
    if not st.assume(a[0]): raise Dead()
def dabs(ex, st, a, ins):
    x = a[0]; v = dval(x)
    if v is not None: return dconst(abs(v))
    return dite(dcmp('lt', x, dconst(0.0)), dneg(x), x)
def dfloor(ex, st, a, ins):
    v = dval(a[0])
    import math
    if v is not None and v == v and not math.isinf(v): return dconst(math.floor(v))
    return f_floor(a[0])
def smaxmin(op):
    def h(ex, st, a, ins):
        x, y = a[0], a[1]
        c = ile(x, y) if op == 'min' else ile(y, x)
        return iite(c, x, y)
    return h
I['llvm'] = {'llvm.memcpy': memcpy, 'llvm.memmove': memcpy, 'llvm.memset': memset, 'llvm.dbg': nop, 'llvm.lifetime': nop,
             'llvm.eh.typeid.for': typeid_for, 'llvm.assume': assume_, 'llvm.stacksave': nop, 'llvm.stackrestore': nop,
             'llvm.trap': term, 'llvm.is.constant': lambda ex, st, a, ins: isinstance(a[0], int), 'llvm.objectsize': lambda ex, st, a, ins: -1, 'llvm.fabs': dabs, 'llvm.floor': dfloor, 'llvm.experimental.noalias': nop,
             'llvm.expect': lambda ex, st, a, ins: a[0], 'llvm.is.fpclass': None, 'llvm.va_start': nop, 'llvm.va_end': nop,
             'llvm.umin': smaxmin('min'), 'llvm.umax': smaxmin('max'), 'llvm.smin': smaxmin('min'), 'llvm.smax': smaxmin('max')}
def fpclass(ex, st, a, ins):
    x, m = a[0], cint(a[1])
    nan = dnan(x)
    r = False
    if m & 3:
        r = bor(r, nan)
    if m & 0x204:
        pi = diteq(x, dconst(float('inf'))) if m & 0x200 else False
        ni = diteq(x, dconst(float('-inf'))) if m & 0x4 else False
        r = bor(r, pi, ni)
    if m & ~0x207:
        if (m & ~0x207) == 0x1f8:
            r = bor(r, band(bnot(nan), bnot(diteq(x, dconst(float('inf')))), bnot(diteq(x, dconst(float('-inf'))))))
        else: raise ToolLimit('fpclass')
    return r
I['llvm']['llvm.is.fpclass'] = fpclass
I['floor'] = dfloor

# ---------------------------------------------------------------- synchronisation
def addr_key(p):
    return p.uid_
LOCKPTR = {}
def inside(p, g, n):
    """does the pointer p lie in the object [g, g+n) (or in memory it owns)"""
    if not isinstance(p, Ptr) or not isinstance(g, Ptr) or p.root != g.root or p.root is None: return False
    ng = len(g.hops)
    if len(p.hops) < ng: return False
    if not all(x[0] == y[0] and x[2] == y[2] and same(x[1], y[1]) for x, y in zip(p.hops, g.hops)): return False
    off = p.hops[ng][0] if len(p.hops) > ng else p.off
    return g.off <= off < g.off + n
@intr
def __v_lock(ex, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr): raise ToolLimit('lock through a merged pointer')
    LOCKPTR[p.uid_] = p
    ex.oblige(st, bnot(holds(st, p)), 'mutex is not locked twice by one thread', 'lock')
    st.locks = st.locks + ((p.uid_, uid(), True),)
def holds(st, p): return bor(*[c for x, n, c in st.locks if x == p.uid_])
@intr
def __v_unlock(ex, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr): raise ToolLimit('unlock through a merged pointer')
    ex.oblige(st, holds(st, p), 'unlocked mutex is held', 'lock')
    st.locks = tuple(x for x in st.locks if x[0] != p.uid_)
@intr
def __v_locks_held(ex, st, a, ins):
    n = 0
    for u in dict.fromkeys(x[0] for x in st.locks): n = iadd(n, iite(bor(*[c for x, k, c in st.locks if x == u]), 1, 0))
    return n
@intr
def __v_section(ex, st, a, ins):
    """number of the critical section of the outermost held mutex that lies in the object [p, p+n), 0 if none is held"""
    p, n = a[0], cint(a[1])
    r = 0
    for x, k, c in reversed(st.locks):
        if inside(LOCKPTR[x], p, n): r = iite(c, k, r)
    return r
@intr
def __v_holds(ex, st, a, ins): return holds(st, a[0])
@intr
def __v_guard(ex, st, a, ins):
    """region [p, p+n): mode 0: only touched while mutex m is held, 1: only written while it is held, 2: never
    written, 3: the elements of the container there only touched while it is held, 4: its shape never changed"""
    p, n, m = a[0], cint(a[1]), a[2]
    ex.guards.append((p, n, m, cname(ex, st, a[3]), a[4]))
    ex.monitor = guard_monitor
@intr
def __v_guard_off(ex, st, a, ins):
    ex.guards = []; ex.monitor = None
def guard_monitor(ex, st, p, kind, write):
    if not isinstance(p, Ptr) or p.root is None: return
    for g, n, m, name, mode in ex.guards:
        if p.root != g.root: continue
        ng = len(g.hops)
        if len(p.hops) < ng: continue
        if not all(x[0] == y[0] and x[2] == y[2] and same(x[1], y[1]) for x, y in zip(p.hops, g.hops)): continue
        off = p.hops[ng][0] if len(p.hops) > ng else p.off
        if not (g.off <= off < g.off + n): continue
        if mode in (1, 2, 4) and not write: continue
        if mode == 3 and len(p.hops) == ng or mode == 4 and len(p.hops) > ng: continue
        if mode in (2, 4):
            ex.oblige(st, False, '%s is never changed' % name, 'lock'); continue
        held = [x for x in st.locks if x[0] == m.uid_]
        ex.oblige(st, bor(*[x[2] for x in held]), 'access to %s only while its mutex is held' % name, 'lock')
        for x in held:
            for y in st.sect:
                if y[0] == m.uid_ and y[1] != x[1]: ex.oblige(st, bnot(band(x[2], y[3])), 'one critical section per operation on %s' % name, 'lock')
            sec = (m.uid_, x[1], name, x[2])
            if sec not in st.sect: st.sect = tuple(y for y in st.sect if y[:3] != sec[:3]) + (sec[:3] + (bor(x[2], *[y[3] for y in st.sect if y[:3] == sec[:3]]),),)

# ---------------------------------------------------------------- specification primitives
def cname(ex, st, p):
    seq, i, lim = charseq(ex, st, p)
    b = seq.b[i:]
    return b[:b.find(b'\0')].decode() if b'\0' in b else b.decode()
@intr
def __v_any_obj(ex, st, a, ins):
    """arbitrary object of n bytes: a local root with unknown contents"""
    nm = cname(ex, st, a[0])
    r = ex.new_root('l', '')
    st.mem[r] = lazy_obj('%s' % nm if not amb() else nm, amb())
    return mkptr(r)
@intr
def __v_any_heap(ex, st, a, ins):
    """arbitrary object living in the symbolic heap (may be pointed to by other objects)"""
    nm = cname(ex, st, a[0])
    UF_RANGE['ref.' + nm] = (1, None)
    r = ufun('ref.' + nm, amb(), IntS)
    ex.nonnull.add(tid(r))
    return heap_ptr(r)
@intr
def __v_any_i64(ex, st, a, ins): return ufun('any.' + cname(ex, st, a[0]), amb(), IntS)
@intr
def __v_any_u64(ex, st, a, ins):
    nm = 'anyu.' + cname(ex, st, a[0]); UF_RANGE[nm] = (0, None)
    return ufun(nm, amb(), IntS)
@intr
def __v_any_i32(ex, st, a, ins):
    nm = 'any32.' + cname(ex, st, a[0]); UF_RANGE[nm] = (-2**31, 2**31 - 1)
    return ufun(nm, amb(), IntS)
@intr
def __v_any_bool(ex, st, a, ins): return ufun('anyb.' + cname(ex, st, a[0]), amb(), BoolS)
@intr
def __v_any_double(ex, st, a, ins): return ufun('anyd.' + cname(ex, st, a[0]), amb(), D)
@intr
def __v_fresh_bool(ex, st, a, ins): return fresh(HV[0] + 'fb', BoolS)
@intr
def __v_fresh_i64(ex, st, a, ins): return fresh(HV[0] + 'fi', IntS)
@intr
def __v_fresh_u64(ex, st, a, ins): return fresh(HV[0] + 'fu', IntS, (0, None))
@intr
def __v_fresh_double(ex, st, a, ins): return fresh(HV[0] + 'fd', D)
@intr
def __v_fresh_str(ex, st, a, ins):
    wr(ex, st, a[0], 'sc', ssym(HV[0] + 'fs!%d' % uid(), amb(), 'c'))
@intr
def __v_fresh_vec(ex, st, a, ins):
    k = skind(cint(a[1]))
    wr(ex, st, a[0], k, ssym(HV[0] + 'fv!%d' % uid(), amb(), 'c' if k == 'sc' else k))
@intr
def __v_fresh_obj(ex, st, a, ins):
    """overwrite n bytes at p with arbitrary contents"""
    p, n = a[0], cint(a[1])
    o = lazy_obj(HV[0] + 'fo!%d' % uid(), amb())
    ex.update(st, p, lambda x: x.copy_range(p.off, o, 0, n), 'obj', None)
def val_idx(ex, st, v):
    if isinstance(v, Ptr):
        r = heap_ref(v)
        if r is None: return root_ref(v.root)
        return r
    return b2i(v)
@intr
def __v_put_bytes(ex, st, a, ins):
    """writes the bytes of a string at a pointer into a character buffer"""
    p, v = a[0], rd(ex, st, a[1], 'sc')
    if not isinstance(p, Ptr) or not p.hops or p.hops[-1][2] != 1: raise ToolLimit('bytes written outside a character buffer')
    off, i, stride, n = p.hops[-1]
    if n is not None: raise ToolLimit('bytes written into an array')
    par = mkptr(p.root, p.hops[:-1], 0)
    def f(o):
        seq = o.read(off, 'sc')
        if not isinstance(seq, Seq): raise ToolLimit('bytes written into an unknown buffer')
        l = v.len()
        ex.oblige(st, band(ile(0, i), ile(iadd(i, l), seq.len())), 'characters written are in bounds')
        e = iadd(i, l)
        return o.write(off, 'sc', scat([sslice(seq, 0, i), v, sslice(seq, e, isub(seq.len(), e))]))
    ex.update(st, par, f, 'obj', None)
@intr
def __v_fn_i32(ex, st, a, ins):
    nm = 'fn32.' + cname(ex, st, a[0]); UF_RANGE[nm] = (-2**31, 2**31 - 1)
    return ufun(nm, (a[1], a[2]), IntS)
@intr
def __v_fn_i64(ex, st, a, ins):
    """uninterpreted function name(x, y)"""
    return ufun('fn.' + cname(ex, st, a[0]), (a[1], a[2]), IntS)
@intr
def __v_fn_bool(ex, st, a, ins):
    return ufun('fnb.' + cname(ex, st, a[0]), (a[1], a[2]), BoolS)
@intr
def __v_fn_double(ex, st, a, ins):
    return ufun('fnd.' + cname(ex, st, a[0]), (a[1], a[2]), D)
DBITS = z3.Function('dbits', D, IntS)
@intr
def __v_d_bits(ex, st, a, ins):
    """a number determined by the double (for use as an argument of an uninterpreted function)"""
    return DBITS(a[0])
@intr
def __v_fn_vec(ex, st, a, ins):
    """*d := uninterpreted sequence name(x, y) of elements of the given stride"""
    k = skind(cint(a[4])); wr(ex, st, a[0], k, ssym('fnv.' + cname(ex, st, a[1]), (a[2], a[3]), 'c' if k == 'sc' else k))
@intr
def __v_fn_str(ex, st, a, ins):
    wr(ex, st, a[0], 'sc', ssym('fns.' + cname(ex, st, a[1]), (a[2], a[3]), 'c'))
@intr
def __v_fn_obj(ex, st, a, ins):
    p, n = a[0], cint(a[1])
    o = lazy_obj('fno.' + cname(ex, st, a[2]), (a[3], a[4]))
    ex.update(st, p, lambda x: x.copy_range(p.off, o, 0, n), 'obj', None)
@intr
def __v_ref(ex, st, a, ins):
    """integer identity of a pointer"""
    def f(p):
        if isinstance(p, PIte): return iite(p.c, f(p.a), f(p.b))
        r = heap_ref(p)
        if r is not None: return r
        return root_ref((p.root, p.uid_))
    return f(a[0])
@intr
def __v_strid(ex, st, a, ins):
    """integer identity of a string value"""
    t = idof(rd(ex, st, a[0], 'sc'))
    return ufun('id2i', (t,), IntS)
@intr
def __v_vecid(ex, st, a, ins):
    """integer identity of the contents of a vector"""
    return ufun('id2i', (idof(rd(ex, st, a[0], skind(cint(a[1])))),), IntS)
@intr
def __v_assume(ex, st, a, ins):
    c = a[0]
    if not st.assume(c if not isinstance(c, int) or isinstance(c, bool) else bool(c)): raise Dead()
@intr
def __v_assert(ex, st, a, ins):
    g = a[0]
    ex.oblige(st, g, cname(ex, st, a[1]), 'spec')
@intr
def __v_assert_soft(ex, st, a, ins):
    ex.oblige(st, a[0], cname(ex, st, a[1]), 'soft')
@intr
def __v_assert_seq_eq_soft(ex, st, a, ins):
    k = skind(cint(a[2]))
    ex.oblige_seq(st, rd(ex, st, a[0], k), rd(ex, st, a[1], k), cname(ex, st, a[3]), 'soft')
@intr
def __v_reach(ex, st, a, ins):
    ex.reached.setdefault(cname(ex, st, a[0]), []).append(st.pc)
@intr
def __v_stop(ex, st, a, ins): raise Dead()
@intr
def __v_skolem(ex, st, a, ins):
    """an arbitrary but fixed index lo <= j < hi"""
    nm = 'sk!%d' % uid()
    j = z3.Const(nm, IntS)
    Amb_push = None
    if not st.assume(band(ile(a[0], j), ilt(j, a[1]))): raise Dead()
    return j
@intr
def __v_fork(ex, st, a, ins):
    """nondeterministic choice (both branches are verified)"""
    return fresh('fork', BoolS)
@intr
def __v_bound_begin(ex, st, a, ins):
    """start of the body of a universally quantified assumption over lo <= j < hi"""
    n = uid(); j = z3.Const('k!%d' % n, IntS)
    lo, hi = a[0], a[1]
    st.bst = st.bst + ((j, lo, hi, st.pc),)
    Amb.stack.append(j)
    st.pc = st.pc + ((ile(lo, j), ) if ile(lo, j) is not True else ()) + ((ilt(j, hi),) if ilt(j, hi) is not True else ())
    return j
def bound_close(ex, st, body):
    """-> owner symbol of the quantified fact, or True"""
    j, lo, hi, pc0 = st.bst[-1]
    st.bst = st.bst[:-1]
    if Amb.stack and Amb.stack[-1].eq(j): Amb.stack.pop()
    extra = st.pc[len(pc0):]
    # the region always runs to its end: what its paths establish holds for every j in range
    guard = band(ile(lo, j), ilt(j, hi))
    known = band(*[x for x in extra if j.decl().name() in fvars(zb(x)) and tid(x) not in (tid(ile(lo, j)), tid(ilt(j, hi)))])
    st.pc = pc0
    params = tuple(x for x in Amb.stack)
    if isinstance(body, int) and not isinstance(body, bool): body = bool(body)
    fact = body if isinstance(body, bool) else simp_b(body)
    if fact is True and known is True: return True
    # an owner symbol ties the fact to this point of the program
    nm = 'qa!%d' % uid()
    owner = ufun(nm, tuple(params), BoolS) if params else z3.Const(nm, BoolS)
    smt.QFACTS.append(QFact(nm, params, j, guard, bimp(owner, band(known, fact))))
    return owner
@intr
def __v_bound_end(ex, st, a, ins):
    o = bound_close(ex, st, a[0])
    if o is not True: st.pc = st.pc + (o,)
@intr
def __v_bound_value(ex, st, a, ins):
    return bound_close(ex, st, a[0])
@intr
def __v_seq_eq(ex, st, a, ins):
    k = skind(cint(a[2]))
    return eqf(rd(ex, st, a[0], k), rd(ex, st, a[1], k))
@intr
def __v_assert_seq_eq(ex, st, a, ins):
    """obligation: the two containers hold equal contents"""
    k = skind(cint(a[2]))
    x, y = rd(ex, st, a[0], k), rd(ex, st, a[1], k)
    ex.oblige_seq(st, x, y, cname(ex, st, a[3]))
@intr
def __v_same_obj(ex, st, a, ins):
    """n bytes at p and q hold the same value (structural)"""
    n = cint(a[2])
    o1 = elem(ex, st, a[0], n); o2 = elem(ex, st, a[1], n)
    if not isinstance(o1, Obj): return icmp_eq(o1, o2)
    return objeq(o1, o2)
@intr
def __v_assert_same_obj(ex, st, a, ins):
    n = cint(a[2])
    o1 = elem(ex, st, a[0], n); o2 = elem(ex, st, a[1], n)
    ex.oblige_obj(st, o1, o2, cname(ex, st, a[3]))
@intr
def __v_va_i64(ex, st, a, ins):
    """n-th variadic argument as an integer"""
    i = cint(a[0])
    if st.va is None or i >= len(st.va): raise ToolLimit('variadic argument')
    v = st.va[i]
    if isinstance(v, Node): raise ToolLimit('variadic argument is not an integer')
    return b2i(v)
@intr
def __v_va_ptr(ex, st, a, ins):
    i = cint(a[0])
    if st.va is None or i >= len(st.va): raise ToolLimit('variadic argument')
    v = st.va[i]
    if isinstance(v, int) and v == 0: return NULL
    if not isinstance(v, (Ptr, PIte)): raise ToolLimit('variadic argument is not a pointer')
    return v
@intr
def __v_va_count(ex, st, a, ins): return len(st.va) if st.va is not None else 0
@intr
def __v_va_pass(ex, st, a, ins): return None
@intr
def __v_debug(ex, st, a, ins):
    if not ex.mute:
        import sys
        for x in a[1:]: print('DEBUG', cname(ex, st, a[0]), x, file=sys.stderr)
@intr
def __v_debug_str(ex, st, a, ins):
    import sys
    if not ex.mute: print('DEBUG', cname(ex, st, a[0]), rd(ex, st, a[1], 'sc'), file=sys.stderr)
@intr
def __v_debug_vec(ex, st, a, ins):
    import sys
    if not ex.mute: print('DEBUG', cname(ex, st, a[0]), rd(ex, st, a[1], skind(cint(a[2]))), file=sys.stderr)
@intr
def __v_limit(ex, st, a, ins): raise ToolLimit(cname(ex, st, a[0]))
@intr
def __v_d_eq_bits(ex, st, a, ins): return diteq(a[0], a[1])

def objeq(a, b):
    """formula: two objects hold equal leaves"""
    if a is b: return True
    r = True
    offs = set(a.over) | set(b.over)
    if a.base is not b.base: raise ToolLimit('comparison of objects of unknown layout')
    for o in sorted(offs):
        k = (a.over.get(o) or b.over.get(o))[0]
        ka = a.over.get(o, (None,))[0]; kb = b.over.get(o, (None,))[0]
        if 'view' in (ka, kb):
            if ka == kb and a.over[o][1] is b.over[o][1]: continue
            raise ToolLimit('comparison of copied objects')
        if k in ('zero', 'und'):
            if ka == kb: continue
            k = kb if ka in ('zero', 'und') else ka
            if k in ('zero', 'und', None): continue
        x, y = a.read(o, k), b.read(o, k)
        if same(x, y): continue
        if x is UNDEF or y is UNDEF: continue
        if isinstance(x, Seq): r = band(r, eqf(x, y))
        elif isinstance(x, (Ptr, PIte)): r = band(r, peq(x, y))
        elif z3.is_expr(x) and x.sort() == D or z3.is_expr(y) and y.sort() == D: r = band(r, diteq(x, y))
        else: r = band(r, icmp_eq(b2i(x), b2i(y)))
    return r
