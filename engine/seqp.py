import time
"""Equality of sequences and objects: structural decomposition into z3 goals.
Every function returns True (proved), False (refuted: a model of the path condition in which they
differ) or None (undecided)."""
import z3
from val import *
import val, smt
from smt import prove

class Ctx:
    def __init__(s, pc, depth=0): s.pc = tuple(pc); s.depth = depth
    def with_(s, c):
        """None if contradictory"""
        if c is True: return s
        if c is False: return None
        return Ctx(s.pc + (c,), s.depth + 1)

def pr(cx, g):
    if g is True: return True
    return prove(cx.pc, g)
def feasible(cx, rounds=4):
    return smt.check(list(cx.pc), rounds)[0] != 'unsat'
def refuted(cx):
    """a definite mismatch on this path counts only if the path is possible"""
    r = smt.check(list(cx.pc))[0]
    return True if r == 'unsat' else False if r == 'sat' else None
def land(*rs):
    out = True
    for f in rs:
        r = f() if callable(f) else f
        if r is False: return False
        if r is None: out = None
    return out

def eq_val(cx, x, y):
    """scalars, pointers, sequences, objects"""
    if same(x, y): return True
    if x is UNDEF or y is UNDEF: return True if x is y else None
    if isinstance(x, Seq) or isinstance(y, Seq): return eq_seq(cx, x, y)
    if isinstance(x, Obj) or isinstance(y, Obj):
        return eq_obj(cx, x, y)
    if isinstance(x, (Ptr, PIte)):
        try: return pr(cx, peq(x, y))
        except ToolLimit: return None
    if isinstance(x, Node) or isinstance(y, Node): return None
    if z3.is_expr(x) and x.sort() == D or z3.is_expr(y) and y.sort() == D:
        return eq_double(cx, x, y)
    bx = isinstance(x, bool) or z3.is_expr(x) and x.sort() == BoolS
    by = isinstance(y, bool) or z3.is_expr(y) and y.sort() == BoolS
    if bx and by: return pr(cx, beq(x, y))
    if bx: x = iite(x, 1, 0)
    if by: y = iite(y, 1, 0)
    return pr(cx, icmp_eq(x, y))

def eq_double(cx, x, y):
    r = pr(cx, diteq(x, y))
    if r is True: return True
    s = eq_term(cx, x, y, 0)
    return True if s else r

def eq_term(cx, x, y, d):
    """congruence through bound constructs: same function, provably equal arguments; recursive
    functions (folds) with equal start values and steps equal for every index"""
    if z3.is_expr(x) and z3.is_expr(y):
        if x.eq(y): return True
        if d > 6: return False
        if x.sort() == IntS and pr(cx, icmp_eq(simp_i(x), simp_i(y))) is True: return True
        if x.decl().eq(y.decl()) and x.num_args() == y.num_args() and x.num_args():
            if all(eq_term(cx, x.arg(i), y.arg(i), d + 1) for i in range(x.num_args())): return True
        nx, ny = x.decl().name(), y.decl().name()
        if nx.startswith('fold!') and ny.startswith('fold!'):
            import loops
            fx, fy = loops.FOLDS.get(nx), loops.FOLDS.get(ny)
            if fx and fy and eq_fold(cx, x, fx, y, fy): return True
    return False

def eq_fold(cx, x, fx, y, fy):
    ax, ay = x.children(), y.children()
    nx, ny = simp_i(ax[-1]), simp_i(ay[-1])
    if pr(cx, icmp_eq(nx, ny)) is not True: return False
    x0, y0 = ax[-2], ay[-2]
    if eq_val(cx, val_of(x0), val_of(y0)) is not True: return False
    j = z3.Const('sk!f%d' % uid(), IntS)
    h = z3.Const('h!f%d' % uid(), x0.sort())
    def step(f, args):
        canon, _, _, EE, SELF, b0 = f
        pairs = list(zip(canon, args[:-2])) + [(SELF, h), (b0, j)]
        return renorm(z3.substitute(EE, *[(a, zi(b) if not z3.is_expr(b) else b) for a, b in pairs]))
    sx, sy = step(fx, ax), step(fy, ay)
    c2 = cx.with_(band(ile(0, j), ilt(j, nx)))
    return eq_val(c2, val_of(sx), val_of(sy)) is True

def val_of(e):
    if z3.is_expr(e) and e.sort() == IntS: return simp_i(e)
    if z3.is_expr(e) and e.sort() == BoolS: return simp_b(e)
    return e

def eq_obj(cx, a, b):
    if a is b: return True
    if not isinstance(a, Obj) or not isinstance(b, Obj): return None
    r = True
    if a.base is not b.base:
        # conditional objects
        for o, other, flip in ((a, b, False), (b, a, True)):
            if isinstance(o.base, BIte):
                c = o.base.c
                res = []
                for cc, ob in ((c, o.base.a), (bnot(c), o.base.b)):
                    c2 = cx.with_(cc)
                    if c2 is None or not feasible(c2): continue
                    n = mkobj(dict(o.over), ob) if not isinstance(ob, Obj) else overlay(o, ob)
                    if n is None: return None
                    res.append(eq_obj(c2, n, other))
                return land(*res)
        if isinstance(a.base, BLazy) and isinstance(b.base, BLazy) and a.base.name == b.base.name and len(a.base.idx) == len(b.base.idx):
            for x, y in zip(a.base.idx, b.base.idx):
                if pr(cx, icmp_eq(x, y)) is not True: r = None; break
        elif a.base is None and b.base is None: pass
        else: r = None
        if r is None:
            return None
    for o in sorted(set(a.over) | set(b.over)):
        ea, eb = a.over.get(o), b.over.get(o)
        ka, kb = (ea or (None,))[0], (eb or (None,))[0]
        if ea is not None and eb is not None and ka == kb and same(ea[1], eb[1]): continue
        if 'view' in (ka, kb): return None
        k = ka
        if k in ('zero', 'und', None):
            if ka == kb: continue
            k = kb
            if k in ('zero', 'und', None):
                continue
        try: x, y = a.read(o, k), b.read(o, k)
        except ToolLimit: return None
        if same(x, y): continue
        if x is UNDEF or y is UNDEF: continue
        t = eq_val(cx, x, y)
        if t is False: return False
        if t is None: r = None
    return r
def overlay(o, ob):
    n = ob
    for off, (k, v) in o.over.items():
        if k in ('zero', 'und'): n = n.fill(off, v, k)
        elif k == 'view': return None
        else: n = n.write(off, k, v)
    return n

_memo = {}
deadline = [float('inf')]
def eq_seq(cx, A, B, d=0):
    """remembers what was proved: it holds under any stronger path condition"""
    if A is B: return True
    if time.time() > deadline[0]: raise ToolLimit('time for comparing sequences')
    if not isinstance(A, (SFlat, SIte)) or not isinstance(B, (SFlat, SIte)): return eq_seq1(cx, A, B, d)
    ids = frozenset(c.get_id() if z3.is_expr(c) else id(c) for c in cx.pc)
    k = (id(A), id(B))
    for known, _, _, _ in _memo.get(k, ()):
        if known <= ids: return True
    r = eq_seq1(cx, A, B, d)
    if r is True: _memo.setdefault(k, []).append((ids, A, B, cx.pc))   # the objects are kept so that ids stay theirs
    return r
def ids_known(cx):
    for c in cx.pc:
        if z3.is_expr(c) and any(x[:4] == '#id.' or x[:6] == 'seqid!' for x in ufuns(c)): return True
    return False
def same_id(cx, A, B):
    import intr
    try: return ids_known(cx) and pr(cx, intr.idof(A) == intr.idof(B)) is True
    except ToolLimit: return False
def eq_seq1(cx, A, B, d=0):
    if A is B: return True
    if isinstance(A, SSym) and isinstance(B, SSym) and A.ek == B.ek and same_id(cx, A, B): return True
    if d > 40: return None
    if not isinstance(A, Seq) or not isinstance(B, Seq): return None
    a = list(A.pieces()) if A is not EMPTY else []
    b = list(B.pieces()) if B is not EMPTY else []
    dom = True
    while True:
        r = strip(cx, a, b, d, False)
        if r is False: return False
        if isinstance(r, tuple): return r[0]
        if not a and not b: return True
        n = (len(a), len(b))
        r = strip(cx, a, b, d, True)
        if r is False: return False
        if isinstance(r, tuple): return r[0]
        if not a and not b: return True
        if (len(a), len(b)) == n: break
    if not a or not b:
        x = scat(a + b)
        g = icmp_eq(x.len(), 0)
        return pr(cx, g)
    X, Y = scat(a), scat(b)
    lx, ly = X.len(), Y.len()
    r = pr(cx, icmp_eq(lx, ly))
    if r is False: return False
    if r is None: return None
    if len(a) == 1 and len(b) == 1 or all(pointable(p) for p in a + b):
        j = z3.Const('sk!s%d' % uid(), IntS)
        c2 = cx.with_(band(ile(0, j), ilt(j, lx)))
        try: return eq_val(c2, X.at(j), Y.at(j))
        except ToolLimit: return None
    return None

def eq_prefix(cx, p, q, l, d):
    """p[0..l) equals q (of length l)"""
    if isinstance(q, SFlat):
        m = scat([q.body]).len()
        if isinstance(m, int) and m > 0:
            j = z3.Const('sk!s%d' % uid(), IntS)
            c2 = cx.with_(band(ile(0, j), ilt(j, q.n)))
            e = q.elem_at(j)
            out = True
            for r in range(m):
                t = eq_val(c2, p.at(iadd(imul(j, m), r)), e.at(r))
                if t is False: return False
                if t is None: out = None
            return out
        return None
    if isinstance(l, int) and l <= 64:
        return land(*[(lambda i=i: eq_val(cx, p.at(i), q.at(i))) for i in range(l)])
    j = z3.Const('sk!s%d' % uid(), IntS)
    c2 = cx.with_(band(ile(0, j), ilt(j, l)))
    try: return eq_val(c2, p.at(j), q.at(j))
    except ToolLimit: return None

def pointable(p):
    return not isinstance(p, SFlat)

def strip(cx, a, b, d, back):
    """remove equal pieces from one end; False on mismatch, ('result',) when the rest was decided"""
    while a and b:
        i = -1 if back else 0
        x, y = a[i], b[i]
        if x is y: a.pop(i); b.pop(i); continue
        # conditional pieces: first as one piece against one piece, then case by case with all that follows
        if (isinstance(x, SIte) or isinstance(y, SIte)) and len(a) + len(b) > 2:
            if isinstance(x, SIte) and isinstance(y, SIte) and (beq(x.c, y.c) is True or prove(cx.pc, beq(x.c, y.c), 1, 300) is True): lq = True
            else: lq = prove(cx.pc, icmp_eq(x.len(), y.len()), 1, 300)
            if lq is True and eq_seq(cx, x, y, d + 1) is True:
                a.pop(i); b.pop(i); continue
        done = False
        for s, t in ((a, b), (b, a)):
            p = s[i]
            if isinstance(p, SIte):
                res = []
                for cc, q in ((p.c, p.a), (bnot(p.c), p.b)):
                    c2 = cx.with_(cc)
                    if c2 is None or not feasible(c2, 2): continue
                    s2 = s[:-1] + [q] if back else [q] + s[1:]
                    r = eq_seq(c2, scat(s2), scat(t), d + 1)
                    if r is not True and not feasible(c2): continue
                    res.append(r)
                    if r is False: return False
                return (land(*res),)
        if isinstance(x, SLit) and isinstance(y, SLit):
            u, v = x.b, y.b
            m = min(len(u), len(v))
            if back:
                if u[len(u) - m:] != v[len(v) - m:]: return mism(cx)
                a.pop(); b.pop()
                if len(u) > m: a.append(slit(u[:len(u) - m]))
                if len(v) > m: b.append(slit(v[:len(v) - m]))
            else:
                if u[:m] != v[:m]: return mism(cx)
                a.pop(0); b.pop(0)
                if len(u) > m: a.insert(0, slit(u[m:]))
                if len(v) > m: b.insert(0, slit(v[m:]))
            continue
        if isinstance(x, (SUnit, SLit)) and isinstance(y, (SUnit, SLit)):
            r = eq_val(cx, x.at(0 if not back else x.len() - 1), y.at(0 if not back else y.len() - 1))
            if r is False: return False
            if r is None: return None
            for s in (a, b):
                p = s.pop(i)
                if isinstance(p, SLit) and len(p.b) > 1:
                    q = slit(p.b[:-1] if back else p.b[1:])
                    if back: s.append(q)
                    else: s.insert(0, q)
            continue
        if isinstance(x, SFlat) and isinstance(y, SFlat) and len(a) + len(b) > 2:
            if eq_seq(cx, x, y, d + 1) is True: a.pop(i); b.pop(i); continue
            if back: return None
            # one element per step: split where the other side's piece ends
            for s, t in ((a, b), (b, a)):
                p, q = s[0], t[0]
                if not isinstance(p.body, SUnit) or len(t) < 2: continue
                l = q.len()
                if pr(cx, ile(l, p.len())) is not True: continue
                f = sfn(p.n, p.k, p.body.e)
                if eq_prefix(cx, f, q, l, d) is not True: return None
                s.pop(0); t.pop(0)
                rest = isub(p.len(), l)
                if pr(cx, icmp_eq(rest, 0)) is not True: s.insert(0, sslice(f, l, rest))
                sp = True; break
            else: return None
            continue
        if isinstance(x, SFlat) and isinstance(y, SFlat):
            if pr(cx, icmp_eq(x.n, y.n)) is True:
                j = z3.Const('sk!s%d' % uid(), IntS)
                c2 = cx.with_(band(ile(0, j), ilt(j, x.n)))
                r = eq_seq(c2, x.elem_at(j), y.elem_at(j), d + 1)
                if r is True: a.pop(i); b.pop(i); continue
                if r is False and len(a) == 1 and len(b) == 1: 
                    return None
                return None
        # an indexable piece against the pieces of the other side
        sp = False
        if not back:
            for s, t in ((a, b), (b, a)):
                p, q = s[0], t[0]
                if isinstance(p, (SFn, SUpd)) and isinstance(q, (SFlat, SUnit, SLit, SSym, SFn, SUpd, SSlice)) and (len(t) > 1 or isinstance(q, SFlat)):
                    l = q.len()
                    if pr(cx, ile(l, p.len())) is not True: continue
                    r = eq_prefix(cx, p, q, l, d)
                    if r is False: return False
                    if r is None: return None
                    s.pop(0); t.pop(0)
                    rest = isub(p.len(), l)
                    if pr(cx, icmp_eq(rest, 0)) is not True: s.insert(0, sslice(p, l, rest))
                    sp = True; break
                if isinstance(p, SSlice) and isinstance(p.s, (SFn, SUpd)) and (len(t) > 1 or isinstance(q, SFlat)) and isinstance(q, (SFlat, SUnit, SLit, SSym, SFn, SUpd)):
                    l = q.len()
                    if pr(cx, ile(l, p.len())) is not True: continue
                    r = eq_prefix(cx, p, q, l, d)
                    if r is False: return False
                    if r is None: return None
                    s.pop(0); t.pop(0)
                    rest = isub(p.len(), l)
                    if pr(cx, icmp_eq(rest, 0)) is not True: s.insert(0, sslice(p.s, iadd(p.lo, l), rest))
                    sp = True; break
        if sp: continue
        # possibly empty pieces
        if isinstance(x, SSym) and isinstance(y, SSym) and x.ek == y.ek and same_id(cx, x, y): a.pop(i); b.pop(i); continue
        if isinstance(x, SSym) and isinstance(y, SSym) and eq_piece(cx, x, y, d) is True:
            a.pop(i); b.pop(i); continue
        emp = False
        for s in (a, b):
            p = s[i]
            if isinstance(p, (SFlat, SSym, SSlice, SFn, SUnk)):
                if isinstance(p.len(), int): z = p.len() == 0
                else: z = prove(cx.pc, icmp_eq(p.len(), 0), 1, 1000) is True or prove(cx.pc, icmp_eq(p.len(), 0), 2) is True
                if z: s.pop(i); emp = True
        if emp: continue
        # peel one iteration off a repetition when the other side has something definite
        r = eq_piece(cx, x, y, d)
        if r is True: a.pop(i); b.pop(i); continue
        if peel(cx, a, b, i, back): continue
        return None
    return None

def peel(cx, a, b, i, back):
    for s in (a, b):
        p = s[i]
        if isinstance(p, SFlat):
            # the number of iterations is known to be a small constant + something
            if isinstance(p.n, int) and p.n > 0:
                last = p.elem_at(p.n - 1 if back else 0)
                if back: s[-1:] = [sflat(p.n - 1, p.k, p.body)] + list(last.pieces())
                else: s[:1] = list(last.pieces()) + [sflat(p.n - 1, p.k, Subst([(p.k, iadd(p.k, 1))]).v(p.body))]
                return True
            if pr(cx, ilt(0, p.n)) is True and depth_ok(p):
                n1 = isub(p.n, 1)
                last = p.elem_at(n1 if back else 0)
                if back: s[-1:] = [sflat(n1, p.k, p.body)] + list(last.pieces())
                else: s[:1] = list(last.pieces()) + [sflat(n1, p.k, Subst([(p.k, iadd(p.k, 1))]).v(p.body))]
                return True
    return False
_peels = {}
def depth_ok(p):
    _peels[p.uid_] = _peels.get(p.uid_, 0) + 1
    return _peels[p.uid_] < 6

def eq_piece(cx, x, y, d):
    if isinstance(x, SSym) and isinstance(y, SSym) and x.name == y.name and len(x.idx) == len(y.idx):
        return True if all(pr(cx, icmp_eq(p, q)) is True for p, q in zip(x.idx, y.idx)) else None
    if pointable(x) and pointable(y) and not isinstance(x, (SLit, SUnit)) and not isinstance(y, (SLit, SUnit)):
        lx, ly = x.len(), y.len()
        if pr(cx, icmp_eq(lx, ly)) is True:
            # identities of strings
            j = z3.Const('sk!s%d' % uid(), IntS)
            c2 = cx.with_(band(ile(0, j), ilt(j, lx)))
            try: return True if eq_val(c2, x.at(j), y.at(j)) is True else None
            except ToolLimit: return None
    return None

def mism(cx):
    r = refuted(cx)
    if r is True: return (True,)
    if r is False: return False
    return (None,)

def discharge(o):
    """-> 'proved' | 'refuted' | 'unknown'"""
    if o.goal is True: return 'proved'
    if o.goal is False:
        r = smt.check(list(o.pc))[0]
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]
    if isinstance(o.goal, tuple):
        cx = Ctx(o.pc)
        r = eq_seq(cx, o.goal[1], o.goal[2]) if o.goal[0] == 'seq' else eq_val(cx, o.goal[1], o.goal[2])
    else:
        r = prove(o.pc, o.goal)
        if r is not True and eq_goal(o) is True: r = True
    return {True: 'proved', False: 'refuted', None: 'unknown'}[r]

def eq_goal(o):
    """goal  x == y  between doubles or integers defined by recursion"""
    g = o.goal
    if z3.is_expr(g) and g.decl().kind() == z3.Z3_OP_EQ and g.arg(0).sort() != BoolS:
        return eq_term(Ctx(o.pc), g.arg(0), g.arg(1), 0)
    return None
