"""Proof obligations -> z3, with explicit instantiation of definitional facts."""
import time, z3
from val import *
import val

FACTS = {}     # function name -> list of (params tuple of consts, formula, gen_limit)
QFACTS = []    # QFact
OWNED = {}     # owner symbol name -> list of QFact
ID_SEQ = {}    # id-term tid -> sequence (for id facts)

ID_OF = {}     # name of an identity function -> how to rebuild the sequence it names
def seq_of(t):
    """the sequence an identity term names, or None"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = seq_of(t.arg(1)), seq_of(t.arg(2))
        return None if a is None or b is None else site(simp_b(t.arg(0)), a, b)
    r = ID_OF.get(t.decl().name())
    if r is None: return None
    ch = [simp_i(x) if x.sort() == IntS else x for x in t.children()]
    if t.decl().name()[:4] == '#id.': return ssym(r[0], tuple(ch), r[1])
    return Subst(list(zip(r[0], ch))).v(r[1]) if r[0] else r[1]
class QFact:
    perm = False
    """forall j. lo <= j < hi -> body, for all params (owner symbol applied to params)"""
    n = 0
    def __init__(s, owner, params, j, guard, body):
        s.owner = owner; s.params = tuple(params); s.j = j; s.guard = guard; s.body = body
        QFact.n += 1; s.id = QFact.n
        s.trigs = []; s.breaks = []
        seen = set()
        jn = j.decl().name()
        def go(e):
            if not z3.is_expr(e) or tid(e) in seen: return
            seen.add(tid(e))
            if jn not in fvars(e): return
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                for p in range(e.num_args()):
                    a = e.arg(p)
                    if a.sort() == IntS and jn in fvars(a):
                        d, c = lin(simp_i(a))
                        co = d.get(tid(j))
                        if co and co[0] in (1, -1):
                            rest = unlin({k: v for k, v in d.items() if k != tid(j)}, c)
                            if not z3.is_expr(rest) or jn not in fvars(rest):
                                s.trigs.append((e.decl().name(), p, co[0], rest, e))
            if e.num_args() == 2 and e.arg(0).sort() == IntS and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) and len(s.breaks) < 6:
                # where the fact changes its form
                d, c = lin(isub(simp_i(e.arg(0)), simp_i(e.arg(1))))
                co = d.get(tid(j))
                if co and co[0] in (1, -1):
                    rest = unlin({k: v for k, v in d.items() if k != tid(j)}, c)
                    if not z3.is_expr(rest) or jn not in fvars(rest): s.breaks.append(rest if co[0] == -1 else ineg(rest))
            for c in e.children(): go(c)
        go(zb(body))
        # a fact about pairs: what the inner fact speaks of
        for q in QFACTS:
            if q.params and q.owner and q.owner.startswith('qa!') and zb(body).sort() == BoolS:
                for e in owner_apps(zb(body), q.owner):
                    inner = Subst(list(zip(q.params, e.children()))).t(zb(q.body)); go(zb(inner))

def owner_apps(e, nm):
    r = []; st = [e]; seen = set()
    while st:
        x = st.pop()
        if tid(x) in seen: continue
        seen.add(tid(x))
        if z3.is_app(x):
            if x.num_args() and x.decl().name() == nm: r.append(x)
            st.extend(x.children())
    return r
def trim(n):
    QFACTS[n:] = [q for q in QFACTS[n:] if q.perm]
def add_lemma(*a):
    q = QFact(*a); q.perm = True; QFACTS.append(q)
def add_fact(name, params, formula, gen=3):
    if formula is True: return
    FACTS.setdefault(name, []).append((tuple(params), formula, gen))

def _division():
    a, b = z3.Int('div.a'), z3.Int('div.b')
    for o in ('s', 'u'):
        d, m = ufun('arith.%sdiv' % o, (a, b), IntS), ufun('arith.%srem' % o, (a, b), IntS); pos = z3.And(a >= 0, b > 0)
        add_fact('arith.%sdiv' % o, (a, b), z3.Implies(pos, z3.And(d >= 0, d <= a, z3.Implies(a >= b, d >= 1), z3.Implies(a < b, d == 0), d * b <= a, a < d * b + b)))
        add_fact('arith.%srem' % o, (a, b), z3.Implies(pos, z3.And(m >= 0, m < b, m <= a, z3.Implies(a < b, m == a), z3.Implies(z3.And(a >= b, a < 2 * b), m == a - b))))
_division()

PINF = z3.Real('inf.ord')
d_inf = dconst(float('inf')); d_ninf = dconst(float('-inf')); d_nan = dconst(float('nan'))
BIG = z3.RealVal(2 ** 1100)

class Stats:
    queries = 0; time = 0.0; unknown = 0; maxq = 0.0
STATS = Stats()
TIMEOUT = [10000]

DLIFT = {'d.add': dadd, 'd.mul': dmul, 'd.div': ddiv, 'd.neg': dneg}
class Query:
    def __init__(s, forms, rounds=4, maxinst=6000):
        s.forms = []
        s.seen = set()
        s.apps = {}        # name -> list of (app, gen)
        s.dterms = []; s.ideqs = []
        s.done = set()
        s.work = []
        s.rounds = rounds; s.maxinst = maxinst; s.ninst = 0
        s.cands = {}
        for f in forms: s.add(f, 0)
    def add(s, f, gen):
        if f is True: return
        f = zb(f)
        if tid(f) in s.done: return
        s.done.add(tid(f))
        s.forms.append(f)
        s.scan(f, gen)
    def scan(s, f, gen):
        st = [f]
        while st:
            e = st.pop()
            i = tid(e)
            if i in s.seen: continue
            s.seen.add(i)
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.apps.setdefault(e.decl().name(), []).append((e, gen))
                    s.work.append((e, gen))
                elif e.decl().kind() == z3.Z3_OP_EQ and e.arg(0).sort() == Id: s.ideqs.append((e, gen))
                if e.sort() == D: s.dterms.append((e, gen))
                st.extend(e.children())
    def inst(s):
        dpos = 0
        qdone = set()
        for r in range(s.rounds):
            n0 = len(s.forms)
            work, s.work = s.work, []
            for e, gen in work:
                nm = e.decl().name()
                rg = UF_RANGE.get(nm)
                if rg:
                    if rg[0] is not None: s.add(e >= rg[0], gen)
                    if rg[1] is not None: s.add(e <= rg[1], gen)
                sm = SUMNAME.get(nm)
                if sm and gen <= 1:
                    _, params, k, w = sm
                    args = e.children(); n = args[-1]
                    nm1 = isub(simp_i(n), 1)
                    wv = Subst(list(zip(params, args[:-1])) + [(k, nm1)]).t(zi(w))
                    prev = ufun(nm, tuple(args[:-1]) + (nm1,), IntS)
                    s.add(z3.If(zi(n) <= 0, e == 0, e == zi(prev) + zi(wv)), gen + 1)
                for params, f, gl in FACTS.get(nm, ()):
                    if gen > gl: continue
                    s.add(Subst(list(zip(params, e.children()))).t(zb(f)) if params else f, gen + 1)
            ideqs, s.ideqs = s.ideqs, []
            for e, gen in ideqs:
                x, y = seq_of(e.arg(0)), seq_of(e.arg(1))
                if x is not None and y is not None: s.add(bimp(e, icmp_eq(x.len(), y.len())), gen + 1)
            # doubles
            while dpos < len(s.dterms):
                x, gen = s.dterms[dpos]; dpos += 1
                s.dfacts(x, gen)
            s.quant(r, qdone)
            if len(s.forms) == n0 or s.ninst > s.maxinst: break
        if s.dterms:
            s.forms.append(PINF > BIG)
    def dfacts(s, x, gen):
        v = dval(x)
        if v is not None:
            s.add(f_nan(x) == z3.BoolVal(v != v), gen + 1)
            if v == float('inf'): s.add(f_ord(x) == PINF, gen + 1)
            elif v == float('-inf'): s.add(f_ord(x) == -PINF, gen + 1)
            elif v == v: s.add(f_ord(x) == z3.RealVal(str(Fraction(v))), gen + 1)
            # literals are distinct values
            for y, _ in s.dterms:
                if not y.eq(x) and dval(y) is not None: s.add(x != y, gen + 1)
            return
        nm = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
        if nm == 'd.i2d':
            s.add(z3.Not(f_nan(x)), gen + 1); s.add(f_ord(x) == z3.ToReal(x.arg(0)), gen + 1)
            s.add(f_d2i(x) == x.arg(0), gen + 1)
            for y, _ in list(s.dterms):
                m = as_int(y) if dval(y) is not None else None
                if m is not None: s.add((x.arg(0) == m) == (x == y), gen + 1)
            return
        s.add(z3.Or(f_nan(x), z3.And(f_ord(x) <= PINF, f_ord(x) >= -PINF)), gen + 1)
        s.add(z3.Implies(z3.And(z3.Not(f_nan(x)), f_ord(x) == PINF), x == d_inf), gen + 1)
        s.add(z3.Implies(z3.And(z3.Not(f_nan(x)), f_ord(x) == -PINF), x == d_ninf), gen + 1)
        if nm == 'd.neg':
            y = x.arg(0)
            s.add(f_nan(x) == f_nan(y), gen + 1); s.add(f_ord(x) == -f_ord(y), gen + 1)
        if nm in DLIFT and gen <= 2:
            # a conditional argument: the operation on each branch
            f = DLIFT[nm]; ch = x.children()
            for n, a in enumerate(ch):
                if a.decl().kind() == z3.Z3_OP_ITE:
                    c, p, q = a.children()
                    for g, br in ((c, p), (z3.Not(c), q)):
                        s.add(z3.Implies(g, x == f(*(ch[:n] + [br] + ch[n + 1:]))), gen + 1)
                    break
        if nm == 'd.add':
            a, b = x.arg(0), x.arg(1)
            s.add(z3.Implies(z3.And(z3.Not(f_nan(a)), z3.Not(f_nan(b)), f_ord(a) > -PINF, f_ord(b) > -PINF),
                  z3.And(z3.Not(f_nan(x)), z3.Implies(f_ord(b) >= 0, f_ord(x) >= f_ord(a)), z3.Implies(f_ord(a) >= 0, f_ord(x) >= f_ord(b)))), gen + 1)
    def quant(s, r, qdone):
        # candidate index terms
        generic = {}
        for nm, l in list(s.apps.items()):
            if nm.startswith(('K!', 'sk!', 'WF!', 'SEL!')):
                for e, g in l:
                    if g <= 2 and kdepth(e) <= 1:
                        generic[tid(e)] = e
        gl = list(generic.values()) if s.rounds > 2 else []   # only where matching alone did not do
        for q in QFACTS:
            insts = [()]
            if q.params:
                insts = [e.children() for e, g in s.apps.get(q.owner, ()) if g <= 2 and kdepth(e) <= 1]
            elif q.owner and q.owner not in s.apps:
                continue
            for ps in insts:
                S = list(zip(q.params, ps))
                SS = Subst(S) if S else None
                cands = {}
                for nm, p, co, rest, pat in q.trigs:
                    rr = SS.t(rest) if SS else rest
                    for e, g in s.apps.get(nm, ()):
                        if g > 2: continue
                        # other arguments must be syntactically compatible when ground
                        ok = True
                        for pp in range(e.num_args()):
                            if pp == p: continue
                            pa = pat.arg(pp)
                            if q.j.decl().name() in fvars(pa): continue
                            pa = SS.t(pa) if SS else pa
                            if not z3.is_expr(pa): pa = zi(pa) if not isinstance(pa, bool) else zb(pa)
                            if pa.sort() == IntS:
                                dd = icmp_eq(simp_i(pa), simp_i(e.arg(pp)))
                                if dd is False: ok = False; break
                        if not ok: continue
                        t = isub(simp_i(e.arg(p)), rr)
                        if co == -1: t = ineg(t)
                        cands[tid(t)] = t
                for e in gl:
                    # an indexed witness concerns only the instance it is indexed by
                    if e.num_args() and e.decl().name().startswith('K!') and tuple(tid(x) for x in e.children()) != tuple(tid(x) for x in ps): continue
                    cands.setdefault(tid(e), e)
                    t = isub(e, 1); cands.setdefault(tid(t), t)
                if s.rounds > 2:
                    for e in q.breaks:
                        t = SS.t(e) if SS else e; cands.setdefault(tid(t), t)
                cands.setdefault(('I', 0), 0)
                for t in cands.values():
                    key = (q.id, tuple(tid(x) for x in ps), tid(t))
                    if key in qdone: continue
                    qdone.add(key)
                    s.ninst += 1
                    if s.ninst > s.maxinst: return
                    T = Subst(S + [(q.j, t)])
                    s.add(bimp(band(ile(0, t), T.t(q.guard)), T.t(q.body)), r + 1)

_kd = {}
def kdepth(e):
    """nesting depth of indexed witnesses: deeper ones are no candidates"""
    i = tid(e)
    if i not in _kd:
        d = max([kdepth(c) for c in e.children()], default=0) if z3.is_app(e) else 0
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(('K!', 'WF!', 'SEL!')): d += 1
        _kd[i] = d; _kdk.append(e)
    return _kd[i]
_kdk = []
class QuickQuery(Query):
    """only the range and integer-as-double facts: decides most safety obligations"""
    def quant(s, r, qdone): pass
def quick_unsat(forms):
    q = QuickQuery(forms, 1, 600); q.inst()
    s = z3.Solver(); s.set('timeout', 400)
    for f in q.forms: s.add(f)
    return s.check() == z3.unsat
def check(forms, rounds=4, timeout=None, want_model=False):
    """-> ('unsat'|'sat'|'unknown', model)"""
    t0 = time.time()
    for f in forms:
        if f is False: return 'unsat', None
    fs = [f for f in forms if f is not True]
    STATS.queries += 1
    for r in (0, 1, 2, rounds):
        if r == rounds or r < rounds:
            if r == 0:
                if quick_unsat(fs): STATS.time += time.time() - t0; return 'unsat', None
                continue
            q = Query(fs, r)
            q.inst()
            s = z3.Solver()
            s.set('timeout', (timeout or TIMEOUT[0]) if r == rounds else 1500)
            for f in q.forms: s.add(f)
            res = str(s.check())
            if res == 'unsat' or r == rounds: break
    dt = time.time() - t0
    STATS.time += dt; STATS.maxq = max(STATS.maxq, dt)
    if res == 'unknown': STATS.unknown += 1
    check.last = (s, q)
    return res, (s.model() if res == 'sat' and want_model else None)

_pc = {}
def prove(pc, goal, rounds=4, timeout=None):
    """True if pc => goal is valid; False if refuted; None unknown"""
    if goal is True: return True
    key = (tuple(tid(x) for x in pc), tid(goal), tuple(q.id for q in QFACTS[-3:]), len(QFACTS))
    if key in _pc: return True
    key2 = key + (rounds,)
    if key2 in _pc: return _pc[key2]
    r, _ = check(list(pc) + [bnot(goal)], rounds, timeout)
    v = {'unsat': True, 'sat': False, 'unknown': None}[r]
    if v: _pc[key] = v
    else: _pc[key2] = v
    return v
