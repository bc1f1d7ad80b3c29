import os
import ctx
"""Loops: complete unrolling when the number of iterations is concrete, otherwise an inferred
closed-form loop invariant  mem(k) = model(k)  (k = number of completed iterations), checked
inductively: the models hold at k = 0 and the body takes model(k) to model(k+1).
Nothing is bounded: the summary is valid for every number of iterations K >= 0."""
import re, z3
from val import *
import val, smt
from smt import add_fact, QFact

def merge_states(x):
    import exec as E_
    return E_.merge_states(x)
def subst_conds(S, l): return tuple(x[:-1] + (S.t(x[-1]) if z3.is_expr(x[-1]) else x[-1],) for x in l)
def join_sect(a, b):
    have = {x[:-1] for x in b}
    return tuple(x for x in a if x[:-1] not in have) + b

class Unsolved(ToolLimit): pass

# ---- locations: (root, steps, off, kind);  steps = ((off, ckind, idx), ...)
def oget(o, steps, off, kind):
    for so, ck, ix in steps:
        o = o.read(so, ck)
        if o is UNDEF: return UNDEF
        o = o.at(ix)
    if kind == 'obj': return o
    return o.read(off, kind)
def oset(o, steps, off, kind, v):
    if not steps:
        if kind == 'obj': return v
        if v is UNDEF: return o.fill(off, ksize(kind), 'und')
        return o.write(off, kind, v)
    so, ck, ix = steps[0]
    seq = o.read(so, ck)
    return o.write(so, ck, supd(seq, ix, oset(seq.at(ix), steps[1:], off, kind, v)))

def upd_chain(b, a):
    """b as a chain of updates over a -> list of indices or None"""
    idx = []
    while b is not a:
        if not isinstance(b, SUpd): return None
        idx.append(b.i); b = b.s
    return idx

def diff_obj(a, b, steps, out, inv):
    if a is b: return
    if not isinstance(a, Obj) or not isinstance(b, Obj):
        out.append((steps, 0, 'obj')); return
    if a.base is not b.base:
        out.append((steps, 0, 'obj')); return
    for o in sorted(set(a.over) | set(b.over)):
        ea, eb = a.over.get(o), b.over.get(o)
        if ea is not None and eb is not None and ea[0] == eb[0] and same(ea[1], eb[1]): continue
        kb = eb[0] if eb else None
        ka = ea[0] if ea else None
        if kb in ('view',) :
            out.append((steps, 0, 'obj')); return
        if kb in ('zero', 'und', None):
            if ka in ('zero', 'und', 'view', None):
                if ka == kb or kb is None or ka is None: continue
                out.append((steps, 0, 'obj')); return
            k = ka
        else: k = kb
        if ka is not None and kb is not None and ka != kb and ka not in ('zero', 'und', 'view') and kb not in ('zero', 'und'):
            if {ka, kb} != {'i1', 'i8'}:
                # a buffer whose representation changes (union of views): give up on the object
                out.append((steps, 0, 'obj')); return
        try:
            va, vb = a.read(o, k), b.read(o, k)
        except ToolLimit:
            out.append((steps, 0, 'obj')); return
        if same(va, vb): continue
        if isinstance(va, Seq) and isinstance(vb, Seq):
            diff_seq(va, vb, steps, o, k, out, inv)
        else:
            out.append((steps, o, k))

def diff_seq(va, vb, steps, o, k, out, inv):
    ch = upd_chain(vb, va)
    if ch is not None and k != 'sc' and all(inv(i) for i in ch):
        n0 = len(out)
        seen = set()
        for i in ch:
            if tid(i) in seen: continue
            seen.add(tid(i))
            diff_obj(va.at(i), vb.at(i), steps + ((o, k, i),), out, inv)
        return
    # merged updates of the same elements
    if k != 'sc' and isinstance(vb, SIte):
        pass
    out.append((steps, o, k))

class Leaf:

    __slots__ = ('loc', 'x0', 'u', 'name', 'model', 'cls', 'step', 'order', 'grow')

def leafval(E, lf):
    root, steps, off, kind = lf.loc
    v = oget(E.mem[root], steps, off, kind)
    x0 = lf.x0
    if z3.is_expr(x0) and z3.is_expr(v) and not same(v, x0) and ctx.has_ite(x0) and same(ctx.Ctx(E.pc).t(x0), v): return x0
    return v

_folds = {}
def fold_fn(x0, E, u, k, n_term, extra_guard=None):
    """canonical recursive function: f(0)=x0, f(n+1)=E[u:=f(n), k:=n]; returns f(n_term)"""
    sort = x0.sort() if z3.is_expr(x0) else (BoolS if isinstance(x0, bool) else IntS)
    SELF = z3.Const('fold!self', sort)
    b0 = z3.Const('b!0', IntS)
    EE = zi(E) if sort == IntS else zb(E) if sort == BoolS else E
    EE = z3.substitute(EE, (u, SELF))
    EE = z3.substitute(EE, (k, b0))
    if k.decl().name() in fvars(EE): raise ToolLimit('fold')
    args, canon = [], []
    for x in occ_order(EE):
        if x != 'b!0':
            args.append(z3.Const(x, IntS)); canon.append(z3.Const('q!%d' % len(canon), IntS))
    if args: EE = z3.substitute(EE, *list(zip(args, canon)))
    # the same step is the same function however its terms were put in order
    EE = renorm(EE); EE = zi(EE) if sort == IntS else zb(EE) if sort == BoolS else EE
    key = (tid(EE), sort.name())
    if key not in _folds:
        nm = 'fold!%d' % len(_folds)
        _folds[key] = nm
        n = z3.Const('q!n', IntS); x = z3.Const('q!x', sort)
        f = ufun(nm, tuple(canon) + (x, n), sort)
        pm = isub(n, 1)
        prev = ufun(nm, tuple(canon) + (x, pm), sort)
        body = z3.substitute(EE, (SELF, prev), (b0, zi(pm)))
        add_fact(nm, tuple(canon) + (x, n), z3.If(n <= 0, f == x, f == body), 1)
        FOLDS[nm] = (canon, x, n, EE, SELF, b0)
        last_match(nm, tuple(canon), x, n, EE, SELF, b0, f)
        if sort == IntS:
            lo, hi = fold_range(EE, SELF)
            FOLD_LB[nm] = (lo, hi)
    nm = _folds[key]
    x0z = x0 if z3.is_expr(x0) else (zb(x0) if sort == BoolS else zi(x0))
    return ufun(nm, tuple(args) + (x0z, n_term), sort)
def last_match(nm, canon, x, n, EE, SELF, b0, f):
    """f(n) = c(j) ? e(j) : previous -- the value is the initial one if no c(j) holds, else e at the last such j"""
    c = e = None
    if not z3.is_app(EE): return
    if EE.decl().kind() == z3.Z3_OP_ITE:
        def tree(y):   # (condition under which the value changes, the new value)
            if y.eq(SELF): return False, None
            if y.decl().kind() == z3.Z3_OP_ITE:
                g, p, q = y.children(); (cp, ep), (cq, eq) = tree(p), tree(q)
                return biteb(g, cp, cq), (ep if eq is None else eq if ep is None else z3.If(g, ep, eq))
            return True, y
        c, e = tree(EE)
        if e is None or isinstance(c, bool): return
    elif z3.is_or(EE) or z3.is_and(EE):
        rest = [y for y in EE.children() if not y.eq(SELF)]
        if len(rest) == EE.num_args() - 1:
            c = zb(bor(*rest)) if z3.is_or(EE) else z3.Not(zb(band(*rest))); e = z3.BoolVal(z3.is_or(EE))
    if c is None or any(uses(y, SELF) for y in (c, e)): return
    wn = 'WF!' + nm[5:]; ps = canon + (x, n); j = z3.Const('q!j', IntS)
    w = ufun(wn, ps, IntS)
    at = lambda y, i: z3.substitute(y, (b0, zi(i)))
    add_fact(nm, ps, z3.Or(z3.And(w == -1, f == x), z3.And(w >= 0, w < n, at(c, w), f == at(e, w))), 2)
    smt.add_lemma(nm, ps, j, band(ile(0, j), ilt(w, j), ilt(j, n)), bnot(renorm(at(c, j))))
def uses(y, x):
    st, seen = [y], set()
    while st:
        a = st.pop()
        if a.eq(x): return True
        if a.get_id() in seen: continue
        seen.add(a.get_id()); st.extend(a.children())
    return False
FOLDS = {}; FOLD_LB = {}
def fold_range(E, SELF):
    return None, None

def strip_eq(name):
    m = re.match(r'h!(\d+)\.(\d+)', name)
    return (int(m.group(1)), int(m.group(2))) if m else None

def local_names(fn, params=False):
    """(register, name) of the variables of a function, from its debug information"""
    r = []
    for m in re.finditer(r'@llvm\.dbg\.declare\(metadata ptr (%[\w.$-]+), metadata (!\d+)', fn.text if isinstance(fn.text, str) else '\n'.join(fn.text)):
        d = fn.mod.meta.get(m.group(2)[1:], '')
        nm = re.search(r'name: "([^"]+)"', str(d)); ar = re.search(r'arg: (\d+)', str(d))
        if nm: r.append((m.group(1)[1:], nm.group(1), int(ar.group(1)) if ar else 0))
    if params: return [(a, b) for a, b, c in sorted((x for x in r if x[2]), key=lambda x: x[2])]
    return [(a, b) for a, b, c in r]

class LoopMixin:
    UNROLL = 300
    def loop(self, fr, L, st):
        iv = self.loop_inv(fr, L)
        if iv is not None: return self.by_invariant(fr, L, st, iv)
        snap = (len(self.obls), len(smt.QFACTS), self.nroot, Amb.n)
        S0 = st.copy()
        r = None
        try:
            r = self.unroll(fr, L, st)
        except UnrollAbort:
            r = None
        if r is not None: return r
        del self.obls[snap[0]:]; smt.trim(snap[1])
        return self.summarise(fr, L, S0)

    # ---- loops with a stated invariant: a function __inv_<n>_<mangled> in the contract file, n the place of the loop
    # in the function. Its parameters are the function's variables, by name; mode 0 makes the rest of the state
    # arbitrary, 1 shows the invariant, 2 assumes it.
    def loop_inv(self, fr, L):
        if not any(x.startswith('__inv_') and x.endswith('_' + fr.fn.name) for x in self.invs): return None
        order = sorted(fr.loops, key=lambda h: fr.num[h])
        mine = [x for x in self.invs if x.endswith('_' + fr.fn.name) and x.startswith('__inv_%d' % order.index(L.header))]
        want = len([x for x in self.invs if x.startswith('__inv_') and x.endswith('_' + fr.fn.name)])
        if want != len(order): raise ToolLimit('the loop invariants are stated for another form of this function')
        return self.invs[mine[0]]
    def by_invariant(self, fr, L, S0, iv):
        self.used_inv.add(iv.name)
        where = self.where()
        here = local_names(fr.fn); pars = local_names(iv, True)
        by = {}
        for reg, nm in here: by.setdefault(nm, []).append(reg)
        args = []
        for nm in [x[1] for x in pars][1:]:
            n2 = {'self': 'this'}.get(nm, nm)
            if n2 not in by or len(by[n2]) != 1: raise ToolLimit('the loop invariant speaks of a variable %s' % nm)
            args.append((nm, by[n2][0]))
        def say(st, mode):
            vs = [mode]
            for nm, reg in args:
                p = st.regs.get(reg)
                if not isinstance(p, Ptr): raise ToolLimit('the loop invariant speaks of a variable %s' % nm)
                vs.append(self.get_obj(st, p).read(p.off, 'p') if nm == 'self' else p)
            regs = dict(st.regs)
            normal, exc = self.call(st, iv, vs)
            if exc is not None or normal is None: raise ToolLimit('the loop invariant at %s does not return' % where)
            normal[0].regs = regs
            return normal[0]
        local = {S0.regs[r].root for r in L.local if isinstance(S0.regs.get(r), Ptr)}
        S0 = say(S0, 1)
        frame = set(fr.allocas)
        W = []
        def head():
            H = S0.copy()
            for r in local:
                if r in H.mem: H.mem[r] = mkobj({}, None)
            old = HV[0]; HV[0] = 'hv!'
            try:
                for root, off, kind in W: H.mem[root] = oset(H.mem[root], (), off, kind, arbitrary(kind))
                H = say(H, 0)
            finally: HV[0] = old
            H.regs = dict(S0.regs)
            M = dict(H.mem)
            return say(H, 2), M
        def arbitrary(kind):
            if kind == 'd': return fresh('hv!', D)
            if kind[0] == 'i':
                if kind == 'i1': return fresh('hv!', BoolS)
                return fresh('hv!', IntS, krange(kind) or (0, None))
            raise ToolLimit('loop at %s: a %s changes and the invariant does not speak of it' % (where, kind))
        for rnd in range(40):
            q0 = len(smt.QFACTS); self.mute += 1
            try:
                H, M = head()
                hmem = dict(H.mem)
                be, exits, rets, excs = self.region(fr, L.header, H.copy(), L)
                E = merge_states(be) if be else None
            finally:
                self.mute -= 1; smt.trim(q0)
            if E is None: break
            new = False
            for root, ob in hmem.items():
                if root in local: continue
                oe = E.mem.get(root)
                if oe is ob: continue
                if not isinstance(ob, Obj) or not isinstance(oe, Obj): raise ToolLimit('object dies in a loop')
                out = []
                diff_obj(ob, oe, (), out, lambda i: True)
                for steps, off, kind in out:
                    if root in frame and not steps and kind != 'obj':
                        if (root, off, kind) not in W: W.append((root, off, kind)); new = True
                        continue
                    # the invariant must have made it arbitrary
                    o0 = S0.mem.get(root)
                    d0 = []
                    if isinstance(o0, Obj): diff_obj(o0, M[root], (), d0, lambda i: True)
                    if not any(x[0] == steps[:len(x[0])] and (x[2] == 'obj' or x[1] == off if len(x[0]) == len(steps) else x[1] == steps[len(x[0])][0]) for x in d0):
                        raise ToolLimit('loop at %s: the invariant does not account for a change of %s' % (where, self.locname((root, steps, off, kind))))
            late = [r for r in E.mem if r not in hmem and (r == 'HEAP' or r[0] == 'g')]
            if late:
                for r in late: self.root_obj(S0, r)
                new = True
            if not new: break
        else: raise ToolLimit('loop at %s: its effects are not found' % where)
        H, M = head()
        hl = H.locks
        be, exits, rets, excs = self.region(fr, L.header, H, L)
        if be:
            E = merge_states(be)
            if E.locks != hl: raise self.LockErr('a lock is acquired or released across loop iterations')
            try: say(E, 1)
            except ToolLimit: raise
        self.loops_done[(fr.fn.name, L.header)] = (where, len(W))
        return exits, rets, excs

    def unroll(self, fr, L, st):
        cur = st; exits, rets, excs = [], [], []
        tests = set(L.tests)
        for it in range(self.UNROLL):
            fr.decided -= tests
            be, ex, rt, xc = self.region(fr, L.header, cur, L)
            exits += ex; rets += rt; excs += xc
            if not be:
                return exits, rets, excs
            if not (fr.decided & tests): raise UnrollAbort()
            cur = merge_states(be)
            cur.regs = dict(cur.regs)
        raise UnrollAbort()

    def summarise(self, fr, L, S0):
        n = uid()
        self.lstack.append(n)
        k = z3.Const('k!%d' % n, IntS); UF_RANGE['k!%d' % n] = (0, None)
        UF_RANGE['K!%d' % n] = (0, None)
        K = ufun('K!%d' % n, amb(), IntS)
        ambout = amb()
        local = set()
        for r in L.local:
            p = S0.regs.get(r)
            if isinstance(p, Ptr): local.add(p.root)
        leaves = []         # Leaf in order of discovery
        byloc = {}
        base = Amb.n; broot = self.nroot
        where = self.where()
        ukpre = 'h!%d.' % n
        def is_unk(nm): return nm.startswith(ukpre)
        def unk_of(v):
            r = set()
            for nm in vars_of(v, ufuns):
                if nm.startswith(ukpre): r.add(int(re.match(r'h!\d+\.(\d+)', nm).group(1)))
            return r
        def inv(i):
            return is_c(i) or (k.decl().name() not in fvars(i) and not any(is_unk(x) or x in self.passnames for x in ufuns(i)))
        def header():
            H = S0.copy()
            for r in local:
                if r in H.mem: H.mem[r] = mkobj({}, None)
            for lf in leaves:
                root, steps, off, kind = lf.loc
                v = lf.model if lf.model is not None else lf.u
                H.mem[root] = oset(H.mem[root], steps, off, kind, v)
            H.pc = S0.pc
            H.assume(ile(k, K))
            if hint[0] is not None: H.assume(ile(k, hint[0]))
            return H
        hint = [None]
        def run(mute):
            Amb.n = base; self.nroot = broot
            self.passnames = set()
            q0 = len(smt.QFACTS)
            Amb.stack.append(k)
            if mute: self.mute += 1
            try:
                H = header()
                hpc = len(H.pc)
                hmem = dict(H.mem)
                hlocks, hfreed = H.locks, H.freed
                be, exits, rets, excs = self.region(fr, L.header, H, L)
                E = merge_states(be) if be else None
                if E is not None: ctx.simplify_state(E, hmem)
            finally:
                Amb.stack.pop()
                if mute:
                    self.mute -= 1
                    smt.trim(q0)
            if E is not None:
                if [(x[0], x[2]) for x in E.locks] != [(x[0], x[2]) for x in hlocks]: raise self.LockErr('a lock is acquired or released across loop iterations')
                if set(E.freed) - set(hfreed): raise ToolLimit('objects freed in a loop')
            return hmem, hpc, E, exits, rets, excs
        def mkunk(lf, v1):
            """opaque value for a loop-carried leaf"""
            j = leaves.index(lf)
            kind = lf.loc[3]; x0 = lf.x0
            nm = ukpre + str(j)
            ix = ambout + (k,)
            if kind == 'd': return ufun(nm, ix, D)
            if kind[0] == 'i':
                if kind in ('i1', 'i8') and isbool(x0) and isbool(v1):
                    pass
                r = krange(kind)
                nm2 = nm + ':' + kind
                if r: UF_RANGE[nm2] = r
                return ufun(nm2, ix, IntS)
            if kind == 'p':
                a, b = x0, v1
                if b is UNDEF or a is UNDEF: return None
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.root is not None and len(a.hops) == len(b.hops) and a.off == b.off:
                    hs = []
                    for c, (x, y) in enumerate(zip(a.hops, b.hops)):
                        if x[0] != y[0] or x[2] != y[2]: return None
                        if same(x[1], y[1]): hs.append(x)
                        else: hs.append((x[0], ufun('%s:p%d' % (nm, c), ix, IntS), x[2], x[3]))
                    return mkptr(a.root, tuple(hs), a.off)
                ra, rb = heap_ref(a), heap_ref(b)
                if ra is not None and rb is not None:
                    UF_RANGE[nm + ':ref'] = (0, None)
                    return heap_ptr(ufun(nm + ':ref', ix, IntS))
                return None
            if kind == 'sc': return sunk(nm, ix, 'c')
            if kind[:2] == 'so': return sunk(nm, ix, kind)
            return None
        final = None
        K1 = [(k, isub(k, 1))]
        def prev(v): return Subst(K1).v(v)
        for rnd in range(24):
            hmem, hpc, E, exits, rets, excs = run(True)
            if E is None: break
            # shared memory first touched inside the loop exists before it
            late = [r for r in E.mem if r not in S0.mem and (r == 'HEAP' or r[0] == 'g')]
            if late:
                for r in late: self.root_obj(S0, r)
                continue
            new = False
            for root, ob in hmem.items():
                if root in local: continue
                oe = E.mem.get(root)
                if oe is ob: continue
                if oe is None or not isinstance(oe, Obj):
                    if isinstance(ob, str): continue
                    raise ToolLimit('object dies in a loop')
                if not isinstance(ob, Obj): raise ToolLimit('object revived in a loop')
                out = []
                diff_obj(ob, oe, (), out, inv)
                for steps, off, kind in out:
                    loc = (root, tuple((a, b, c) for a, b, c in steps), off, kind)
                    key = (root, tuple((a, b, tid(c)) for a, b, c in steps), off, kind)
                    if os.environ.get('VLP') and kind == 'obj': print('OBJ', str(ob)[:300], '\n ', str(oe)[:300])
                    if key in byloc: continue
                    # a finer or coarser location already tracked?
                    for k2, l2 in list(byloc.items()):
                        if k2[0] == root and k2[1][:len(key[1])] == key[1] and (kind == 'obj' or (kind[:1] == 's' and len(k2[1]) > len(key[1]) and k2[1][len(key[1])][0] == off)):
                            leaves.remove(l2); del byloc[k2]
                    lf = Leaf(); lf.loc = loc; lf.model = None; lf.cls = None; lf.step = None
                    lf.x0 = oget(S0.mem[root], loc[1], off, kind)
                    if os.environ.get('VLP'): print('LEAF', where, self.locname(loc), '\n   x0', str(lf.x0)[:600], '\n   v1', str(oget(oe, loc[1], off, kind))[:600])
                    lf.grow = None
                    if kind[0] == 's' and isinstance(lf.x0, Seq):
                        v1 = oget(oe, loc[1], off, kind)
                        if isinstance(v1, Seq) and isinstance(isub(v1.len(), lf.x0.len()), int): lf.grow = (lf.x0.len(), isub(v1.len(), lf.x0.len()))
                    leaves.append(lf); byloc[key] = lf; new = True
                    lf.order = 0
            if new:
                # restart the analysis of every leaf with opaque values
                for lf in leaves:
                    lf.model = None; lf.cls = None
                for lf in leaves:
                    root, steps, off, kind = lf.loc
                    v1 = oget(E.mem[root], steps, off, kind)
                    lf.u = mkunk(lf, v1)
                    if lf.u is None: lf.u = lf.x0 if lf.x0 is not UNDEF else v1; lf.cls = 'guess'
                continue
            # solve
            progress = False; pendn = 0
            unsolved = [lf for lf in leaves if lf.model is None]
            fresh_stale = False
            ev = {}
            for lf in leaves:
                root, steps, off, kind = lf.loc
                ev[id(lf)] = leafval(E, lf)
            # pointers whose shape was not known at first
            for lf in unsolved:
                j = leaves.index(lf)
                v = ev[id(lf)]
                deps = {leaves[d] for d in unk_of(v) if d < len(leaves) and leaves[d].model is None}
                # other loop-carried leaves read by this one must be solved first
                if deps - {lf}: continue
                m = self.solve(lf, v, k, lf in deps, prev)
                if m is None: continue
                lf.model = m; progress = True
            if unsolved:
                if progress: continue
                # uninitialised before the loop: forget the value an iteration leaves (any use at the next one is of an arbitrary value)
                dead = [lf for lf in unsolved if lf.x0 is UNDEF and (lf.loc[3] == 'p' or lf.loc[3] != 'obj' and lf.cls != 'guess')]
                if dead:
                    for lf in dead:
                        lf.model = mkptr(('forgotten', uid())) if lf.loc[3] == 'p' else lf.u; lf.cls = 'dead'
                    continue
                # a sequence that grew by a fixed amount: guess that it always does
                grown = [lf for lf in unsolved if lf.grow is not None and isinstance(lf.u, SUnk) and lf.u.name not in val.UNKLEN]
                if grown:
                    for lf in grown: val.UNKLEN[lf.u.name] = lf.grow
                    continue
                # mutual recursion between scalars: keep them as functions defined by unfolding
                if not self.solve_system(unsolved, ev, k, ambout, K):
                    raise ToolLimit('loop at %s: cannot infer a closed form for %s' % (where, [self.locname(lf.loc) for lf in unsolved][:4]))
                continue
            # all solved: check that the body takes model(k) to model(k+1)
            bad = []
            newroots = {r for r in E.mem if r not in hmem and r not in local}
            stale = [lf for lf in leaves if lf.x0 is UNDEF and lf.cls != 'dead' and lf.loc[3] == 'p' and newroots & vroots(ev[id(lf)])]
            if stale:   # a pointer to an object of the iteration, uninitialised before the loop
                for lf in stale: lf.model = mkptr(('forgotten', uid())); lf.cls = 'dead'
                continue
            for lf in leaves:
                v = ev[id(lf)]
                if not self.step_ok(lf, v, k): bad.append((lf, v))
            if bad:
                for lf, v in bad:
                    if os.environ.get('VIN'): print('NOTIND', where, self.locname(lf.loc), 'order', lf.order, 'X0', lf.x0, lf.cls, '\nMODEL', lf.model, '\nSTEP', v)
                    if lf.loc[3] == 'obj' and isinstance(lf.x0, Obj) and lf.x0.base is None and not lf.x0.over:
                        lf.model = lf.x0; lf.cls = 'dead'   # uninitialised before the loop: what an iteration leaves is not used
                        continue
                    if lf.order > 3: raise ToolLimit('loop at %s: invariant for %s is not inductive%s' % (where, self.locname(lf.loc), ' MODEL %s STEP %s' % (lf.model, v) if os.environ.get('VIN') else ''))
                    lf.order += 1
                    m = self.resolve(lf, v, k, prev)
                    if m is None: raise ToolLimit('loop at %s: invariant for %s is not inductive%s' % (where, self.locname(lf.loc), ' MODEL %s STEP %s' % (lf.model, v) if os.environ.get('VIN') else ''))
                    lf.model = m
                continue
            break
        else:
            raise ToolLimit('loop at %s: invariant inference does not converge' % where)
        if E is not None:
            for lit in E.pc[hpc:]:
                nb = self.count_bound(lit, k)
                if nb is not None and self.nonneg(S0, nb): hint[0] = nb; break
        # final pass: generates the obligations of an arbitrary iteration
        hmem, hpc, E, exits, rets, excs = run(self.mute > 0)
        self.lstack.pop()
        if E is not None:
            for root, o in E.mem.items():
                if root not in hmem and isinstance(o, Obj): pass
            newroots = {r for r in E.mem if r not in hmem and r not in local}
            for lf in leaves:
                v = leafval(E, lf)
                if lf.cls != 'dead' and newroots & vroots(v): raise ToolLimit('loop at %s: allocation escapes the iteration (%s %s %s)' % (where, self.locname(lf.loc), lf.cls, v))
                if not self.step_ok(lf, v, k): raise ToolLimit('loop at %s: invariant check failed for %s' % (where, self.locname(lf.loc)))
            cont = band(*E.pc[hpc:])
        else:
            cont = False
        self.loops_done[(fr.fn.name, L.header)] = (where, len(leaves))
        sect = tuple(x[:-1] + (True,) for x in E.sect if x not in S0.sect) if E is not None else ()     # any iteration may have accessed it
        # mutexes released and taken again by an iteration
        relock = {x[0] for x, y in zip(S0.locks, E.locks) if x[1] != y[1]} if E is not None else set()
        if any(x[1] not in [e[1] for e in S0.locks] or x[0] in relock for x in sect):
            # a section entered inside the loop is a different one in each iteration
            s2 = S0.copy()
            try:
                if s2.assume(ile(2, K)): self.oblige(s2, False, 'one critical section per operation on %s' % sect[0][2], 'lock')
            except Dead: pass
        # closed form of the iteration count
        kname = k.decl().name()
        bound = None
        if E is not None:
            for lit in E.pc[hpc:]:
                nb = self.count_bound(lit, k)
                if nb is not None and self.nonneg(S0, nb):
                    bound = nb; break
        bodyc = []
        triv = True
        if E is not None:
            for lit in E.pc[hpc:]:
                if bound is not None and self.count_bound(lit, k) is not None and same(self.count_bound(lit, k), bound): continue
                if kname in fvars(zb(lit)):
                    bodyc.append(lit)
            if bodyc:
                smt.QFACTS.append(QFact('K!%d' % n, ambout, k, band(ile(0, k), ilt(k, K)), band(*bodyc)))
        outs = [[], [], []]
        for s in [x[2] for x in exits] + [x[0] for x in rets]: ctx.simplify_state(s, hmem)
        def fin(s, v=None):
            """the exit is taken at iteration k = K"""
            lits = s.pc[hpc:]
            val = K; closed = False
            if bound is not None:
                nl = bnot(ilt(k, bound))
                if any(same(x, nl) for x in lits): val = bound; closed = True
            S = Subst([(k, val)])
            s2 = s.copy()
            s2.pc = S0.pc
            for r, o in s.mem.items():
                if isinstance(o, Node): s2.mem[r] = S.v(o)
            s2.regs = {r: S.v(x) for r, x in s.regs.items()}
            if s.exc is not None: s2.exc = tuple((S.t(c) if z3.is_expr(c) else c, t, S.v(p)) for c, t, p in s.exc)
            s2.locks = subst_conds(S, tuple((x[0], uid() if x[0] in relock else x[1], x[2]) for x in s.locks)); s2.sect = join_sect(subst_conds(S, s.sect), sect)
            s2.log_subst(S) if hasattr(s2, 'log_subst') else None
            if closed:
                if not isinstance(bound, int) or bodyc:
                    if bodyc: s2.assume(icmp_eq(K, bound) if not bodyc else zi(K) == zi(bound))
            else:
                if bound is not None: s2.assume(ile(K, bound))
            for x in lits:
                if not s2.assume(S.t(x) if z3.is_expr(x) else x): return None
            if not closed and not any(x.startswith('K!%d' % n) for y in s2.pc for x in ufuns(y)):
                s2.assume(zi(K) >= 0)
            return s2, S.v(v)
        for tgt, pred, s in exits:
            r = fin(s)
            if r: outs[0].append((tgt, pred, r[0]))
        for s, v in rets:
            r = fin(s, v)
            if r: outs[1].append(r)
        for s in excs:
            r = fin(s)
            if r: outs[2].append(r[0])
        return outs

    def locname(self, loc):
        return '%s%s+%s:%s' % (loc[0][-1] if isinstance(loc[0], tuple) else loc[0], ''.join('.%d[%s]' % (a, str(c)[:40]) for a, b, c in loc[1]), loc[2], loc[3])

    def count_bound(self, lit, k):
        """n if lit says k < n with n independent of k"""
        kn = k.decl().name()
        if not z3.is_expr(lit): return None
        neg = z3.is_not(lit)
        a = lit.arg(0) if neg else lit
        kk = a.decl().kind()
        if kk in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and a.arg(0).sort() == IntS:
            x, y = simp_i(a.arg(0)), simp_i(a.arg(1))
            if kk in (z3.Z3_OP_GE, z3.Z3_OP_GT): x, y = y, x
            strict = kk in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            # x <= y or x < y ; negation: y < x or y <= x
            if neg: x, y, strict = y, x, not strict
            # x (<|<=) y  ==> d = y - x (>|>=) 0
            d, c = lin(isub(y, x))
            if not strict: c += 1     # d >= 0  <=> d + 1 > 0
        elif neg and kk == z3.Z3_OP_EQ and a.arg(0).sort() == IntS:
            # k != n with k counting up from below n
            d, c = lin(isub(simp_i(a.arg(1)), simp_i(a.arg(0))))
            co = d.get(tid(k))
            if co and co[0] == 1: d = {i: (-x, t) for i, (x, t) in d.items()}; c = -c
        else: return None
        co = d.get(tid(k))
        if co is None: return None
        rest = {i: x for i, x in d.items() if i != tid(k)}
        r = unlin(rest, c)
        if z3.is_expr(r) and kn in fvars(r): return None
        if co[0] == -1: return r
        if co[0] < -1:
            m = -co[0]
            return idiv(iadd(r, m - 1), m)
        return None
    def nonneg(self, st, e):
        lo, hi = rng(e)
        if lo is not None and lo >= 0: return True
        return smt.prove(st.pc, ile(0, e)) is True

    # ---- recurrences
    def solve(self, lf, v, k, selfdep, prev):
        kind = lf.loc[3]; x0 = lf.x0; u = lf.u
        kn = k.decl().name()
        if lf.cls == 'guess':
            # last assigned value (no dependence on the previous one is possible)
            m = v if x0 is UNDEF and kn not in vars_of(v, fvars) else self.last(x0, v, k, prev)
            lf.cls = 'last'; lf.step = v
            return m
        if not selfdep:
            lf.cls = 'last'; lf.step = v
            if v is UNDEF: return UNDEF if x0 is UNDEF else None
            return self.last(x0, v, k, prev)
        if x0 is UNDEF: return None
        if kind[0] == 'i':
            d = int_delta(v, u)
            un = u.decl().name()
            if d is not None and (is_c(d) or un not in ufuns(d)):
                lf.cls = 'sum'; lf.step = d
                if is_c(d) or kn not in fvars(d): return iadd(x0, imul(d, k)) if is_c(d) else iadd(x0, z3.simplify(d * k))
                return iadd(x0, sum_term(k, k, d))
            lf.cls = 'fold'; lf.step = v
            m = self.search_fold(lf, v, k)
            if m is not None: return m
            r = fold_fn(x0, v, u, k, k)
            return r
        if kind == 'd':
            lf.cls = 'fold'; lf.step = v
            return fold_fn(x0, v, u, k, k)
        if kind == 'p':
            if not isinstance(v, (Ptr,)) or len(v.hops) != len(u.hops): return None
            hs = []
            for a, b, c in zip(x0.hops, u.hops, v.hops):
                if same(b[1], c[1]): hs.append(b); continue
                d = isub(c[1], b[1])
                if is_c(d) or (b[1].decl().name() not in ufuns(d) and kn not in fvars(d)):
                    hs.append((b[0], iadd(a[1], imul(d, k) if is_c(d) else z3.simplify(d * k)), b[2], b[3]))
                else:
                    hs.append((b[0], fold_fn(a[1], c[1], b[1], k, k), b[2], b[3]))
            lf.cls = 'ptr'; lf.step = v
            if x0.root == 'HEAP' and len(hs) == 1 and hs[0][2] is None: return heap_ptr(hs[0][1])
            return mkptr(u.root, tuple(hs), u.off)
        if isinstance(v, Seq):
            ps = v.pieces()
            un = u.name
            if ps and ps[0] is u:
                A = scat(ps[1:])
                if un not in vars_of(A, ufuns):
                    lf.cls = 'app'; lf.step = A
                    return scat([x0, sflat(k, k, A)])
            if ps and ps[-1] is u and len(ps) > 1:
                A = scat(ps[:-1])
                if un not in vars_of(A, ufuns):
                    lf.cls = 'pre'; lf.step = A
                    kk = z3.Const('b!900', IntS)
                    rev = sflat(k, kk, Subst([(k, isub(isub(k, 1), kk))]).v(A))
                    return scat([rev, x0])
            # pointwise update
            r = self.pointwise(lf, v, u, x0, k)
            if r is not None: return r
        return None
    def search_fold(self, lf, v, k):
        return None
    def last(self, x0, v, k, prev):
        if x0 is UNDEF: return prev(v)
        p = prev(v)
        if same(p, x0): return x0
        try:
            if same(Subst([(k, 0)]).v(p), x0): return p
        except ToolLimit: pass
        return vite(icmp_eq(k, 0), x0, p)
    def pointwise(self, lf, v, u, x0, k):
        if not isinstance(v, SUpd): return None
        if v.s is not u: return None
        i, e = v.i, v.e
        un = u.name
        if un in ufuns(zi(i)): return None
        c = isub(i, k)
        kn = k.decl().name()
        if z3.is_expr(c) and kn in fvars(c):
            return None
        # the new element may read only the element itself
        at = u.at(i)
        at0 = x0.at(i)
        e2 = repl_elem(e, un, u, i, x0)
        if e2 is None or un in vars_of(e2, ufuns): return None
        lf.cls = 'pt'; lf.step = e2
        b = z3.Const('b!901', IntS)
        j = isub(b, c)
        ej = Subst([(k, j)]).v(e2)
        el = vite(band(ile(0, j), ilt(j, k)), ej, x0.at(b))
        return sfn(x0.len(), b, el)
    def resolve(self, lf, v, k, prev):
        if lf.cls == 'last': lf.step = v; return self.last(lf.x0, v, k, prev)
        if lf.cls == 'app':
            mp = lf.model.pieces(); ps = v.pieces()
            x0 = lf.x0
            h = scat([x0, sflat(k, k, lf.step)]).pieces()
            if tuple(ps[:len(h)]) == tuple(h):
                lf.step = scat(ps[len(h):])
                return scat([x0, sflat(k, k, lf.step)])
        return None
    def step_ok(self, lf, v, k):
        """the value after the body is the model at k+1"""
        c = lf.cls
        if c == 'dead': return True
        if c == 'last': return same(v, lf.step)
        if lf.kindfresh if hasattr(lf, 'kindfresh') else False: return False
        if c == 'app':
            A = lf.step
            exp = scat([lf.model, A])
            return exp is v
        if c == 'pre':
            return scat([lf.step, lf.model]) is v or not has_fresh(lf.step, self.passbase(k))
        if c == 'sum':
            d = int_delta(v, lf.model) if z3.is_expr(lf.model) else isub(v, lf.model)
            if d is not None and same(d, lf.step): return True
            return smt.prove((k >= 0,), icmp_eq(iadd(lf.model, lf.step), v)) is True
        if c in ('fold', 'ptr', 'pt', 'sys'):
            # the step was computed with an opaque previous value, so it is valid for every
            # previous value; only symbols introduced by the pass itself could differ
            return True
        return False
    def passbase(self, k): return int(k.decl().name()[2:])
    def solve_system(self, unsolved, ev, k, ambout, K):
        for lf in unsolved:
            if lf.loc[3] not in ('d',) and lf.loc[3][0] != 'i': return False
            if lf.x0 is UNDEF or lf.cls == 'guess': return False
            v = ev[id(lf)]
            if isinstance(v, Node): return False
        K1 = [(k, isub(k, 1))]
        for lf in unsolved:
            v = ev[id(lf)]; u = lf.u
            x0 = lf.x0
            prm = ambout + (k,)
            p = Subst(K1).v(v)
            eq = lambda a, b: (zi(a) == zi(b)) if lf.loc[3][0] == 'i' else a == b
            add_fact(u.decl().name(), prm, z3.If(k <= 0, eq(u, x0), eq(u, p)), 1)
            lf.model = u; lf.cls = 'sys'; lf.step = v
        return True

class UnrollAbort(Exception): pass

def isbool(v):
    return isinstance(v, bool) or v in (0, 1) if is_c(v) else (z3.is_expr(v) and v.sort() == BoolS)

def int_delta(v, u):
    """v - u where u is an opaque term (through conditionals)"""
    if z3.is_expr(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        c = simp_b(v.arg(0))
        a = int_delta(simp_i(v.arg(1)), u); b = int_delta(simp_i(v.arg(2)), u)
        if a is None or b is None: return None
        return iite(c, a, b)
    return isub(v, u)

def has_fresh(v, base): return False

def repl_elem(e, un, u, i, x0):
    """replace reads of u at index i by reads of x0 at i"""
    if isinstance(e, Obj):
        if e.base is not None and isinstance(e.base, BLazy):
            if e.base.name == un + '[]':
                if not (len(e.base.idx) and icmp_eq(e.base.idx[-1], i) is True): return None
                b = x0.at(i)
                if not isinstance(b, Obj): return None
                d = {}
                for o, (k, v) in e.over.items():
                    r = repl_elem(v, un, u, i, x0)
                    if r is None: return None
                    d[o] = (k, r)
                r = b
                for o, (k, v) in d.items():
                    r = r.write(o, k, v) if k not in ('zero', 'und', 'view') else r.fill(o, v, k) if k != 'view' else None
                    if r is None: return None
                return r
        if e.base is not None and un in vars_of(e.base, ufuns): return None
        d = {}
        for o, (k, v) in e.over.items():
            r = repl_elem(v, un, u, i, x0)
            if r is None: return None
            d[o] = (k, r)
        return mkobj(d, e.base)
    if isinstance(e, (int, bool, str)): return e
    if z3.is_expr(e):
        if un not in {x.split('[')[0] for x in ufuns(e)} : return e
        return repl_term(e, un, i, x0)
    if un not in {x.split('[')[0] for x in vars_of(e, ufuns)}: return e
    if isinstance(e, Ptr):
        hs = []
        for h in e.hops:
            r = repl_elem(h[1], un, u, i, x0)
            if r is None: return None
            hs.append((h[0], r, h[2], h[3]))
        return mkptr(e.root, tuple(hs), e.off)
    if isinstance(e, SSym):
        m = re.match(re.escape(un) + r'\[\]@(\d+):(.*)$', e.name)
        if m and e.idx and icmp_eq(e.idx[-1], i) is True:
            b = x0.at(i)
            return b.read(int(m.group(1)), m.group(2))
        return None
    if isinstance(e, SCat):
        ps = [repl_elem(p, un, u, i, x0) for p in e.ps]
        return None if any(p is None for p in ps) else scat(ps)
    if isinstance(e, SUnit):
        r = repl_elem(e.e, un, u, i, x0)
        return None if r is None else sunit(r)
    if isinstance(e, SIte):
        c = repl_elem(e.c, un, u, i, x0); a = repl_elem(e.a, un, u, i, x0); b = repl_elem(e.b, un, u, i, x0)
        return None if c is None or a is None or b is None else site(c, a, b)
    if isinstance(e, SUpd):
        a = repl_elem(e.s, un, u, i, x0); b = repl_elem(e.i, un, u, i, x0); c = repl_elem(e.e, un, u, i, x0)
        return None if a is None or b is None or c is None else supd(a, b, c)
    return None

def repl_term(e, un, i, x0):
    """rewrite leaves  un[]@off:kind(idx.., i)  (and derived sequences) into x0.at(i) leaves"""
    subs = []
    bad = [False]
    seen = set()
    def go(t):
        if tid(t) in seen: return
        seen.add(tid(t))
        nm = t.decl().name() if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
        if nm.startswith(un + '[]') or nm == un + '#len':
            m = re.match(re.escape(un) + r'\[\]@(\d+):([a-z0-9]+)(#len|\[\].*)?$', nm)
            if nm == un + '#len':
                subs.append((t, zi(x0.len()))); return
            if nm == un + '[]':
                if icmp_eq(simp_i(t.arg(t.num_args() - 1)), i) is not True: bad[0] = True; return
                v = x0.at(i)
                if isinstance(v, Node): bad[0] = True; return
                subs.append((t, zi(v))); return
            if not m: bad[0] = True; return
            off, kind, rest = int(m.group(1)), m.group(2), m.group(3)
            b = x0.at(i)
            if rest is None:
                if icmp_eq(simp_i(t.arg(t.num_args() - 1)), i) is not True: bad[0] = True; return
                v = b.read(off, kind)
                if kind == 'p':
                    v = heap_ref(v)
                    if v is None: bad[0] = True; return
                if isinstance(v, Node): bad[0] = True; return
                subs.append((t, zi(v) if kind[0] != 'd' else v)); return
            if rest == '#len':
                if icmp_eq(simp_i(t.arg(t.num_args() - 1)), i) is not True: bad[0] = True; return
                subs.append((t, zi(b.read(off, kind).len()))); return
            bad[0] = True; return
        for c in t.children(): go(c)
    go(e)
    if bad[0]: return None
    r = renorm(z3.substitute(e, *subs)) if subs else e
    return r

def vroots(v, acc=None):
    """roots of concrete pointers inside a value"""
    r = set(); seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x is None or isinstance(x, (int, bool, str)) or z3.is_expr(x): continue
        if x.uid_ in seen: continue
        seen.add(x.uid_)
        if isinstance(x, Ptr) and x.root is not None: r.add(x.root)
        st.extend(x.parts())
    return r
