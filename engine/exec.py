"""Symbolic executor / verification condition generator over LLVM IR."""
import re, subprocess, time
import z3
import ir
from val import *
import val, smt
from smt import add_fact, QFACTS, QFact, prove
from loops import LoopMixin, Unsolved, local_names

class Exc(Exception):
    pass


def common_prefix(a, b):
    n = 0
    m = min(len(a), len(b))
    while n < m and (a[n] is b[n] or tid(a[n]) == tid(b[n])): n += 1
    return n

class State:
    __slots__ = ('mem', 'pc', 'regs', 'exc', 'locks', 'freed', 'bst', 'sect', 'va')
    def __init__(s):
        s.mem = {}; s.pc = (); s.regs = {}; s.exc = None; s.locks = (); s.freed = (); s.bst = (); s.sect = (); s.va = None
    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = s.pc; n.regs = dict(s.regs); n.exc = s.exc; n.locks = s.locks; n.freed = s.freed; n.bst = s.bst; n.sect = s.sect; n.va = s.va
        return n
    def assume(s, c):
        """add a conjunct; returns False if the path became infeasible"""
        if c is True: return True
        if c is False: return False
        for x in (c.children() if z3.is_and(c) else [c]):
            nx = tid(bnot(x)); i = tid(x)
            dup = False
            for p in s.pc:
                t = tid(p)
                if t == i: dup = True; break
                if t == nx: return False
            if not dup: s.pc = s.pc + (x,)
        return True

def merge_states(states, crossregs=None):
    states = list(states)
    if len(states) == 1: return states[0]
    while len(states) > 1:
        best = None
        for i in range(len(states)):
            for j in range(i + 1, len(states)):
                n = common_prefix(states[i].pc, states[j].pc)
                if best is None or n > best[0]: best = (n, i, j)
        n, i, j = best
        b = states.pop(j); a = states.pop(i)
        states.append(merge2(a, b, n))
    return states[0]

def merge2(a, b, n):
    ra, rb = a.pc[n:], b.pc[n:]
    nb = {tid(bnot(x)) for x in rb}
    # selector: a literal of a whose negation holds in b
    sel = None
    for x in ra:
        if tid(x) in nb: sel = x; break
    ca, cb = band(*ra), band(*rb)
    if sel is None: sel = ca
    m = State()
    # keep literals common to both rests
    ib = {tid(x) for x in rb}
    com = [x for x in ra if tid(x) in ib]
    ic = {tid(x) for x in com}
    o = bor(band(*[x for x in ra if tid(x) not in ic]), band(*[x for x in rb if tid(x) not in ic]))
    m.pc = a.pc[:n] + tuple(com)
    if o is not True: m.pc = m.pc + (o,)
    mem = {}
    # shared memory first touched on one side only exists on both
    for x, y in ((a, b), (b, a)):
        for r in list(x.mem):
            if r not in y.mem and (r == 'HEAP' or r[0] == 'g'): CURRENT[0].root_obj(y, r)
    for r, oa in a.mem.items():
        ob = b.mem.get(r)
        if ob is None: continue
        if oa is ob: mem[r] = oa
        elif not isinstance(oa, Obj) or not isinstance(ob, Obj): mem[r] = join_dead(sel, oa, ob)
        else: mem[r] = obj_ite(sel, oa, ob)
    # objects known to one side only (fresh allocations) survive
    for r, oa in a.mem.items():
        if r not in b.mem: mem[r] = oa
    for r, ob in b.mem.items():
        if r not in a.mem: mem[r] = ob
    m.mem = mem
    for r, va in a.regs.items():
        if r in b.regs:
            vb = b.regs[r]
            if same(va, vb): m.regs[r] = va
            else:
                try: m.regs[r] = vite(sel, va, vb)
                except ToolLimit: pass
    if a.exc is not None or b.exc is not None:
        if a.exc == b.exc: m.exc = a.exc
        else:
            m.exc = tuple((band(sel, c), t, p) for c, t, p in (a.exc or ())) + tuple((band(bnot(sel), c), t, p) for c, t, p in (b.exc or ()))
    m.locks = join_locks(sel, a.locks, b.locks); m.freed = join_freed(sel, a.freed, b.freed); m.bst = a.bst if len(a.bst) >= len(b.bst) else b.bst
    m.sect = join_locks(sel, a.sect, b.sect)
    m.va = a.va
    return m

CURRENT = [None]     # the executor at work
class LockMismatch(ToolLimit):
    pass
DEADOBJ = 'DEAD'
class MayDead(Node):
    """an object that is gone when c holds"""
    __slots__ = ('c', 'o')
    def parts(s): return (s.c, s.o)
    def subst(s, S): return maydead(S.t(s.c), S.v(s.o))
def maydead(c, o):
    if c is False: return o
    if c is True: return DEADOBJ
    def init(r): r.c = c; r.o = o
    return mk(MayDead, (tid(c), o.uid_), init)
def dead_when(o): return True if o is DEADOBJ else o.c if isinstance(o, MayDead) else False
def live_part(o): return None if o is DEADOBJ else o.o if isinstance(o, MayDead) else o
def join_dead(sel, a, b):
    la, lb = live_part(a), live_part(b)
    c = biteb(sel, dead_when(a), dead_when(b))
    if la is None and lb is None: return DEADOBJ
    return maydead(c, la if lb is None else lb if la is None else obj_ite(sel, la, lb))
def join_locks(sel, a, b):
    """entries (..., condition under which it is there)"""
    if a == b: return a
    def conds(l):
        r = {}
        for x in l: r[x[:-1]] = bor(r.get(x[:-1], False), x[-1])
        return r
    ca, cb = conds(a), conds(b)
    return tuple(k + (c,) for k, c in ((k, biteb(sel, ca.get(k, False), cb.get(k, False))) for k in list(ca) + [k for k in cb if k not in ca]) if c is not False)
def join_freed(sel, a, b):
    if a == b: return a
    com = [x for x in a if x in b]
    return tuple(com) + tuple((band(sel, c), r) for c, r in a if (c, r) not in com) + tuple((band(bnot(sel), c), r) for c, r in b if (c, r) not in com)

class Loop:
    def __init__(s, header): s.header = header; s.blocks = set(); s.parent = None

def vtable_loads(B):
    """registers loaded from a table of virtual functions, only to be called"""
    defs = {}; r = set()
    for b in B.values():
        for i in b.ins:
            if i.res: defs[i.res] = i
    for b in B.values():
        for i in b.ins:
            if i.op not in ('call', 'invoke') or i.a['fn'][0] != 'loc': continue
            d = defs.get(i.a['fn'][1])
            if d is None or d.op != 'load' or d.a['p'][0] != 'loc': continue
            g = defs.get(d.a['p'][1])
            if g is None or g.op != 'getelementptr' or g.a['ty'] is not ir.PTR or len(g.a['idx']) != 1: continue
            t = defs.get(g.a['p'][1]) if g.a['p'][0] == 'loc' else None
            if t is not None and t.op == 'load': r.add(d.res)
    return r
def analyse(fn):
    if getattr(fn, 'an', None): return fn.an
    B = fn.get_blocks()
    fn.vloads = vtable_loads(B)
    rpo = []; seen = set()
    def dfs(b):
        st = [(b, iter(B[b].succs()))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter(B[y].succs()))); break
            else:
                rpo.append(x); st.pop()
    dfs(fn.entry); rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in B[b].succs(): preds[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in B[b].succs():
            if num[s] <= num[b]:
                if not dom(s, b): raise ToolLimit('irreducible loop')
                L = loops.setdefault(s, Loop(s))
                L.blocks.add(s)
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st.extend(preds[x])
    ls = list(loops.values())
    for L in ls:
        cands = [M for M in ls if M is not L and L.header in M.blocks and L.blocks <= M.blocks]
        L.parent = min(cands, key=lambda M: len(M.blocks)) if cands else None
    # registers used outside their defining block
    defb = {}; cross = set()
    def ops(v):
        if isinstance(v, tuple):
            if v and v[0] == 'loc' and len(v) == 2 and isinstance(v[1], str): yield v[1]
            else:
                for x in v: yield from ops(x)
        elif isinstance(v, list):
            for x in v: yield from ops(x)
    for b in rpo:
        for i in B[b].ins:
            if i.res: defb[i.res] = b
    useb = {}
    for b in rpo:
        for i in B[b].ins:
            for k, v in i.a.items():
                if k in ('ty', 'ft', 'et'): continue
                for r in ops(v):
                    useb.setdefault(r, set()).add(b)
                    if defb.get(r) != b: cross.add(r)
    cross |= {r for r, nm in local_names(fn)}
    allocas = {}
    for b in rpo:
        for i in B[b].ins:
            if i.op == 'alloca': allocas[i.res] = useb.get(i.res, set())
    for L in ls:
        L.local = {r for r, ub in allocas.items() if ub and ub <= L.blocks}
        L.tests = [b for b in L.blocks if len(B[b].succs()) > 1 and B[b].ins[-1].op == 'br' and any(s not in L.blocks for s in B[b].succs())]
        lat = [b for b in L.blocks if L.header in B[b].succs()]
        L.tests = [b for b in L.tests if all(dom(b, x) for x in lat)]
    fn.an = (num, loops, cross, B)
    return fn.an

class Obl:
    __slots__ = ('name', 'loc', 'pc', 'goal', 'kind', 'status', 'note', 'model', 'fn')

class Frame:
    pass

KIND = {'ptr': 'p', 'double': 'd', 'float': 'f'}
def kind_of(t):
    if t.k == 'int': return 'i%d' % (8 if t.a == 1 else t.a)
    k = KIND.get(t.k)
    if k is None: raise ToolLimit('scalar kind of ' + repr(t))
    return k

class Executor(LoopMixin):
    def __init__(self, mods, intr):
        CURRENT[0] = self
        self.mods = mods
        self.funcs = {}
        self.globs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if hasattr(f, 'text') and not f.internal:
                    self.funcs.setdefault(n, f)
            for n, g in m.globals.items():
                if not g['internal'] and not g['ext']: self.globs.setdefault(n, g)
        for m in mods:
            for a, t in m.aliases.items():
                f = m.funcs.get(t)
                if f is not None and hasattr(f, 'text'): self.funcs.setdefault(a, f)
        self.invs = {n: f for n, f in mods[-1].funcs.items() if n.startswith('__inv_') and hasattr(f, 'text')}
        self.overrides = {n[5:]: f for n, f in mods[-1].funcs.items() if n.startswith('__ct_') and hasattr(f, 'text')}
        self.used_contracts = set()
        self.intr = intr
        self.obls = []
        self.mute = 0
        self.depth = 0
        self.loc = ('?', 0)
        self.calls = set()       # functions of the real code executed
        self.trust = {}          # trusted stubs used
        self.notes = {}
        self.loops_done = {}
        self.stack = []
        self.nroot = 0
        self.demangle_cache = {}
        self.monitor = None
        self.budget = time.time() + 600
        self.contracts = {}
        self.opts = {}
        self.trivial = {}
        self.lstack = []; self.passnames = set(); self.LockErr = LockMismatch; self.guards = []; self.reached = {}; self.used_inv = set()
        self.nonnull = set(); self.locstack = []

    # ---- names
    def lookup(self, mod, name):
        name = mod.aliases.get(name, name)
        ct = self.overrides.get(name)
        if ct is not None:
            self.used_contracts.add(name)
            return ct
        f = mod.funcs.get(name)
        if f is not None and hasattr(f, 'text') and f.internal: return f
        g = self.funcs.get(name)
        if g is not None: return g
        if f is not None and hasattr(f, 'text'): return f
        return f
    def new_root(self, kind, tag=''):
        self.nroot += 1
        return (kind, self.nroot, tag)

    # ---- obligations
    def oblige(self, st, goal, name, kind='safety'):
        """record an obligation and assume it afterwards; False if the path dies"""
        if goal is True:
            if kind in ('contract', 'spec', 'soft', 'lock'): self.count_trivial(name)
            return True
        if not self.mute:
            o = Obl(); o.name = name; o.loc = self.where(); o.pc = st.pc; o.goal = goal; o.kind = kind; o.status = None; o.note = ''
            o.fn = self.stack[-1] if self.stack else '?'
            self.obls.append(o)
        if kind == 'soft': return True
        if goal is False: raise Dead()
        if not st.assume(goal): raise Dead()
        return True
    def oblige_seq(self, st, x, y, name, kind='contract'):
        if x is y or same(x, y): return self.count_trivial(name)
        if not self.mute:
            o = Obl(); o.name = name; o.loc = self.where(); o.pc = st.pc; o.goal = ('seq', x, y); o.kind = kind; o.status = None; o.note = ''
            o.fn = self.stack[-1] if self.stack else '?'
            self.obls.append(o)
    def oblige_obj(self, st, x, y, name, kind='contract'):
        if x is y: return self.count_trivial(name)
        if not self.mute:
            o = Obl(); o.name = name; o.loc = self.where(); o.pc = st.pc; o.goal = ('obj', x, y); o.kind = kind; o.status = None; o.note = ''
            o.fn = self.stack[-1] if self.stack else '?'
            self.obls.append(o)
    def count_trivial(self, name):
        if not self.mute: self.trivial[name] = self.trivial.get(name, 0) + 1
    def where(self):
        # innermost location that is in the repository
        for fn, ins in reversed(self.locstack):
            f = fn.file()
            if f.startswith('/repo/'):
                return '%s:%d' % (f[6:], fn.line(ins))
        for fn, ins in reversed(self.locstack):
            return '%s:%d' % (fn.file(), fn.line(ins))
        return '?'

    # ---- operands
    def glob_ptr(self, mod, name):
        name = mod.aliases.get(name, name)
        f = mod.funcs.get(name) or self.funcs.get(name)
        if f is not None and name not in mod.globals:
            ff = self.lookup(mod, name)
            return mkptr(('f', mod.tag if (ff is not None and ff.internal) else '', name))
        g = mod.globals.get(name)
        if g is None: raise ToolLimit('global ' + name)
        if not g['internal']:
            g = self.globs.get(name, g)
            return mkptr(('g', '', name))
        return mkptr(('g', mod.tag, name))
    def glob_obj(self, root):
        _, tag, name = root
        if tag == '':
            g = self.globs.get(name)
        else:
            g = [m for m in self.mods if m.tag == tag][0].globals[name]
        if g is None:
            return lazy_obj('G:' + name, ())
        ty, init = g['mod'].global_init(g)
        if init is None: return lazy_obj('G:' + name, ())
        o = mkobj({}, None)
        return self.init_obj(g['mod'], o, 0, ty, init)
    def init_obj(self, mod, o, off, ty, c):
        ty = mod.resolve(ty)
        if c[0] in ('zero', 'undef'):
            if c[0] == 'undef': return o
            return o.fill(off, mod.size(ty), 'zero') if mod.size(ty) else o
        if c[0] == 'bytes':
            return o.write(off, 'sc', slit(c[1]))
        if c[0] == 'agg':
            if ty.k == 'arr':
                n, e = ty.a
                es = mod.size(e)
                if es == 1:
                    return o.write(off, 'sc', scat([sunit(x[1][1] if x[1][0] == 'int' else 0) for x in c[1]]))
                items = []
                for et, ev in c[1]:
                    items.append(sunit(self.init_obj(mod, mkobj({}, None), 0, e, ev)))
                return o.write(off, 'so%d' % es, scat(items))
            for i, (et, ev) in enumerate(c[1]):
                o = self.init_obj(mod, o, off + mod.field_off(ty, i), et, ev)
            return o
        return o.write(off, kind_of(ty), self.const(mod, ty, c))
    def const(self, mod, ty, c):
        k = c[0]
        if k == 'int':
            if ty.k == 'int' and ty.a == 1: return bool(c[1])
            if ty.k == 'int' and ty.a < 64: return wrap(c[1], ty.a)
            return wrap(c[1], 64)
        if k == 'fp': return dconst(c[1])
        if k == 'null': return NULL
        if k == 'glob': return self.glob_ptr(mod, c[1])
        if k == 'undef':
            return self.undef_val(mod, ty)
        if k == 'zero':
            t = mod.resolve(ty)
            if t.k == 'struct': return agg([self.const(mod, x, c) for x in t.a])
            if t.k == 'int': return False if t.a == 1 else 0
            if t.k == 'ptr': return NULL
            if t.k == 'double': return dconst(0.0)
        if k == 'gep':
            base = self.const(mod, ir.PTR, c[2])
            return self.gep(mod, c[1], base, [self.const(mod, t, v) for t, v in c[3]])
        if k == 'cast':
            if c[1] in ('bitcast', 'addrspacecast'): return self.const(mod, c[2], c[3])
        if k == 'agg':
            return agg([self.const(mod, t, v) for t, v in c[1]])
        if k == 'bin':
            a = self.const(mod, c[2], c[3]); b = self.const(mod, c[2], c[4])
            return iadd(a, b) if c[1] == 'add' else isub(a, b)
        raise ToolLimit('constant ' + str(c)[:80])
    def undef_val(self, mod, ty):
        t = mod.resolve(ty)
        if t.k == 'struct': return agg([self.undef_val(mod, x) for x in t.a])
        return UNDEF
    def ev(self, st, fr, ty, c):
        if c[0] == 'loc':
            try: return st.regs[c[1]]
            except KeyError: raise ToolLimit('value %%%s not available after merge' % c[1])
        return self.const(fr.fn.mod, ty, c)
    def scalar(self, v, ty):
        """turn UNDEF into an arbitrary value of the type"""
        if v is UNDEF:
            if ty.k == 'int':
                if ty.a == 1: return fresh('undef', BoolS)
                return fresh('undef', IntS, krange('i%d' % ty.a) if ty.a < 64 else None)
            if ty.k == 'double': return fresh('undef', D)
            raise ToolLimit('use of an undefined value')
        return v

    # ---- memory
    def root_obj(self, st, root):
        o = st.mem.get(root)
        if o is None:
            if root == 'HEAP':
                o = mkobj({0: ('so', ssym('H', (), 'so'))}, None)
            elif root[0] == 'g':
                o = self.glob_obj(root)
            elif root[0] == 'f':
                raise ToolLimit('access to function memory')
            else:
                return DEADOBJ
            st.mem[root] = o
        return o
    def chk(self, st, p, hop, seq, write):
        off, idx, stride, n = hop
        if stride is None:
            # object reference
            if tid(idx) in self.nonnull: return
            self.oblige(st, bnot(icmp_eq(idx, 0)), 'pointer is not null')
            for c, r in st.freed:
                self.oblige(st, bor(bnot(c), bnot(icmp_eq(idx, r))), 'object is alive')
            return
        if n is not None: l = n
        else: l = seq.len()
        ok = band(ile(0, idx), ilt(idx, l))
        if stride == 1 and n is None and not write:
            ok = band(ile(0, idx), ile(idx, l))
        if ok is not True:
            self.oblige(st, ok, 'index is in bounds')
    def ckind(self, hop):
        return 'so' if hop[2] is None else 'sc' if hop[2] == 1 else 'so%d' % hop[2]
    def container(self, o, hop):
        ck = self.ckind(hop)
        v = o.read(hop[0], ck)
        if v is UNDEF:
            n = hop[3]
            if n is None: raise ToolLimit('uninitialised container')
            if hop[2] == 1:
                v = sfn(n, z3.Const('k!u', IntS), ufun('undefc!%d' % uid(), amb() + (z3.Const('k!u', IntS),), IntS))
            else:
                v = sfn(n, z3.Const('k!u', IntS), mkobj({}, None))
        elif v is EMPTY and hop[3]:
            # zero-initialised embedded array
            v = sfn(hop[3], z3.Const('k!u', IntS), 0 if hop[2] == 1 else mkobj({}, BZ))
        return v
    def load(self, st, p, kind, size=None):
        if isinstance(p, PIte):
            cs = pcases(p)
            r = None
            vals = []
            for c, q in cs:
                if q.root is None:
                    self.oblige(st, bnot(c), 'pointer is not null'); continue
                s2 = st.copy()
                if not s2.assume(c): continue
                try: v = self.load(s2, q, kind)
                except Dead: continue
                vals.append((c, v))
            if not vals: raise Dead()
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]): r = vite(c, v, r)
            return r
        if not isinstance(p, Ptr): raise ToolLimit('load through %r' % (p,))
        if p.root is None:
            self.oblige(st, False, 'pointer is not null')
        o = self.root_obj(st, p.root)
        o = self.alive(st, p.root, o)
        if self.monitor: self.monitor(self, st, p, kind, False)
        o = self.walk(st, p, o, False)
        if not isinstance(o, Obj):
            if p.off == 0 and kind in ('i8',): return o
            raise ToolLimit('typed access to a character')
        v = o.read(p.off, kind)
        if kind == 'i1': pass
        return v
    def walk(self, st, p, o, write):
        for h in p.hops:
            seq = self.container(o, h)
            self.chk(st, p, h, seq, write)
            if h[2] == 1 and h[3] is None:
                # the terminating NUL of a string
                l = seq.len()
                if icmp_eq(h[1], l) is True: o = 0
                else:
                    c = ilt(h[1], l)
                    if c is not True and (any(tid(c) == tid(x) for x in st.pc) or prove(st.pc, c, rounds=2) is True): c = True
                    v = seq.at(h[1])
                    o = v if c is True or write else iite(c, v, 0)
                    if c is not True and not write and not is_c(o): set_range(o, -128, 127)
            else:
                o = seq.at(h[1])
        return o
    def alive(self, st, root, o):
        if not isinstance(o, Obj):
            self.oblige(st, bnot(dead_when(o)), 'object is alive (no use after free or scope)')
            o = live_part(o)
            if o is None: raise Dead()
            st.mem[root] = o
        return o
    def get_obj(self, st, p):
        """the object p points to (as an Obj, offset p.off)"""
        if isinstance(p, PIte):
            raise ToolLimit('object access through a merged pointer')
        if p.root is None: self.oblige(st, False, 'pointer is not null')
        o = self.root_obj(st, p.root)
        o = self.alive(st, p.root, o)
        return self.walk(st, p, o, False)
    def store(self, st, p, kind, v):
        self.update(st, p, lambda o: o.write(p_off(p), kind, v), kind, v)
    def update(self, st, p, f, kind=None, v=None):
        if isinstance(p, PIte):
            cs = pcases(p)
            # guarded update of every case
            for c, q in cs:
                if q.root is None: self.oblige(st, bnot(c), 'pointer is not null')
            for c, q in cs:
                if q.root is None: continue
                s2 = st.copy()
                if not s2.assume(c): continue
                self.store(s2, q, kind, v)
                for r, o in s2.mem.items():
                    if r not in st.mem and (r == 'HEAP' or r[0] == 'g'): self.root_obj(st, r)
                    if st.mem.get(r) is not o:
                        st.mem[r] = obj_ite(c, o, st.mem[r]) if r in st.mem else o
            return
        if not isinstance(p, Ptr): raise ToolLimit('store through %r' % (p,))
        if p.root is None: self.oblige(st, False, 'pointer is not null')
        o = self.root_obj(st, p.root)
        o = self.alive(st, p.root, o)
        if self.monitor: self.monitor(self, st, p, kind, True)
        st.mem[p.root] = self.upd(st, p, o, list(p.hops), f, v)
    def upd(self, st, p, o, hops, f, v):
        if not hops:
            if not isinstance(o, Obj):
                # character element
                if v is None: raise ToolLimit('object update of a character')
                return self.scalar(v, ir.INT(8))
            return f(o)
        h = hops[0]
        seq = self.container(o, h)
        self.chk(st, p, h, seq, True)
        e = seq.at(h[1])
        ne = self.upd(st, p, e, hops[1:], f, v)
        return o.write(h[0], self.ckind(h), supd(seq, h[1], ne))

    # ---- typed load/store
    def load_ty(self, st, mod, p, ty):
        t = mod.resolve(ty)
        if t.k in ('struct', 'packed'):
            return agg([self.load_ty(st, mod, padd(p, mod.field_off(t, i)), e) for i, e in enumerate(t.a)])
        if t.k == 'int' and t.a not in (1, 8, 16, 32, 64): raise ToolLimit('integer width %d' % t.a)
        if t.k == 'arr' or t.k == 'vec': raise ToolLimit('array load')
        v = self.load(st, p, kind_of(t))
        if t.k == 'int' and t.a == 1: return bnot(icmp_eq(v, 0))
        return v
    def store_ty(self, st, mod, p, ty, v):
        t = mod.resolve(ty)
        if t.k in ('struct', 'packed'):
            for i, e in enumerate(t.a):
                self.store_ty(st, mod, padd(p, mod.field_off(t, i)), e, v.vs[i] if isinstance(v, Agg) else UNDEF)
            return
        if t.k == 'int' and t.a == 1: v = b2i(v)
        if v is UNDEF:
            self.update(st, p, lambda o: o.fill(p_off(p), mod.size(t), 'und'), None, UNDEF)
            return
        self.store(st, p, kind_of(t), v)

    def gep(self, mod, ty, p, idx):
        if isinstance(p, PIte):
            return pite(p.c, self.gep(mod, ty, p.a, idx), self.gep(mod, ty, p.b, idx))
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise ToolLimit('gep on %r' % (p,))
        i0 = idx[0]
        if not (isinstance(i0, int) and i0 == 0):
            p = self.padd_elem(p, mod.size(ty), i0)
        t = ty
        for i in idx[1:]:
            t = mod.resolve(t)
            if t.k in ('struct', 'packed'):
                p = padd(p, mod.field_off(t, i)); t = t.a[i]
            elif t.k == 'arr':
                n, e = t.a
                es = mod.size(e)
                if es == 1 and isinstance(i, int) and i == 0: t = e; continue
                p = mkptr(p.root, p.hops + ((p.off, i, es, n),), 0); t = e
            else: raise ToolLimit('gep into ' + t.k)
        return p
    def padd_elem(self, p, size, i):
        if p.hops and p.off == 0 and p.hops[-1][2] == size:
            h = p.hops[-1]
            return mkptr(p.root, p.hops[:-1] + ((h[0], iadd(h[1], i), h[2], h[3]),), 0)
        if isinstance(i, int) and size == 1:
            if p.hops and p.off == 0 and p.hops[-1][2] and p.hops[-1][2] > 1 and i % p.hops[-1][2] == 0:
                return self.padd_elem(p, p.hops[-1][2], i // p.hops[-1][2])
            if p.root is not None and p.root[0] == 'g' and not p.hops and self.is_bytes(p):
                return mkptr(p.root, ((p.off, i, 1, None),), 0)
            return padd(p, i)
        if p.root is None: raise ToolLimit('arithmetic on a null pointer')
        return mkptr(p.root, p.hops + ((p.off, i, size, None),), 0)
    def is_bytes(self, p):
        o = self.glob_obj(p.root)
        e = o.over.get(p.off)
        return e is not None and e[0] == 'sc'

    # ---- functions
    def call(self, st, fn, args, va=None):
        """-> (normal (state, value) or None, exceptional state or None)"""
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise ToolLimit('recursion too deep in ' + fn.name)
        if self.stack.count(fn.name) > 6: raise ToolLimit('recursion in ' + fn.name)
        if time.time() > self.budget: raise ToolLimit('time budget of symbolic execution exceeded')
        self.stack.append(fn.name)
        self.calls.add((fn.name, fn))
        num, loops, cross, B = analyse(fn)
        fr = Frame(); fr.fn = fn; fr.allocas = []
        saved = st.regs; sva = st.va
        st.regs = {}
        st.va = va
        if len(args) < len(fn.args): raise ToolLimit('argument count for ' + fn.name)
        for (t, nm, at), v in zip(fn.args, args):
            if 'byval' in at:
                r = self.new_root('l', 'byval')
                src = self.get_obj(st, v)
                o = mkobj({}, None).copy_range(0, src, v.off, fn.mod.size(at['byval']))
                st.mem[r] = o; fr.allocas.append(r)
                v = mkptr(r)
            st.regs[nm] = v
        fr.loops = loops; fr.num = num; fr.cross = cross; fr.B = B
        fr.decided = set()
        try:
            be, exits, rets, excs = self.region(fr, fn.entry, st, None)
        finally:
            self.stack.pop(); self.depth -= 1
        normal = None; exc = None
        if rets:
            for s, v in rets: s.regs = {'ret': v} if v is not None else {}
            m = merge_states([s for s, v in rets])
            v = m.regs.get('ret')
            if v is None and rets[0][1] is not None: raise ToolLimit('return values do not merge')
            normal = (m, v)
        if excs:
            for s in excs: s.regs = {}
            exc = merge_states(excs)
        for s in ([normal[0]] if normal else []) + ([exc] if exc else []):
            for r in fr.allocas: s.mem.pop(r, None)
            s.regs = saved if s is not None else None
            s.va = sva
        if exc is not None and normal is not None: exc.regs = dict(saved)
        return normal, exc

    def region(self, fr, start, st, loop):
        """run the blocks of a loop body (or the function) from start"""
        pend = {start: [(None, st)]}
        be, exits, rets, excs = [], [], [], []
        blocks = loop.blocks if loop else None
        first = True
        while pend:
            b = min(pend, key=lambda x: fr.num[x])
            inc = pend.pop(b)
            L = fr.loops.get(b)
            try:
                cur = self.enter(fr, b, inc)
            except Dead:
                continue
            if L is not None and not (first and loop is L):
                out = self.loop(fr, L, cur)
                for tgt, pred, s in out[0]:
                    if loop and tgt == loop.header: be.append(s)
                    elif blocks is not None and tgt not in blocks: exits.append((tgt, pred, s))
                    else: pend.setdefault(tgt, []).append((pred, s))
                rets += out[1]; excs += out[2]
                first = False
                continue
            first = False
            for kind, tgt, s in self.block(fr, b, cur):
                if kind == 'ret': rets.append((s, tgt))
                elif kind == 'exc': excs.append(s)
                else:
                    s.regs = {r: v for r, v in s.regs.items() if r in fr.cross or r not in fr.defs} if len(s.regs) > 12 else s.regs
                    if loop and tgt == loop.header: be.append(s)
                    elif blocks is not None and tgt not in blocks: exits.append((tgt, b, s))
                    else: pend.setdefault(tgt, []).append((b, s))
        return be, exits, rets, excs

    def enter(self, fr, b, inc):
        B = fr.B[b]
        phis = [i for i in B.ins if i.op == 'phi']
        sts = []
        for pred, s in inc:
            if phis and pred is not None:
                vals = {}
                for i in phis:
                    for v, pb in i.a['in']:
                        if pb == pred or (pred == fr.fn.entry and pb not in fr.B):
                            vals[i.res] = self.ev(s, fr, i.a['ty'], v); break
                    else: raise ToolLimit('phi without matching predecessor')
                s.regs.update(vals)
            sts.append(s)
        return merge_states(sts)

    # executes one block; returns list of (kind, target/value, state)
    def block(self, fr, b, st):
        fn = fr.fn; mod = fn.mod
        out = []
        if not hasattr(fr, 'defs'):
            fr.defs = {i.res for x in fr.B.values() for i in x.ins if i.res}
        self.locstack.append([fn, None])
        try:
            for ins in fr.B[b].ins:
                self.locstack[-1][1] = ins
                op = ins.op
                a = ins.a
                if op == 'br':
                    if 'c' not in a: return out + [('br', a['t'], st)]
                    c = self.scalar(self.ev(st, fr, ir.INT(1), a['c']), ir.INT(1))
                    if not isinstance(c, bool): c = self.decide(st, c)
                    if isinstance(c, bool):
                        fr.decided.add(b)
                        return out + [('br', a['t'] if c else a['f'], st)]
                    s2 = st.copy()
                    if st.assume(c): out.append(('br', a['t'], st))
                    if s2.assume(bnot(c)): out.append(('br', a['f'], s2))
                    return out
                if op == 'switch':
                    v = self.scalar(self.ev(st, fr, a['ty'], a['v']), a['ty'])
                    if isinstance(v, int):
                        for c, t in a['cases']:
                            if wrap(c, a['ty'].a) == v: return out + [('br', t, st)]
                        return out + [('br', a['def'], st)]
                    rest = st
                    tg = {}
                    for c, t in a['cases']: tg.setdefault(t, []).append(c)
                    for t, cs in tg.items():
                        c = bor(*[icmp_eq(v, wrap(x, a['ty'].a)) for x in cs])
                        c = self.decide(rest, c) if not isinstance(c, bool) else c
                        if c is False: continue
                        s2 = rest.copy()
                        if s2.assume(c): out.append(('br', t, s2))
                        if not rest.assume(bnot(c)): rest = None; break
                    if rest is not None: out.append(('br', a['def'], rest))
                    return out
                if op == 'ret':
                    v = None if a['v'] is None else self.ev(st, fr, a['ty'], a['v'])
                    return out + [('ret', v, st)]
                if op == 'unreachable':
                    return out
                if op == 'resume':
                    return out + [('exc', None, st)]
                if op in ('call', 'invoke'):
                    r = self.do_call(fr, ins, st)
                    normal, exc = r
                    if exc is not None:
                        if op == 'invoke': out.append(('br', a['unwind'], exc))
                        else: out.append(('exc', None, exc))
                    if normal is None: return out
                    st, v = normal
                    if ins.res is not None: st.regs[ins.res] = v
                    if op == 'invoke': return out + [('br', a['normal'], st)]
                    continue
                self.simple(fr, ins, st)
        except Dead:
            return out
        finally:
            self.locstack.pop()
        raise ToolLimit('block without terminator')
    def decide(self, st, c):
        """cheap syntactic decision of a condition"""
        i = tid(c); ni = tid(bnot(c))
        for p in st.pc:
            t = tid(p)
            if t == i: return True
            if t == ni: return False
        if self.opts.get('prune', True) and self.mute == 0 or self.opts.get('prune_all'):
            pass
        return c

    def simple(self, fr, ins, st):
        mod = fr.fn.mod
        op, a = ins.op, ins.a
        ev = lambda ty, c: self.ev(st, fr, ty, c)
        if op == 'phi': return
        if op == 'alloca':
            r = self.new_root('l', ins.res)
            fr.allocas.append(r)
            st.mem[r] = mkobj({}, None)
            st.regs[ins.res] = mkptr(r)
            return
        if op == 'load':
            vt = ins.res in fr.fn.vloads
            if vt: self.mute += 1
            try: st.regs[ins.res] = self.load_ty(st, mod, ev(ir.PTR, a['p']), a['ty'])
            finally:
                if vt: self.mute -= 1
            return
        if op == 'store':
            self.store_ty(st, mod, ev(ir.PTR, a['p']), a['ty'], ev(a['ty'], a['v'])); return
        if op == 'getelementptr':
            idx = [self.scalar(ev(t, v), t) for t, v in a['idx']]
            st.regs[ins.res] = self.gep(mod, a['ty'], ev(ir.PTR, a['p']), idx); return
        if op in ir.BIN:
            x = self.scalar(ev(a['ty'], a['a']), a['ty']); y = self.scalar(ev(a['ty'], a['b']), a['ty'])
            st.regs[ins.res] = self.binop(st, op, a['ty'], x, y, a['flags']); return
        if op == 'icmp':
            st.regs[ins.res] = self.icmp(a['pred'], a['ty'], self.scalar(ev(a['ty'], a['a']), a['ty']), self.scalar(ev(a['ty'], a['b']), a['ty'])); return
        if op == 'fcmp':
            x, y = self.scalar(ev(a['ty'], a['a']), a['ty']), self.scalar(ev(a['ty'], a['b']), a['ty'])
            st.regs[ins.res] = self.fcmp(a['pred'], x, y); return
        if op == 'fneg':
            st.regs[ins.res] = dneg(self.scalar(ev(a['ty'], a['a']), a['ty'])); return
        if op in ir.CAST:
            v = ev(a['ft'], a['v'])
            if op not in ('bitcast',): v = self.scalar(v, a['ft'])
            st.regs[ins.res] = self.cast(st, op, a['ft'], a['ty'], v); return
        if op == 'select':
            c = self.scalar(ev(ir.INT(1), a['c']), ir.INT(1))
            st.regs[ins.res] = vite(c, ev(a['ty'], a['a']), ev(a['ty'], a['b'])); return
        if op == 'extractvalue':
            v = ev(a['ty'], a['v'])
            for i in a['idx']: v = v.vs[i]
            st.regs[ins.res] = v; return
        if op == 'insertvalue':
            v = ev(a['ty'], a['v']); e = ev(a['et'], a['e'])
            def put(v, idx):
                if not idx: return e
                l = list(v.vs); l[idx[0]] = put(l[idx[0]], idx[1:]); return agg(l)
            st.regs[ins.res] = put(v, a['idx']); return
        if op == 'freeze':
            st.regs[ins.res] = self.scalar(ev(a['ty'], a['v']), a['ty']); return
        if op == 'landingpad':
            # {exception object, selector}
            exc = st.exc
            sel = 0
            if exc is None: raise ToolLimit('landingpad without exception')
            if a['clauses']:
                sels = []
                for c, t, p in exc:
                    s = 0
                    for kind, cl in a['clauses']:
                        if kind == 'catch':
                            if cl[0] == 'null': s = 1; break
                            if cl[0] == 'glob' and self.subtype(t, cl[1]):
                                s = self.typeid(cl[1]); break
                        elif kind == 'filter':
                            s = -1; break
                    sels.append((c, s))
                sel = sels[-1][1]
                for c, s in reversed(sels[:-1]): sel = iite(c, s, sel)
                if not a['cleanup'] :
                    # uncaught types propagate
                    pass
            p = exc[-1][2]
            for c, t, q in reversed(exc[:-1]): p = pite(c, q, p)
            st.regs[ins.res] = agg([p, sel]); return
        raise ToolLimit('instruction ' + op)
    _tids = {}
    def typeid(self, name):
        return self._tids.setdefault(name, len(self._tids) + 2)
    def subtype(self, t, base):
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x == base: return True
            if x in seen: continue
            seen.add(x)
            g = self.globs.get(x)
            if g is None:
                for m in self.mods:
                    if x in m.globals and not m.globals[x]['ext']: g = m.globals[x]; break
            if g is None: continue
            st += [n for n in re.findall(r'@("?)(_ZTI[^", ]+)\1', g['text']) for n in [n[1]]]
        return False

    def binop(self, st, op, ty, x, y, flags):
        if ty.k == 'double':
            if op == 'fadd': return dadd(x, y)
            if op == 'fsub': return dsub(x, y)
            if op == 'fmul': return dmul(x, y)
            if op == 'fdiv': return ddiv(x, y)
            raise ToolLimit(op)
        if ty.k != 'int': raise ToolLimit('%s on %s' % (op, ty.k))
        w = ty.a
        if w == 1:
            if op == 'xor': return bnot(beq(x, y))
            if op == 'and': return band(x, y)
            if op == 'or': return bor(x, y)
            raise ToolLimit('i1 ' + op)
        x = b2i(x); y = b2i(y)
        if 'nsw' in flags and w >= 32 and op in ('add', 'sub', 'mul'):
            # signed overflow is undefined behaviour: assumed not to happen, as the compiler does
            self.notes['signed arithmetic of %d bits is mathematical (overflow is undefined behaviour)' % w] = 1
            if op == 'add': return iadd(x, y)
            if op == 'sub': return isub(x, y)
            if isinstance(x, int) or isinstance(y, int): return imul(x, y)
        if op == 'add': return wrap(iadd(x, y), w)
        if op == 'sub': return wrap(isub(x, y), w)
        if op == 'mul':
            if isinstance(x, int) or isinstance(y, int): return wrap(imul(x, y), w)
            if w == 64: return z3.simplify(zi(x) * zi(y))
            raise ToolLimit('nonlinear multiplication')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u': x = unsig(x, w); y = unsig(y, w)
            if isinstance(y, int):
                if y == 0: self.oblige(st, False, 'divisor is not zero')
                if op[0] == 's':
                    lo, hi = rng(x)
                    if lo is None or lo < 0:
                        if isinstance(x, int):
                            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                            return q if op == 'sdiv' else x - q * y
                        if y > 0:
                            q = iite(ile(0, x), idiv(x, y), ineg(idiv(ineg(x), y)))
                            return q if op == 'sdiv' else isub(x, imul(q, y))
                        raise ToolLimit('signed division')
                if y > 0:
                    if w == 64 and op[0] == 'u':
                        lo, hi = rng(x)
                    return idiv(x, y) if op[1:] == 'div' else imod(x, y)
            self.oblige(st, bnot(icmp_eq(y, 0)), 'divisor is not zero')
            return ufun('arith.' + op, (x, y), IntS)
        if op == 'shl':
            if isinstance(y, int): return wrap(imul(x, 1 << y), w)
            raise ToolLimit('variable shift')
        if op == 'lshr':
            if isinstance(y, int): return wrap(idiv(unsig(x, w), 1 << y), w)
            raise ToolLimit('variable shift')
        if op == 'ashr':
            if isinstance(y, int): return idiv(x, 1 << y)
            raise ToolLimit('variable shift')
        if op in ('and', 'or', 'xor'):
            if isinstance(x, int) and isinstance(y, int):
                return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            if isinstance(x, int): x, y = y, x
            return self.bitop(op, w, x, y, st)
        raise ToolLimit(op)
    def bitop(self, op, w, x, y, st=None):
        if op == 'xor':
            if isinstance(y, int) and y == -1: return isub(-1, x)
            return ufun('bit.xor%d' % w, tuple(sorted((x, y), key=lambda t: (1, tid(t)) if z3.is_expr(t) else (0, t))), IntS)
        if op == 'and' and isinstance(y, int):
            m = y % (1 << w)
            if m == 0: return 0
            if m == (1 << w) - 1: return x
            # contiguous mask
            lo = (m & -m).bit_length() - 1
            if (m >> lo) & ((m >> lo) + 1) == 0:
                hi = m.bit_length()
                u = unsig(x, w)
                r = imod(idiv(u, 1 << lo), 1 << (hi - lo)) if hi < w else idiv(u, 1 << lo)
                return wrap(imul(r, 1 << lo), w)
            # sum of contiguous runs
            r = 0; b = 0; u = unsig(x, w)
            while m >> b:
                if (m >> b) & 1:
                    e = b
                    while (m >> e) & 1: e += 1
                    r = iadd(r, imul(imod(idiv(u, 1 << b), 1 << (e - b)), 1 << b)); b = e
                else: b += 1
            return wrap(r, w)
        if op == 'or':
            # disjoint bits become addition
            ux, uy = unsig(x, w), unsig(y, w)
            for p, q in ((ux, uy), (uy, ux)):
                lo, hi = rng(q)
                if lo is not None and lo >= 0 and hi is not None:
                    sh = hi.bit_length()
                    t = self.trailing(p)
                    if t >= sh: return wrap(iadd(p, q), w)
            if st is not None and not (isinstance(y, int) and 0 <= y):
                for p, q in ((ux, uy), (uy, ux)):
                    t = self.trailing(p)
                    if 0 < t < 64 and prove(st.pc, band(ile(0, q), ilt(q, 1 << t)), rounds=2) is True: return wrap(iadd(p, q), w)
                    if 0 < t < 64:
                        q2 = {id(ux): x, id(uy): y}.get(id(q), q)
                        if q2 is not q and prove(st.pc, band(ile(0, q2), ilt(q2, 1 << t)), rounds=2) is True: return wrap(iadd(p, q2), w)
            if isinstance(y, int) and 0 <= y:
                # or with a constant: x + (c without the bits of x)
                t = self.bitop('and', w, x, y)
                return wrap(iadd(x, isub(y, t)), w)
            return ufun('bit.or%d' % w, tuple(sorted((x, y), key=lambda t: (1, tid(t)) if z3.is_expr(t) else (0, t))), IntS)
        lo, hi = rng(x); l2, h2 = rng(y)
        return ufun('bit.and%d' % w, tuple(sorted((x, y), key=lambda t: (1, tid(t)) if z3.is_expr(t) else (0, t))), IntS)
    def trailing(self, e):
        """number of provably zero low bits"""
        d, c = lin(e)
        t = 64
        def tz(n): return 64 if n == 0 else (n & -n).bit_length() - 1
        t = tz(c)
        for co, x in d.values():
            k = tz(abs(co))
            t = min(t, k)
        return t

    def icmp(self, pred, ty, x, y):
        if ty.k == 'ptr':
            if pred == 'eq': return peq(x, y)
            if pred == 'ne': return bnot(peq(x, y))
            # same-container ordering
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.root == y.root and len(x.hops) == len(y.hops) and x.hops and x.off == y.off == 0:
                return self.icmp(pred, ir.INT(64), x.hops[-1][1], y.hops[-1][1])
            raise ToolLimit('pointer ordering')
        w = ty.a
        if w == 1:
            if isinstance(x, bool) or isinstance(y, bool) or True:
                e = beq(x if not isinstance(x, int) or isinstance(x, bool) else bool(x), y if not isinstance(y, int) or isinstance(y, bool) else bool(y))
                if pred == 'eq': return e
                if pred == 'ne': return bnot(e)
                raise ToolLimit('i1 compare')
        x, y = b2i(x), b2i(y)
        if isinstance(x, Node) or isinstance(y, Node):
            raise ToolLimit('integer comparison of a non-integer')
        if pred == 'eq': return icmp_eq(x, y)
        if pred == 'ne': return bnot(icmp_eq(x, y))
        if pred[0] == 'u':
            if w == 64:
                # 64-bit unsigned: mathematical, non-negative by convention; -1 constants are huge
                if isinstance(x, int) and x < 0: x = x + (1 << 64)
                if isinstance(y, int) and y < 0: y = y + (1 << 64)
            else:
                x, y = unsig(x, w), unsig(y, w)
        return {'lt': ilt(x, y), 'le': ile(x, y), 'gt': ilt(y, x), 'ge': ile(y, x)}[pred[1:]]
    def fcmp(self, pred, x, y):
        if pred == 'true': return True
        if pred == 'false': return False
        nan = bor(dnan(x), dnan(y))
        if pred == 'uno': return nan
        if pred == 'ord': return bnot(nan)
        o = {'eq': lambda: dcmp('eq', x, y), 'lt': lambda: dcmp('lt', x, y), 'le': lambda: dcmp('le', x, y),
             'gt': lambda: dcmp('lt', y, x), 'ge': lambda: dcmp('le', y, x)}
        p = pred[1:]
        if pred[0] == 'o':
            if p == 'ne': return band(bnot(nan), bnot(dcmp('eq', x, y)))
            return o[p]()
        if p == 'ne': return bnot(dcmp('eq', x, y))
        # unordered = not (opposite ordered)
        opp = {'eq': None, 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[p]
        if opp is None: return bor(nan, dcmp('eq', x, y))
        return bnot(o[opp]())
    def cast(self, st, op, ft, ty, v):
        if op == 'bitcast' or op == 'addrspacecast':
            return v
        if op == 'zext':
            if ft.a == 1: return b2i(v)
            return unsig(v, ft.a)
        if op == 'sext':
            if ft.a == 1: return ineg(b2i(v))
            return v
        if op == 'trunc':
            if isinstance(v, Packed): raise ToolLimit('trunc of packed value')
            if ty.a == 1:
                if isinstance(v, bool): return v
                if isinstance(v, int): return bool(v & 1)
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    p, q = simp_i(v.arg(1)), simp_i(v.arg(2))
                    if isinstance(p, int) and isinstance(q, int): return biteb(simp_b(v.arg(0)), bool(p & 1), bool(q & 1))
                    return biteb(simp_b(v.arg(0)), self.cast(st, op, ft, ty, p), self.cast(st, op, ft, ty, q))
                lo, hi = rng(v)
                return bnot(icmp_eq(imod(v, 2), 0))
            if z3.is_expr(v) and ty.a >= 16:
                lo, hi = rng(v)
                if lo is not None and lo >= 0 and (hi is None or hi >= 2 ** ty.a) and prove(st.pc, ilt(v, 2 ** ty.a), 1, 300) is True: return wrap(v, ty.a, fits=True)
            return wrap(v, ty.a)
        if op in ('uitofp', 'sitofp'):
            if ft.a == 1: v = b2i(v)
            elif op == 'uitofp': v = unsig(v, ft.a)
            if ty.k != 'double': raise ToolLimit('float')
            return i2d(v)
        if op in ('fptoui', 'fptosi'):
            return wrap(d2i(v), ty.a) if ty.a >= 64 else self.fptoi(v, ty.a)
        if op == 'ptrtoint':
            r = heap_ref(v)
            if r is not None: return r
            raise ToolLimit('ptrtoint')
        if op == 'inttoptr': raise ToolLimit('inttoptr')
        raise ToolLimit(op)
    def fptoi(self, v, w):
        r = d2i(v)
        if isinstance(r, int): return wrap(r, w)
        return ufun('d.toi%d' % w, (v,), IntS)

    # ---- calls
    def do_call(self, fr, ins, st):
        a = ins.a
        mod = fr.fn.mod
        if a['fn'][0] == 'asm': return (st, None), None
        fnc = a['fn']
        args = []
        for t, v, at in a['args']:
            args.append(UNDEF if t is ir.META else self.ev(st, fr, t, v))
        callee = self.ev(st, fr, ir.PTR, fnc)
        if isinstance(callee, PIte):
            cs = pcases(callee)
            outs = []; exs = []
            for c, q in cs:
                s2 = st.copy()
                if not s2.assume(c): continue
                n, e = self.invoke_ptr(fr, ins, s2, q, list(args))
                if n: outs.append(n)
                if e: exs.append(e)
            normal = None
            if outs:
                for s, v in outs: s.regs['$ret'] = v if v is not None else 0
                m = merge_states([s for s, v in outs])
                normal = (m, m.regs.pop('$ret', None))
            return normal, (merge_states(exs) if exs else None)
        return self.invoke_ptr(fr, ins, st, callee, args)
    def invoke_ptr(self, fr, ins, st, callee, args):
        mod = fr.fn.mod
        if not isinstance(callee, Ptr): raise ToolLimit('indirect call through %r' % (callee,))
        if callee.root is None:
            self.oblige(st, False, 'called function pointer is not null')
        if callee.root == 'HEAP':
            return self.virtual(fr, ins, st, callee, args)
        if callee.root[0] != 'f': raise ToolLimit('call of data pointer')
        _, tag, name = callee.root
        m2 = mod
        if tag: m2 = [m for m in self.mods if m.tag == tag][0]
        h = self.intr.get(name)
        if h is None and name.startswith('llvm.'):
            for p, hh in self.intr['llvm'].items():
                if name.startswith(p): h = hh; break
        if h is not None:
            r = h(self, st, args, ins)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (tuple, type(None))): return r
            return (st, r), None
        ct = self.contracts.get(name)
        if ct is not None:
            return ct(self, st, args, ins)
        fn = self.lookup(m2, name)
        if fn is None or not hasattr(fn, 'text'):
            raise ToolLimit('no body and no contract for ' + self.dem(name))
        va = None
        if fn.vararg: va = tuple(args[len(fn.args):])
        return self.call(st, fn, args[:len(fn.args)], va)
    def virtual(self, fr, ins, st, callee, args):
        # slot number = last hop index of the table access
        slot = None
        f = callee.hops[-1][1]
        def slots(f):
            if not z3.is_app(f) or f.num_args() < 1: return {None}
            if f.decl().kind() == z3.Z3_OP_ITE: return slots(f.arg(1)) | slots(f.arg(2))
            return {simp_i(f.arg(f.num_args() - 1))}
        if z3.is_expr(f):
            sl = slots(f)
            if len(sl) == 1: slot = sl.pop()
            else: raise ToolLimit('virtual call through one of several table slots')
        name = '__v_virtual_%s' % slot
        fn = self.funcs.get(name)
        if fn is None: raise ToolLimit('virtual call of unknown object, slot %s' % slot)
        return self.call(st, fn, args)
    def dem(self, name):
        if name not in self.demangle_cache:
            try:
                self.demangle_cache[name] = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip() or name
            except Exception:
                self.demangle_cache[name] = name
        return self.demangle_cache[name]

def b2i(v):
    if isinstance(v, bool): return int(v)
    if z3.is_expr(v) and v.sort() == BoolS: return iite(v, 1, 0)
    return v
def p_off(p): return p.off
def padd(p, n):
    if isinstance(p, PIte): return pite(p.c, padd(p.a, n), padd(p.b, n))
    if n == 0: return p
    if p.root is None: return p      # a member of a null object: any access through it is refused
    return mkptr(p.root, p.hops, p.off + n)
