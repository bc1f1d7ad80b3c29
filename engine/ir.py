"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the real sources."""
import re, sys

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | [%@!]"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9]*
 | \#[0-9]+
 | 0x[0-9A-Fa-fKLMHR]+
 | -?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | [a-zA-Z_$.][-a-zA-Z_$.0-9]*
 | \.\.\.
 | [()\[\]{}<>,=*:|]
''', re.X)

class IRError(Exception):
    pass

# ---- types
class T:
    __slots__ = ('k', 'a', '_sz', '_off', '_al')
    def __init__(s, k, a=None):
        s.k = k; s.a = a; s._sz = None; s._off = None; s._al = None
    def __repr__(s):
        return '%s%s' % (s.k, '' if s.a is None else ':' + repr(s.a))

VOID = T('void'); PTR = T('ptr'); DOUBLE = T('double'); FLOAT = T('float'); LABEL = T('label'); META = T('metadata')
INTS = {}
def INT(n):
    if n not in INTS:
        INTS[n] = T('int', n)
    return INTS[n]

def align_up(x, a):
    return (x + a - 1) // a * a

class Module:
    def __init__(self, path, tag):
        self.tag = tag
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.meta = {}
        self.aliases = {}
        self.parse(path if "\n" in path else open(path).read())

    # -- layout
    def resolve(self, t):
        while t.k == 'named':
            if t.a not in self.types or self.types[t.a] is None:
                raise IRError('opaque type ' + t.a)
            t = self.types[t.a]
        return t
    def size(self, t):
        t = self.resolve(t)
        if t._sz is None:
            self.layout(t)
        return t._sz
    def align(self, t):
        t = self.resolve(t)
        if t._sz is None:
            self.layout(t)
        return t._al
    def layout(self, t):
        if t.k == 'int':
            b = 1
            while b * 8 < t.a: b *= 2
            t._sz = b; t._al = min(b, 16)
        elif t.k == 'ptr': t._sz = t._al = 8
        elif t.k == 'double': t._sz = t._al = 8
        elif t.k == 'float': t._sz = t._al = 4
        elif t.k == 'fp': t._sz = t._al = 16
        elif t.k == 'arr':
            n, e = t.a
            t._sz = n * align_up(self.size(e), self.align(e)); t._al = self.align(e)
        elif t.k == 'vec':
            n, e = t.a
            t._sz = n * self.size(e); t._al = t._sz
        elif t.k in ('struct', 'packed'):
            o = 0; al = 1; offs = []
            for e in t.a:
                ea = 1 if t.k == 'packed' else self.align(e)
                o = align_up(o, ea); offs.append(o); o += self.size(e); al = max(al, ea)
            t._off = offs; t._sz = align_up(o, al); t._al = al
        else:
            raise IRError('layout of ' + repr(t))
    def field_off(self, t, i):
        t = self.resolve(t); self.size(t)
        return t._off[i]

    # -- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1; continue
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_define(l, lines[i + 1:j])
                i = j + 1; continue
            if l.startswith('declare '):
                f = self.parse_header(l)
                self.funcs.setdefault(f.name, f)
            elif l[0] == '%':
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    self.types[m.group(1)] = None if m.group(2) == 'opaque' else m.group(2)
            elif l[0] == '@':
                self.parse_global(l)
            elif l[0] == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        for k, v in list(self.types.items()):
            if isinstance(v, str):
                self.types[k] = P(self, v).type()

    def parse_global(self, l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        if re.search(r'\balias\b', rest.split('(')[0]) :
            mm = re.search(r'alias .*, ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[name] = mm.group(1).strip('"')
            return
        m = re.search(r'\b(global|constant)\b (.*)$', rest)
        internal = re.match(r'(private|internal)\b', rest) is not None
        self.globals[name] = dict(internal=internal, const=m.group(1) == 'constant', text=m.group(2), ext=bool(re.search(r'\bexternal\b', rest[:m.start()])), mod=self, name=name)

    def global_init(self, g):
        """-> (type, const value or None)"""
        if 'ty' not in g:
            p = P(self, g['text'])
            g['ty'] = p.type()
            g['init'] = None
            if not g['ext']:
                g['init'] = p.const(g['ty'])
        return g['ty'], g['init']

    def parse_header(self, l):
        # strip up to the @name
        m = re.match(r'(?:define|declare) (.*?)@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\((.*)$', l)
        pre, name, rest = m.group(1), m.group(2).strip('"'), m.group(3)
        f = Func(); f.mod = self; f.name = name; f.internal = bool(re.search(r'\b(internal|private)\b', pre))
        f.pre = pre
        p = P(self, '(' + rest)
        p.expect('(')
        f.args = []
        f.vararg = False
        while p.peek() != ')':
            if p.peek() == '...':
                p.next(); f.vararg = True
            else:
                t = p.type(); at = p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                f.args.append((t, nm, at))
            if p.peek() == ',': p.next()
        p.next()
        # return type
        pp = P(self, pre)
        skip = {'define','internal','private','linkonce_odr','weak_odr','linkonce','weak','dso_local','hidden','external','local_unnamed_addr','available_externally','noundef','zeroext','signext','nonnull','noalias','spir_func','fastcc','unnamed_addr','extern_weak','default','dso_preemptable'}
        while pp.i < len(pp.t):
            w = pp.peek()
            if w in ('align',): pp.next(); pp.next(); continue
            if w in ('dereferenceable','dereferenceable_or_null'):
                pp.next(); pp.next(); pp.next(); pp.next(); continue
            if w in skip: pp.next(); continue
            break
        f.ret = pp.type()
        f.body = None
        m = re.search(r'!dbg !(\d+)', rest)
        f.dbg = m.group(1) if m else None
        return f

    def parse_define(self, l, body):
        f = self.parse_header(l)
        f.text = body
        self.funcs[f.name] = f

class Func:
    blocks = None
    def get_blocks(self):
        if self.blocks is None:
            self.parse_body()
        return self.blocks
    def parse_body(self):
        blocks = {}; order = []
        cur = None
        n_unnamed = len(self.args)
        # first (entry) label is implicit
        lines = self.text
        i = 0
        if not re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', lines[0] if lines else ''):
            cur = Block('entry0'); blocks['entry0'] = cur; order.append(cur)
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm); blocks[nm] = cur; order.append(cur)
                continue
            s = l.strip()
            if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[',1)[1]:
                while True:
                    l2 = lines[i].strip(); i += 1
                    s += ' ' + l2
                    if l2.startswith(']'): break
            elif re.search(r'= (landingpad|invoke|phi|call)\b|^invoke |^call ', s):
                # continuation lines (landingpad clauses, invoke's 'to label')
                while i < len(lines) and (lines[i].startswith('          ') ):
                    s += ' ' + lines[i].strip(); i += 1
            cur.raw.append(s)
        for b in order:
            b.ins = [parse_instr(self.mod, s) for s in b.raw]
        self.entry = order[0].name
        self.blocks = blocks
        self.order = order
    def line(self, ins):
        m = self.mod.meta.get(ins.dbg or '')
        if m:
            mm = re.search(r'line: (\d+)', m)
            return int(mm.group(1)) if mm else 0
        return 0
    def file(self):
        m = self.mod.meta.get(self.dbg or '')
        if m:
            mm = re.search(r'file: !(\d+)', m)
            if mm:
                fm = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', self.mod.meta.get(mm.group(1), ''))
                if fm:
                    fn = fm.group(1)
                    return fn if fn.startswith('/') else fm.group(2) + '/' + fn
        return '?'

class Block:
    def __init__(s, name):
        s.name = name; s.raw = []; s.ins = None
    def succs(s):
        t = s.ins[-1]
        if t.op == 'br':
            return [t.a['t']] + ([t.a['f']] if 'f' in t.a else [])
        if t.op == 'switch':
            return [t.a['def']] + [x[1] for x in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

class Ins:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text')
    def __init__(s, op, res, a, dbg, text):
        s.op = op; s.res = res; s.a = a; s.dbg = dbg; s.text = text
    def __repr__(s):
        return s.text

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned','inreg','immarg','nest','swiftself','noreturn','nofree','allocptr','writable','dead_on_unwind','allocalign'}

class P:
    def __init__(s, mod, text):
        s.mod = mod; s.t = TOK.findall(text); s.i = 0
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1
        return x
    def expect(s, x):
        y = s.next()
        if x != y:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(s.t)[:300]))
    def type(s):
        w = s.next()
        if w == 'void': t = VOID
        elif w == 'ptr': t = PTR
        elif w == 'double': t = DOUBLE
        elif w == 'float': t = FLOAT
        elif w in ('x86_fp80', 'fp128'): t = T('fp', w)
        elif w == 'label': t = LABEL
        elif w == 'metadata': t = META
        elif w == 'token' : t = META
        elif re.match(r'i\d+$', w): t = INT(int(w[1:]))
        elif w == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']')
            t = T('arr', (n, e))
        elif w == '{':
            a = []
            while s.peek() != '}':
                a.append(s.type())
                if s.peek() == ',': s.next()
            s.next(); t = T('struct', a)
        elif w == '<':
            if s.peek() == '{':
                s.next(); a = []
                while s.peek() != '}':
                    a.append(s.type())
                    if s.peek() == ',': s.next()
                s.next(); s.expect('>'); t = T('packed', a)
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = T('vec', (n, e))
        elif w[0] == '%': t = T('named', w)
        else:
            raise IRError('type? %s in %s' % (w, ' '.join(s.t)[:300]))
        # function type
        if s.peek() == '(' and s.i < len(s.t):
            # only consume if this is a function type: used in call sites "call void (ptr, ...) @f"
            d = 0; j = s.i
            while True:
                if s.t[j] == '(': d += 1
                if s.t[j] == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            s.i = j + 1
        return t
    def attrs(s):
        at = {}
        while True:
            w = s.peek()
            if w in PARAM_ATTRS: at[w] = True; s.next()
            elif w == 'align':
                s.next(); s.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null'):
                s.next(); s.expect('('); s.next(); s.expect(')')
            elif w in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                s.next(); s.expect('('); at[w] = s.type(); s.expect(')')
            else:
                return at
    def const(s, ty):
        """constant or local operand of type ty"""
        w = s.next()
        if w[0] == '%': return ('loc', w[1:].strip('"'))
        if w[0] == '@': return ('glob', w[1:].strip('"'))
        if w == 'true': return ('int', 1)
        if w == 'false': return ('int', 0)
        if w == 'null': return ('null',)
        if w in ('undef', 'poison'): return ('undef',)
        if w == 'zeroinitializer': return ('zero',)
        if w == 'none': return ('undef',)
        if w.startswith('c"'):
            b = w[2:-1].encode('latin1')
            out = bytearray(); i = 0
            while i < len(b):
                if b[i:i+1] == b'\\':
                    if b[i+1:i+2] == b'\\': out.append(92); i += 2
                    else:
                        out.append(int(b[i+1:i+3], 16)); i += 3
                else:
                    out.append(b[i]); i += 1
            return ('bytes', bytes(out))
        if ty is not None and ty.k in ('double', 'float'):
            import struct
            if w.startswith('0x'):
                return ('fp', struct.unpack('>d', bytes.fromhex(w[2:].zfill(16)))[0] if not w[2].isalpha() or w[2] in '0123456789ABCDEFabcdef' else None)
            return ('fp', float(w))
        if re.match(r'-?\d+$', w): return ('int', int(w))
        if w in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[w]
            if w == '<' and s.peek() == '{':
                s.next(); close = '}'
                vals = s.constlist('}'); s.expect('>')
                return ('agg', vals)
            return ('agg', s.constlist(close))
        if w == 'getelementptr':
            while s.peek() in ('inbounds', 'inrange'): s.next()
            s.expect('(')
            while s.peek() == 'inbounds': s.next()
            bt = s.type(); s.expect(',')
            pt = s.type(); base = s.const(pt)
            idx = []
            while s.peek() == ',':
                s.next()
                while s.peek() in ('inrange',): s.next()
                it = s.type(); idx.append((it, s.const(it)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); ft = s.type(); v = s.const(ft); s.expect('to'); tt = s.type(); s.expect(')')
            return ('cast', w, ft, v, tt)
        if w in ('sub', 'add'):
            while s.peek() in ('nsw', 'nuw'): s.next()
            s.expect('('); t1 = s.type(); a = s.const(t1); s.expect(','); t2 = s.type(); b = s.const(t2); s.expect(')')
            return ('bin', w, t1, a, b)
        if w == 'blockaddress' or w == 'dso_local_equivalent' or w == 'no_cfi':
            raise IRError('const ' + w)
        raise IRError('const? %s in %s' % (w, ' '.join(s.t)[:200]))
    def constlist(s, close):
        vals = []
        while s.peek() != close:
            t = s.type(); vals.append((t, s.const(t)))
            if s.peek() == ',': s.next()
        s.next()
        return vals

FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg', 'disjoint', 'volatile', 'atomic', 'tail', 'musttail', 'notail', 'samesign'}
BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast','addrspacecast'}

def parse_instr(mod, s):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m: dbg = m.group(1)
    text = s
    s = re.sub(r'(, ![a-zA-Z._]+ !\d+)+$', '', s)
    res = None
    m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ', s)
    if m:
        res = m.group(1)[1:].strip('"'); s = s[m.end():]
    p = P(mod, s)
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    fl = set()
    def flags():
        while p.peek() in FLAGS: fl.add(p.next())
    a = {}
    if op == 'alloca':
        if p.peek() == 'inalloca': p.next()
        a['ty'] = p.type()
        a['n'] = None
        if p.peek() == ',':
            p.next()
            if p.peek() != 'align':
                t = p.type(); a['n'] = p.const(t)
    elif op == 'load':
        flags(); a['ty'] = p.type(); p.expect(','); t = p.type(); a['p'] = p.const(t)
    elif op == 'store':
        flags(); a['ty'] = p.type(); a['v'] = p.const(a['ty']); p.expect(','); t = p.type(); a['p'] = p.const(t)
    elif op == 'getelementptr':
        flags()
        a['ty'] = p.type(); p.expect(','); t = p.type(); a['p'] = p.const(t); a['idx'] = []
        while p.peek() == ',':
            p.next(); it = p.type(); a['idx'].append((it, p.const(it)))
    elif op in BIN:
        flags(); a['ty'] = p.type(); a['a'] = p.const(a['ty']); p.expect(','); a['b'] = p.const(a['ty'])
    elif op == 'fneg':
        flags(); a['ty'] = p.type(); a['a'] = p.const(a['ty'])
    elif op in ('icmp', 'fcmp'):
        flags(); a['pred'] = p.next(); a['ty'] = p.type(); a['a'] = p.const(a['ty']); p.expect(','); a['b'] = p.const(a['ty'])
    elif op in CAST:
        flags(); a['ft'] = p.type(); a['v'] = p.const(a['ft']); p.expect('to'); a['ty'] = p.type()
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); a['t'] = p.next()[1:].strip('"')
        else:
            t = p.type(); a['c'] = p.const(t); p.expect(','); p.expect('label'); a['t'] = p.next()[1:].strip('"'); p.expect(','); p.expect('label'); a['f'] = p.next()[1:].strip('"')
    elif op == 'switch':
        a['ty'] = p.type(); a['v'] = p.const(a['ty']); p.expect(','); p.expect('label'); a['def'] = p.next()[1:].strip('"'); p.expect('[')
        a['cases'] = []
        while p.peek() != ']':
            t = p.type(); c = p.const(t); p.expect(','); p.expect('label'); a['cases'].append((c[1], p.next()[1:].strip('"')))
    elif op == 'ret':
        a['ty'] = p.type()
        a['v'] = None if a['ty'] is VOID else p.const(a['ty'])
    elif op == 'unreachable':
        pass
    elif op == 'phi':
        flags(); a['ty'] = p.type(); a['in'] = []
        while True:
            p.expect('['); v = p.const(a['ty']); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
            a['in'].append((v, b))
            if p.peek() == ',': p.next()
            else: break
    elif op == 'select':
        flags(); t = p.type(); a['c'] = p.const(t); p.expect(','); a['ty'] = p.type(); a['a'] = p.const(a['ty']); p.expect(','); t = p.type(); a['b'] = p.const(t)
    elif op == 'extractvalue':
        a['ty'] = p.type(); a['v'] = p.const(a['ty']); a['idx'] = []
        while p.peek() == ',':
            p.next(); a['idx'].append(int(p.next()))
    elif op == 'insertvalue':
        a['ty'] = p.type(); a['v'] = p.const(a['ty']); p.expect(','); a['et'] = p.type(); a['e'] = p.const(a['et']); a['idx'] = []
        while p.peek() == ',':
            p.next(); a['idx'].append(int(p.next()))
    elif op == 'landingpad':
        a['ty'] = p.type(); a['cleanup'] = False; a['clauses'] = []
        while p.peek():
            w = p.next()
            if w == 'cleanup': a['cleanup'] = True
            elif w in ('catch', 'filter'):
                t = p.type(); a['clauses'].append((w, p.const(t)))
            else: break
    elif op == 'resume':
        a['ty'] = p.type(); a['v'] = p.const(a['ty'])
    elif op == 'freeze':
        a['ty'] = p.type(); a['v'] = p.const(a['ty'])
    elif op in ('call', 'invoke'):
        flags()
        while True:
            w = p.peek()
            if w in ('fastcc', 'ccc', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'spir_func') or w in FLAGS: p.next()
            elif w == 'align': p.next(); p.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null'):
                p.next(); p.next(); p.next(); p.next()
            else: break
        a['ty'] = p.type()
        if p.peek() in ('asm',):
            a['fn'] = ('asm',); a['args'] = []
            return Ins(op, res, a, dbg, text)
        a['fn'] = p.const(PTR)
        p.expect('('); a['args'] = []
        while p.peek() != ')':
            t = p.type(); at = p.attrs()
            if t is META:
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    w = p.next()
                    if w == '(' : d += 1
                    if w == ')' : d -= 1
                a['args'].append((t, ('undef',), at))
            else:
                a['args'].append((t, p.const(t), at))
            if p.peek() == ',': p.next()
        p.next()
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); a['normal'] = p.next()[1:].strip('"'); p.expect('unwind'); p.expect('label'); a['unwind'] = p.next()[1:].strip('"')
    else:
        raise IRError('instruction ' + s)
    a['flags'] = fl
    return Ins(op, res, a, dbg, text)
