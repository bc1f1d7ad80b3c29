"""Driver of the deductive part: compiles the real sources together with a contract file to LLVM IR,
executes every contract function symbolically, discharges the obligations."""
import os, re, subprocess, sys, time, hashlib, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
import ir, val, smt, exec as ex_, intr, seqp, small
from val import ToolLimit

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++', '-std=c++11', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-nostdinc++',
       '-w', '-DHAVE_ZLIB', '-fno-access-control']

def work_dir():
    d = os.path.join(os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build')), 'ir')
    os.makedirs(d, exist_ok=True)
    inc = os.path.join(d, 'inc', 'prometheus', 'detail')
    os.makedirs(inc, exist_ok=True)
    for n in ('core', 'pull', 'push'):
        p = os.path.join(inc, n + '_export.h')
        U = n.upper()
        t = '#pragma once\n#define PROMETHEUS_CPP_%s_EXPORT\n#define PROMETHEUS_CPP_%s_NO_EXPORT\n#define PROMETHEUS_CPP_%s_DEPRECATED\n' % (U, U, U)
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    return d

def includes(d):
    r = ['-I', os.path.join(VERIF, 'vstl'), '-I', os.path.join(d, 'inc')]
    for m in ('core', 'pull', 'push', 'util'): r += ['-I', '%s/%s/include' % (REPO, m)]
    for m in ('core/src', 'core/src/detail', 'pull/src', 'pull/src/detail', 'push/src', 'push/src/detail'): r += ['-I', '%s/%s' % (REPO, m)]
    r += ['-I', os.path.join(VERIF, 'specs')]
    return r

class CompileError(Exception): pass

def compile_one(d, src, tag, defs=()):
    out = os.path.join(d, tag + '.%d.ll' % os.getpid())
    p = subprocess.run(CXX + list(defs) + includes(d) + [src, '-o', out], capture_output=True, text=True)
    if p.returncode: raise CompileError(src + '\n' + p.stderr[:3000])
    t = open(out).read()
    os.unlink(out)
    return t

def all_sources():
    r = []
    for m in ('core', 'pull', 'push', 'util'):
        for root, ds, fs in os.walk(os.path.join(REPO, m, 'src')):
            for f in sorted(fs):
                if f.endswith('.cc'): r.append(os.path.join(root, f))
    return sorted(r)

class Result: pass

def load(spec, sources, defs=()):
    d = work_dir()
    jobs = [(s, re.sub(r'\W', '_', os.path.relpath(s, REPO))) for s in sources] + [(spec, 'spec_' + os.path.basename(spec).replace('.', '_'))]
    with ThreadPoolExecutor(8) as tp:
        texts = list(tp.map(lambda j: compile_one(d, j[0], j[1], defs), jobs))
    mods = [ir.Module(t, j[1]) for t, j in zip(texts, jobs)]
    return mods

def expand(patterns):
    r = []
    for p in patterns:
        if p.endswith('*'):
            r += [os.path.relpath(x, REPO) for x in all_sources() if os.path.relpath(x, REPO).startswith(p[:-1])]
        else: r.append(p)
    return r

def entry_names(specmod):
    return [n for n in specmod.funcs if n.startswith('t_') and hasattr(specmod.funcs[n], 'text')]

def opaque():
    """does the last query mention a symbol that is only partially axiomatised (so that a model proves nothing)?"""
    import loops
    s, q = smt.check.last
    owners = {f.owner for f in smt.QFACTS}
    for nm in q.apps:
        if nm.startswith('hv!') or nm in smt.FACTS or nm in owners or nm in val.SUMNAME or nm in loops.FOLDS or nm.startswith(('fold!', 'K!', 'd.add', 'd.mul', 'd.div', 'd.floor', 'arith.', 'bit.', 'undefc!', 'W!', 'qa!', 'seqid', 'clen!', 'str.lt', 'hash.')): return nm
    return None

def execute(E, S, fn, R, verbose):
    try:
        normal, exc = E.call(S, fn, [])
        R.normal = normal is not None; R.exc = exc is not None
        if exc is not None:
            o = ex_.Obl(); o.name = 'the contract function does not throw'; o.loc = fn.name if hasattr(fn, 'name') else ''; o.pc = exc.pc; o.goal = False; o.kind = 'safety'; o.status = None; o.note = ''; o.fn = R.name
            E.obls.append(o)
        if normal is not None: E.reached.setdefault('end', []).append(tuple(normal[0].pc))
    except ToolLimit as e:
        R.limit = str(e)[:400]
        R.where = E.stack_where() if hasattr(E, 'stack_where') else ''
        if verbose and os.environ.get('VTB'): import traceback; traceback.print_exc()
    except ex_.Dead:
        R.normal = False; R.exc = False
    except RecursionError:
        R.limit = 'recursion limit of the tool'
    except MemoryError:
        R.limit = 'memory'
    except Exception as e:
        if verbose and os.environ.get('VTB'): import traceback; traceback.print_exc()
        R.limit = 'internal error: %s: %s' % (type(e).__name__, str(e)[:200])

def entry(mods, n, end, verbose=False):
    specmod = mods[-1]
    R = Result()
    R.name = n; R.limit = None; R.where = ''; R.obls = []; R.counts = {'proved': 0, 'refuted': 0, 'unknown': 0}; R.trivial = {}
    R.reached = {}
    t1 = time.time()
    E = ex_.Executor(mods, intr.I)
    # a contract that stands for a function the sources no longer have says nothing about them
    lost = [x for x in E.overrides if not any(x in m.funcs for m in mods)]
    if lost:
        R.limit = 'no function to put this contract on: ' + ', '.join(E.dem(x) for x in lost)[:300]; R.notes = {}; R.trust = {}; R.loops = {}; R.used = []; R.funcs = set(); R.t_exec = R.t = 0
        if verbose: print(n, 'LIMIT', R.limit)
        return R
    E.budget = t1 + (end - t1) * 0.6
    E.monitor = None
    if hasattr(val.Amb.stack, 'clear'): val.Amb.stack.clear()
    S = ex_.State()
    execute(E, S, specmod.funcs[n], R, verbose)
    R.trivial = E.trivial; R.notes = E.notes; R.trust = E.trust; R.loops = E.loops_done; R.used = sorted(E.dem(n) for n in E.used_contracts)
    R.funcs = {(f.file(), nm) for nm, f in E.calls}
    R.t_exec = time.time() - t1
    R.obls = E.obls
    for o in sorted(R.obls, key=lambda o: isinstance(o.goal, tuple)):   # sequences last: they can take long
        t2 = time.time(); o.model = ''; seqp.deadline[0] = t2 + max(60, (end - t2) * 0.4)
        if time.time() > end: st = 'unknown'; o.note = 'time'
        else:
            try:
                st = seqp.discharge(o)
                if st == 'refuted' and o.kind == 'soft': st = 'unknown'; o.note = 'only a sufficient condition'
                if st == 'refuted':
                    op = 'a loop invariant' if E.used_inv else opaque()
                    if op: st = 'unknown'; o.note = 'candidate counterexample depends on ' + op
                    else:
                        try: o.model = str(smt.check.last[0].model())[:3000]
                        except z3.Z3Exception: o.model = ''
                if st == 'unknown' and o.kind != 'soft' and not E.used_inv:
                    m = small.confirm(o)
                    if m is not None: st = 'refuted'; o.model = m; o.note = 'counterexample with every loop and definition unfolded'
                    else: o.note += '; no small counterexample (%s)' % small.confirm.why
            except ToolLimit as e: st = 'unknown'; o.note = str(e)
            except z3.Z3Exception as e: st = 'unknown'; o.note = 'z3: ' + str(e)[:100]
            except RecursionError: st = 'unknown'; o.note = 'recursion'
            except Exception as e:
                if verbose and os.environ.get('VTB'): import traceback; traceback.print_exc()
                st = 'unknown'; o.note = 'internal error %s %s' % (type(e).__name__, str(e)[:100])
        o.status = st
        R.counts[st] += 1
        if st == 'refuted': end = min(end, time.time() + 40)   # one is enough
        if verbose and (st != 'proved' or time.time() - t2 > 2): print('   ', st, o.name, '@', o.loc, '%.1fs' % (time.time() - t2), o.note)
        if verbose and st != 'proved' and os.environ.get('VDBG'): print('      GOAL', o.goal, '\n      PC', o.pc)
    for nm, pcs in E.reached.items():
        ok = False
        for pc in pcs[:6]:
            if smt.check(list(pc))[0] != 'unsat': ok = True; break
        R.reached[nm] = ok
    R.t = time.time() - t1
    if verbose:
        print('%-34s %s exec %.1fs total %.1fs obls %s trivial %d reach %s' % (n, 'ok' if not R.limit else 'LIMIT ' + R.limit, R.t_exec, R.t, R.counts, sum(R.trivial.values()), R.reached), [x[:60] for x in R.used] or '')
    return R

def run_entry(mods, n, budget, crosscheck=False):
    R = entry(mods, n, time.time() + budget)
    S = smt.STATS
    cross = {}
    return {'name': n, 'limit': R.limit, 'where': str(R.where)[:300], 'obls': [{'name': o.name, 'loc': str(o.loc), 'status': o.status, 'note': str(o.note), 'model': getattr(o, 'model', '')} for o in R.obls],
            'trivial': R.trivial, 'reached': R.reached, 'notes': {str(k): (v if isinstance(v, int) else 1) for k, v in (R.notes.items() if isinstance(R.notes, dict) else [(k, 1) for k in R.notes])},
            'funcs': [[str(a), str(b)] for a, b in R.funcs], 't': R.t, 'stats': {'queries': S.queries, 'time': S.time}, 'contracts': R.used, 'loops': len(R.loops) if hasattr(R.loops, '__len__') else int(R.loops or 0), 'cross': cross}

def run_spec(spec, sources, entries=None, budget=400, verbose=False, defs=()):
    mods = load(spec, sources, defs)
    names = entry_names(mods[-1])
    if entries: names = [n for n in names if n in entries]
    return [entry(mods, n, time.time() + budget, verbose) for n in names]

if __name__ == '__main__':
    spec = sys.argv[1]
    run_spec(spec, [os.path.join(REPO, s) for s in expand(sys.argv[2].split(','))] if len(sys.argv) > 2 and sys.argv[2] else [], sys.argv[3].split(',') if len(sys.argv) > 3 else None, verbose=True)
