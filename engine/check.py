#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import json, os, re, shutil, subprocess, sys, time, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from conf import PROPS
import native

def known(prop):
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) obligation=(.*)$', l.strip())
        if m and m.group(1) == prop: r.append(m.group(2))
    return r

def run_entries(prop, tier, wd):
    """every contract function in its own process"""
    c = PROPS[prop]
    import drv
    t0 = time.time()
    jobs = []; res = {}
    plan = []; errs = []
    for g in c['specs']:
        stem = os.path.splitext(g['file'])[0]
        try:
            mods = drv.load(os.path.join(VERIF, 'specs', g['file']), [os.path.join(drv.REPO, s) for s in drv.expand(g['sources'])], g.get('defs', ()))
            for n in drv.entry_names(mods[-1]):
                if tier == 'quick' and n in g.get('thorough_only', ()): continue
                plan.append((g, mods, n, n if len(c['specs']) == 1 else '%s.%s' % (stem, n)))
        except drv.CompileError as e:
            errs.append('%s: the contract file or the sources do not compile under the verification headers: %s' % (stem, str(e)[:1500]))
        except Exception as e:
            errs.append('%s: the sources cannot be translated: %s' % (stem, str(e)[:500]))
    if errs: res['error'] = '; '.join(errs)
    budget = c.get('budget', 420) * (2 if tier == 'thorough' else 1)
    end = time.time() + budget
    live = {}
    todo = list(plan)
    todo.sort(key=lambda p: -p[0].get('cost', {}).get(p[2], 1))
    while todo or live:
        while todo and len(live) < 8:
            g, mods, n, key = todo.pop(0)
            out = os.path.join(wd, key + '.json')
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    sys.stdout = open(os.devnull, 'w')
                    d = drv.run_entry(mods, n, max(10, min(end - time.time(), g.get('entry_budget', 300))), crosscheck=(tier == 'thorough'))
                    json.dump(d, open(out + '.tmp', 'w')); os.rename(out + '.tmp', out)
                except BaseException as e:
                    json.dump({'name': n, 'limit': 'internal error: %s %s' % (type(e).__name__, str(e)[:300]), 'obls': [], 'notes': {}, 'funcs': [], 'trivial': {}, 'reached': {}, 't': 0, 'stats': {}, 'trust': {}, 'loops': 0}, open(out, 'w'))
                os._exit(rc)
            live[pid] = (key, out, time.time(), g)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (n, out, ts, g) in list(live.items()):
                if time.time() > end + 30 or time.time() - ts > g.get('entry_budget', 300) + 60:
                    try: os.kill(p, 9)
                    except OSError: pass
            time.sleep(0.02); continue
        if pid not in live: continue
        n, out, ts, g = live.pop(pid)
        if os.path.exists(out): res[n] = json.load(open(out))
        else: res[n] = {'name': n, 'limit': 'the verifier process ended (time or memory)', 'obls': [], 'notes': {}, 'funcs': [], 'trivial': {}, 'reached': {}, 't': time.time() - ts, 'stats': {}, 'trust': {}, 'loops': 0}
        res[n]['bounded'] = n in g.get('bounded', ())
    return res, time.time() - t0

TRUST = [
    'the translation of LLVM IR (clang 18 -O0, C++11) to logic by /verif/engine and its loop summaries; z3 5.3 as the deciding solver',
    'the verification library headers in /verif/vstl (std::string, vector, map, unordered_map, smart pointers, streams, mutex, atomic, function, chrono): contracts of the C++ standard library stated in terms of mathematical sequences and maps',
    'clang 18 as the front end; the shipped build uses gcc with libstdc++ (cross-checked by running the contracts natively)',
    'memory allocation does not fail; signed arithmetic marked nsw by the compiler is treated as mathematical',
    'floating-point addition, multiplication and division are uninterpreted except for ordering, NaN and infinity facts',
]

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    c = PROPS[prop]
    wd = tempfile.mkdtemp(prefix='chk.%s.' % prop, dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
    ev_dir = os.path.join(VERIF, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(VERIF, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    try:
        # the runtime search runs beside the verifier
        natout = os.path.join(wd, 'nat.json')
        nat = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--native', prop, tier, str(seed), natout, wd], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        res, tv = run_entries(prop, tier, wd)
        nerr = nat.communicate()[1]
        try: N = json.load(open(natout))
        except Exception: N = dict(fails=[], evals=0, distinct=0, samples=[], error='the runtime harness did not run: ' + (nerr or b'').decode()[-500:], notes=[], wall=0)
        verdict(prop, tier, seed, res, N, tv, time.time() - t0, ev_dir, rep_dir)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def verdict(prop, tier, seed, res, N, tv, wall, ev_dir, rep_dir):
    c = PROPS[prop]
    error = res.pop('error', None)
    kn = known(prop)
    total = disch = triv = 0; refuted = []; undecided = []; vac = []; bounded_entries = []
    funcs = set(); notes = {}; queries = 0; stime = 0.0; loops = 0; x = {'checked': 0, 'agree': 0, 'unknown': 0}
    for n, r in sorted(res.items()):
        if r.get('bounded'): bounded_entries.append(n)
        for o in r['obls']:
            total += 1
            if o['status'] == 'proved': disch += 1
            elif o['status'] == 'refuted': refuted.append((n, o))
            else: undecided.append((n, o))
        k = sum(r['trivial'].values()) if isinstance(r['trivial'], dict) else 0
        total += k; disch += k; triv += k
        if r['limit']: undecided.append((n, {'name': 'contract function not executed to the end: ' + r['limit'], 'loc': '', 'status': 'limit', 'note': r.get('where', '')}))
        elif not r['reached'] or not all(r['reached'].values()):
            vac.append((n, [a for a, b in r['reached'].items() if not b] or ['end']))
        for f in r['funcs']: funcs.add(tuple(f))
        for a, b in r['notes'].items(): notes[a] = notes.get(a, 0) + (b if isinstance(b, int) else 1)
        s = r.get('stats', {}); queries += s.get('queries', 0); stime += s.get('time', 0); loops += r.get('loops', 0)
        for a in x: x[a] += r.get('cross', {}).get(a, 0)
    viol = []; knownhit = []
    def add(what, kind, body):
        for k in kn:
            if k in what: knownhit.append(what); return
        viol.append((what, kind, body))
    for what, detail in N['fails']:
        add(what, 'input', 'contract violated when the real code is run\ncontract: %s\ninput: %s\nreproduce: cd /verif && VERIF_SEED=%d python3-vt engine/check.py %s %s   (native/%s.cc, seed %d)\n%s' % (what, detail, seed, prop, tier, prop, seed, N.get('err', '')[:3000]))
    for n, o in refuted:
        add(o['name'] + ' @ ' + str(o['loc']), 'obligation', 'obligation refuted by the verifier\ncontract function: %s (/verif/specs/)\nobligation: %s\nat: %s\nsolver output:\n%s\n' % (n, o['name'], o['loc'], o.get('model', '')))
    rlines = []
    for i, (what, kind, body) in enumerate(sorted(viol, key=lambda v: v[1] != 'input')):
        path = os.path.join(rep_dir, '%s-%d.txt' % (prop, i))
        if i < 5:
            open(path, 'w').write('property: %s\n%s\n' % (prop, body) + ('\nfailed obligations of the verifier on this tree:\n' + '\n'.join('%s: %s @ %s' % (a, b['name'], b['loc']) for a, b in refuted + undecided) + '\n' if refuted or undecided else ''))
            rlines.append((what, kind, path))
    complete = not refuted and not undecided and not vac and not error and res
    under = sorted('%s: %s' % f for f in funcs if f[0])
    repo_under = [f for f in under if '/repo' in f or f.split(':')[0].startswith(('core', 'pull', 'push', 'util')) or native.REPO in f]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(wall, 2), 'violations': len(viol),
          'coverage': {
              'obligations': total, 'discharged': disch, 'checker_cmd': 'python3-vt engine/check.py %s %s' % (prop, tier), 'trusted_base': TRUST + c.get('trust', []),
              'backend': {'z3': disch - triv, 'engine simplifier (closed by normalisation)': triv}, 'solver_queries': queries, 'solver_time_s': round(stime, 2), 'cvc5_crosscheck': x if tier == 'thorough' else 'thorough tier only',
              'complete': bool(complete), 'contract_functions': {n: {'obligations': len(r['obls']) + (sum(r['trivial'].values()) if isinstance(r['trivial'], dict) else 0), 'discharged': sum(o['status'] == 'proved' for o in r['obls']) + (sum(r['trivial'].values()) if isinstance(r['trivial'], dict) else 0), 'limit': r['limit'], 'seconds': round(r['t'], 1), 'reached': r['reached']} for n, r in sorted(res.items())},
              'functions_under_contract': repo_under[:200], 'loops_summarised': loops,
              'undischarged': [{'entry': n, 'obligation': o['name'], 'at': o['loc'], 'status': o['status'], 'note': o.get('note', '')} for n, o in refuted + undecided][:60],
              'unreached': vac,
              'bounded_part': {'label': 'bounded, not counted as proved', 'what': 'the same contracts evaluated at run time on the real library (native/%s.cc)' % prop, 'executions': N['evals'], 'distinct': N['distinct'], 'samples': N['samples'][:8], 'error': N['error'], 'stands_in_for': sorted({n for n, o in undecided} | {n for n, _ in vac})},
          },
          'assumptions': sorted('%s (x%s)' % (a, b) for a, b in notes.items())[:80] + c.get('assume', [])}
    json.dump(ev, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged (%d by simplification), %d refuted, %d undecided, verifier %.1fs; %d native executions, %.1fs' % (prop, total, disch, triv, len(refuted), len(undecided), tv, N['evals'], wall))
    for n, o in (refuted + undecided)[:12]: print('  %s: %s: %s @ %s' % (o['status'], n, o['name'][:160], o['loc']))
    if error: print('  verifier: ' + error[:600])
    if N['error']: print('  native: ' + N['error'][:600])
    for v in vac: print('  not reached: %s %s' % v)
    for k in sorted(set(knownhit)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if rlines:
        what, kind, path = rlines[0]
        print('  ' + what)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if kind == 'input' else ' no-failing-input-found'))
        sys.stdout.flush(); sys.exit(1)
    if (error or not res) and N['error']:
        print('no answer: neither the verifier nor the runtime contracts could be built'); sys.exit(2)
    if not complete: print('  undecided obligations were covered by bounded execution only (see evidence)')
    sys.exit(0)

if __name__ == '__main__':
    if sys.argv[1] == '--native':
        prop, tier, seed, out, wd = sys.argv[2:7]
        R = native.run(prop, int(seed), tier, os.path.join(wd, 'nat'), 780 if tier == 'thorough' else 600)
        json.dump(R, open(out + '.t', 'w')); os.rename(out + '.t', out)
    else: main()
