"""Runtime side: builds /repo's current sources with the ordinary compiler and standard library and runs the
contracts of a property on directed and seeded random inputs (search for a failing input, cross-check of the
verifier's library models, bounded stand-in where an obligation is undecided)."""
import os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
def srcs(*mods):
    r = []
    for m in mods:
        for root, ds, fs in os.walk(os.path.join(REPO, m, 'src')):
            r += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.cc')]
    return sorted(r)
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
TSAN = ['-fsanitize=thread']
CONF = {p: dict(mods=['core'], flags=ASAN, libs=[]) for p in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15')}
CONF['C01'] = CONF['C02'] = dict(mods=['core'], flags=['-D_GLIBCXX_ASSERTIONS'], libs=[])
CIV = ['-lcivetweb-cpp', '-lcivetweb', '-lz', '-ldl']
CURL = ['-lz']
for p in ('C17', 'C19'): CONF[p] = dict(mods=['core', 'pull'], flags=ASAN, libs=CIV)
CONF['C18'] = dict(mods=['core', 'pull'], flags=ASAN, libs=CIV + ['-Wl,--wrap=deflateInit2_', '-Wl,--wrap=deflate'])
for p in ('C16', 'C20', 'C21'): CONF[p] = dict(mods=['core', 'push'], flags=ASAN, libs=CURL)
CONF['C22'] = dict(mods=['core', 'pull', 'push'], flags=TSAN, libs=CIV)

class BuildError(Exception): pass

def build(prop, out):
    c = CONF[prop]
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(out, 'inc', 'prometheus', 'detail'); os.makedirs(inc, exist_ok=True)
    for n in ('core', 'pull', 'push'):
        U = n.upper()
        open(os.path.join(inc, n + '_export.h'), 'w').write('#pragma once\n#define PROMETHEUS_CPP_%s_EXPORT\n#define PROMETHEUS_CPP_%s_NO_EXPORT\n#define PROMETHEUS_CPP_%s_DEPRECATED\n' % (U, U, U))
    I = ['-I', os.path.join(out, 'inc')]
    for m in ('core', 'pull', 'push', 'util'): I += ['-I', '%s/%s/include' % (REPO, m)]
    for m in ('core/src', 'core/src/detail', 'pull/src', 'pull/src/detail', 'push/src', 'push/src/detail'): I += ['-I', '%s/%s' % (REPO, m)]
    I += ['-I', os.path.join(VERIF, 'specs'), '-I', os.path.join(VERIF, 'native')]
    comp = ['g++', '-std=c++11', '-O1', '-g1', '-w', '-DHAVE_ZLIB', '-pthread'] + c['flags'] + I
    jobs = [(s, re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.o', []) for s in srcs(*c['mods'])]
    jobs.append((os.path.join(VERIF, 'native', prop + '.cc'), 'native.o', ['-fno-access-control']))
    def one(j):
        p = subprocess.run(comp + j[2] + ['-c', j[0], '-o', os.path.join(out, j[1])], capture_output=True, text=True)
        return j, p
    with ThreadPoolExecutor(8) as tp: rs = list(tp.map(one, jobs))
    for j, p in rs:
        if p.returncode: raise BuildError('%s\n%s' % (j[0], p.stderr[:3000]))
    exe = os.path.join(out, 'native')
    p = subprocess.run(comp + [os.path.join(out, j[1]) for j in jobs] + ['-o', exe] + c['libs'], capture_output=True, text=True)
    if p.returncode: raise BuildError('link\n' + p.stderr[:3000])
    return exe

def run(prop, seed, tier, out, timeout=600):
    """-> dict(fails=[(what, detail)], evals, distinct, samples, error, notes, wall)"""
    t0 = time.time()
    R = dict(fails=[], evals=0, distinct=0, samples=[], error=None, notes=[], wall=0, exe=None)
    try: exe = build(prop, out)
    except BuildError as e:
        R['error'] = 'the runtime harness does not build: ' + str(e)[:1500]; R['wall'] = time.time() - t0
        return R
    R['build_s'] = time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', LANG='C.UTF-8', TSAN_OPTIONS='')
    try:
        p = subprocess.run([exe, str(seed), tier], capture_output=True, timeout=timeout, env=env, cwd=out)
        text = p.stdout.decode('utf-8', 'replace'); err = p.stderr.decode('utf-8', 'replace'); rc = p.returncode
    except subprocess.TimeoutExpired as e:
        R['error'] = 'the runtime harness did not finish in %d s' % timeout; R['wall'] = time.time() - t0
        return R
    for l in text.split('\n'):
        if l.startswith('FAIL '):
            a, _, b = l[5:].partition(' | '); R['fails'].append((a, b))
        elif l.startswith('STATS '): R['evals'], R['distinct'] = map(int, l.split()[1:3])
        elif l.startswith('SAMPLE '): R['samples'].append(l[7:])
        elif l.startswith('NOTE '): R['notes'].append(l[5:])
    R['err'] = err[:6000]
    if rc not in (0, 1) and not R['fails']: R['fails'].append(('the program crashed (exit %d)' % rc, err[:300].replace('\n', ' ')))
    R['wall'] = time.time() - t0
    return R

if __name__ == '__main__':
    for p in sys.argv[1].split(','):
        o = '/tmp/nat.%s' % p
        R = run(p, int(os.environ.get('VERIF_SEED', '1')), sys.argv[2] if len(sys.argv) > 2 else 'quick', o)
        print(p, 'fails', R['fails'][:3], 'evals', R['evals'], R['distinct'], 'build %.1f wall %.1f' % (R.get('build_s', 0), R['wall']), R['error'] or '', R['notes'])
        if R['fails']: print(R.get('err', '')[:1500])
        shutil.rmtree(o, ignore_errors=True)
