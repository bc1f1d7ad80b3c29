#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and tries each: builds /repo with the change, runs the stable tests and the
demonstration with and without it.  usage: mkseed.py [id...]"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, '/verif/tools')
import seeds
R = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: the property held in this demonstration
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
R=$PWD; mkdir -p "$T/inc/prometheus/detail"
for n in core pull push; do U=${n^^}; printf '#pragma once\n#define PROMETHEUS_CPP_%%s_EXPORT\n#define PROMETHEUS_CPP_%%s_NO_EXPORT\n' $U $U > "$T/inc/prometheus/detail/${n}_export.h"; done
I="-I$T/inc -I$D"; for d in core/include pull/include push/include util/include core/src core/src/detail pull/src push/src push/src/detail; do I="$I -I$R/$d"; done
set -e
ls %(mods)s | xargs -P 8 -I{} sh -c 'g++ -std=c++11 -O1 -w -DHAVE_ZLIB -pthread %(flags)s '"$I"' -c {} -o '"$T"'/$(echo {} | tr / _).o'
g++ -std=c++11 -O1 -w -pthread -fno-access-control %(flags)s $I "$D/demo.cc" "$T"/*.o -o "$T/demo" %(libs)s
cd "$T"; ASAN_OPTIONS=detect_leaks=0 timeout 200 "$T/demo"
'''
MODS = {'core': 'core/src/*.cc core/src/detail/*.cc', 'pull': 'core/src/*.cc core/src/detail/*.cc pull/src/*.cc', 'push': 'core/src/*.cc core/src/detail/*.cc push/src/*.cc push/src/detail/*.cc'}
LIBS = {'core': '', 'pull': '-lcivetweb-cpp -lcivetweb -lz -ldl', 'push': ''}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(s, test=True):
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'dirty'
    try:
        for f, a, b in s['edits']:
            p = os.path.join(R, f); t = open(p).read(); assert t.count(a) == 1, (s['id'], f, a, t.count(a)); open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        m = s.get('mods', 'core')
        open(d + '/demo.sh', 'w').write(DEMO % dict(mods=MODS[m], libs=s.get('libs', LIBS[m]), flags=s.get('flags', ''))); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cc', 'w').write(s['demo'])
        if m == 'push' and 'fakecurl' in s['demo']: open(d + '/fakecurl.h', 'w').write(open('/verif/native/fakecurl.h').read())
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if not test: return
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: return print(s['id'], 'DOES NOT BUILD', b.stdout[-1500:])
        t = sh('bash /opt/vp/test.sh /tmp/t.json')
        r = json.load(open('/tmp/t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        def st(x): return {k for k in (x.get('passed') or [t for t, v in x.get('tests', x).items() if v in ('passed', 'pass', True)])}
        lost = set(base['stable']) - set(r['passed'])
        dp = sh('bash %s/demo.sh' % d, cwd=R)
    finally: sh('git -C %s checkout -- .' % R)
    dc = sh('bash %s/demo.sh' % d, cwd=R)
    ok = not lost and dc.returncode == 0 and dp.returncode != 0
    print(s['id'], 'OK' if ok else 'NOT KEPT', 'tests lost', sorted(lost)[:3], 'patched', dp.returncode, (dp.stdout + dp.stderr)[-120:].replace('\n', ' '), 'clean', dc.returncode, (dc.stdout + dc.stderr)[-300:] if dc.returncode else '', flush=True)
    if not ok: sh('mkdir -p /tmp/badseed; rm -rf /tmp/badseed/%s; mv %s /tmp/badseed/' % (s['id'], d))
for s in seeds.S:
    if len(sys.argv) < 2 or s['id'] in sys.argv[1:]: one(s)
sh('bash /opt/vp/build.sh')
