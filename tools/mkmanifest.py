#!/usr/bin/env python3
"""writes MANIFEST.json from engine/conf.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import conf
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in conf.PROPS: continue
    c = conf.PROPS[p]
    checks.append(dict(property=p, quick_cmd='python3-vt engine/check.py %s quick' % p, thorough_cmd='python3-vt engine/check.py %s thorough' % p, evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification of the real functions (symbolic execution of their LLVM IR against contracts, obligations discharged by z3)' + c.get('tech', ''), level='proof', level_note=c['note']))
na = [dict(property=p, reason=conf.NA.get(p, 'contracts for the verifier are not written yet')) for p in ids if p not in conf.PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=checks, not_applicable=na, notes='see DESIGN.md; no hooks are compiled into /repo'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
