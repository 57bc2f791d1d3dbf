#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
variants, checks, na = set(), [], []
for p in ids:
    if not os.path.exists(ROOT + '/checks/%s.py' % p.lower()):
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('checks.' + p.lower())
    for f in m.families('quick'):
        variants |= set(f.variants)
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring: generated workloads on sanitizer builds, traces compared with a reference model'),
        'level': 'exploration',
        'level_note': m.NOTE if hasattr(m, 'NOTE') else 'Judges the executions it produces (counted in the evidence file): ' + m.RULE,
    })
out = {'version': 1, 'setup_cmd': 'python3 -m vlib.build ' + ' '.join(sorted(variants)), 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks in /repo are needed: the driver in harness/ is compiled with the sources of /repo/tiny and observes through the public structures, the allocator contexts and bound functions.'}
json.dump(out, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not claimed;', out['setup_cmd'])
