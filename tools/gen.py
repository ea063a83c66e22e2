#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.py (one dict per property) and the check modules."""
import os, sys, json, glob, importlib.util, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {'PROPS': [], 'NA': []}
for f in sorted(glob.glob(V + '/tools/props/*.py')):
    exec(compile(open(f).read(), f, 'exec'), ns)
def order(p):
    return p['id']
props = sorted(ns['PROPS'], key=order)
assert len({p['id'] for p in props}) == len(props)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
na = {x['property']: x['reason'] for x in ns['NA']}
checks = []
for p in props:
    if p['id'] in na:
        continue
    mod = V + '/checks/%s.py' % p['id'].lower()
    if not os.path.exists(mod):
        na[p['id']] = 'no check registered yet'
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s' % p['id'], 'thorough_cmd': './check.sh %s --thorough' % p['id'],
                   'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['level_note']})
commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'MAEC_VERIF', 'enable': 'no hooks are needed: the checks read the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
     'notes': 'Every check compiles the current /repo sources to LLVM IR (nothing is executed) and decides its rules on it; see DESIGN.md. Known findings: known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
