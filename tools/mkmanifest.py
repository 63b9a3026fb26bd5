#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.py (which properties have a check) and NA below."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(re.findall(r'^def ([A-Z][0-9]{2})\(', open(V + '/checks.py').read(), re.M))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
}
HOOKS = ['65b133afe760d081f8640f086d69d1bdd751de14', '29ce7fb51e2c841fa716cd70daaf20985d18fcab', '1b04b38b3ecba879406df933271d0d15d39dd8ca']
NOTE = ('Symbolic execution of the LLVM IR of the current tree; every value of the symbolic bytes is covered on each path and every path within the stated '
        'length/history bounds is explored. Equalities are decided by normal form, solver-proved sweeping lemmas and z3 queries; a model is replayed on the native build.')
checks = [dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
               technique='symbolic execution of compiled LLVM IR, obligations decided by z3', level='model_checking', level_note=NOTE, theorems=[]) for p in props if p['id'] in have]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in props if p['id'] not in have]
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='cfg verif_hooks', enable='RUSTFLAGS="--cfg verif_hooks" (set by engine/build.py)', source_commits=HOOKS),
         checks=checks, not_applicable=na, notes='Known findings: known_findings.json. Design: DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
