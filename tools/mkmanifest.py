#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = V + '/checks/%s.py' % p['id']
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'its check is not written yet'})
        continue
    k = {}
    tree = ast.parse(open(f).read())
    doc = ast.get_docstring(tree)
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                k[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': k.get('TECHNIQUE', 'property-based testing: ' + doc.split('\n')[0].rstrip('.')),
                   'level': k['LEVEL'], 'level_note': k.get('NOTE', 'generated cases, counted in the evidence; non-trivial: ' + k['RULE'])})
m = {'version': 1, 'setup_cmd': 'python3 lib/vbuild.py rel asan', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: calls are intercepted at link time (ld --wrap) in the build made by lib/vbuild.py', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Known findings and repaired defects: known_findings.txt. Replay of a failure: ./check <id> replay <file>.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
