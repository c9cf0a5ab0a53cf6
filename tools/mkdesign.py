#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(json.load(open(V + '/tools/bugs/first_missed.json')))
res = json.load(open(V + '/tools/bugs/results.json'))
rows = ['| id | property | what breaks | needs | caught by |', '|---|---|---|---|---|']
tot = hit = 0
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    r = res.get(n, {})
    by = [k for k in sorted(r) if 'caught' in r[k].values()]
    tot += 1; hit += m['property'] in by
    t = ', '.join(by) or '**missed**'
    if n in FIRST_MISSED: t += ' (strengthened)'
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {t} |".replace('\n', ' '))
rows.append(f'\n{hit} of {tot} are caught by the quick check of their property.')
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
