#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.md.in: lists of defects, planted bugs and undecided properties are filled in."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/design.md.in').read()
fixed = []
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed: '):
        p, c, what = l[len('fixed: property='):].strip().split(' ', 2)
        fixed.append(f'* {p} ({c}): {what}')
caught = {}
for l in open(V + '/tools/caught.txt'):
    i, r = l.strip().split(' ', 1)
    caught[i] = r
rows = ['| planted bug | what it breaks | needs | check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not run')} |")
na = [f"* **{x['property']}**: {x['reason']}." for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']]
t = t.replace('@@FIXED@@', '\n'.join(fixed)).replace('@@BUGS@@', '\n'.join(rows)).replace('@@NOTDECIDED@@', '\n'.join(na) or 'Every listed property is claimed.')
open(V + '/DESIGN.md', 'w').write(t)
