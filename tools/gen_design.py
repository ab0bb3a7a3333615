#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(f'{ROOT}/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['needs']))
rows.sort()
t = ['| caught by | planted bug | manifests with |', '|---|---|---|'] + [f'| {p} | {i} | {n} |' for p, i, n in rows]
p = f'{ROOT}/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
s = s[:s.index(a) + len(a)] + '\n'.join(t) + '\n' + s[s.index(b):]
s = s[:s.index('<!-- n -->') + 10] + str(len(rows)) + s[s.index('<!-- /n -->'):]
open(p, 'w').write(s)
