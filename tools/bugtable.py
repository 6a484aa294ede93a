#!/usr/bin/env python3
"""bugtable.py plant.out...: writes the table of DESIGN.md section 5 from seeded/*/meta.json and the output of plant.py."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for part in open(f).read().split('==\n')[1:]:
        ls = part.strip().splitlines()
        m = re.search(r'check (C\d\d): exit (\d)(?: violation in scenario (\d+): (\{.*))?', part)
        if m:
            c = re.search(r'"cls": "([^"]+)"', m.group(4) or '')
            res[ls[0].strip()] = (m.group(1), m.group(2) == '1', m.group(3), c and c.group(1))
rows = ['| planted bug | needs | noticed by |', '|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    r = res.get(i)
    n = '?' if r is None else f'{r[0]}: {r[3]} (run {r[2]})' if r[1] else 'missed'
    rows.append(f'| {i} | {m["needs"]} | {n} |')
p = V + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->')
open(p, 'w').write(s[: a + 14] + '\n'.join(rows) + '\n' + s[b:])
