#!/usr/bin/env python3
"""Fills the table of DESIGN.md (between the markers) from tools/oracles.txt, tools/times.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/times.json'))
rows = ['| id | decided how (oracle) | quick | thorough |', '|----|----------------------|-------|----------|']
for l in open(V + '/tools/oracles.txt'):
    i, t = l.strip().split(' ', 1)
    rows.append('| %s | %s | %s | %s |' % (i, t, T.get(i + '-quick', '?'), T.get(i + '-thorough', '?')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
by = {}
for d in sorted(os.listdir(V + '/seeded')):
    for p in json.load(open(V + '/seeded/%s/meta.json' % d))['property'].split():
        by.setdefault(p, []).append(d)
t = ['| check | catches |', '|-------|---------|'] + ['| %s | %s |' % (p, ' '.join(by[p])) for p in sorted(by)]
s = re.sub(r'<!-- seeded -->.*?<!-- end seeded -->', lambda m: '<!-- seeded -->\n' + '\n'.join(t) + '\n<!-- end seeded -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
