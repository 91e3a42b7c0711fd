#!/usr/bin/env python3
"""Writes tools/SEEDED.md, the table of planted changes, from seeded/*/meta.json
and the results of tools/seedcheck.py on standard input."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
f = V + '/tools/SEEDED.md'
if os.path.exists(f):
    for l in open(f):
        m = re.match(r'\| (\S+) \| (C\d\d) \|.*\| (\S+) \|$', l)
        if m: got[m[1]] = m[3]
for l in sys.stdin:
    m = re.match(r'(\S+) (C\d\d) rc=\d (\d+)s (CAUGHT|MISSED)', l)
    if m: got[m[1]] = 'caught' if m[4] == 'CAUGHT' else 'missed'
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append((m['property'], i, m['needs'], m['what_it_breaks'], got.get(i, '?')))
rows.sort()
with open(f, 'w') as o:
    o.write('## Planted changes\n\nEach compiles, passes the tests and fails its demonstration (`seeded/<id>/`). The last column is the quick check of its\nown property.\n\n| change | property | needs | breaks | check |\n|---|---|---|---|---|\n')
    for p, i, n, b, g in rows:
        o.write('| %s | %s | %s | %s | %s |\n' % (i, p, n.replace('|', '/'), b.replace('|', '/'), g))
