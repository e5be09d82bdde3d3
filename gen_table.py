#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
i = s.index('| change | caught by | what it breaks |')
rows = ['| change | caught by | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], ' '.join(m['what_it_breaks'].replace('|', '/').split())))
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
