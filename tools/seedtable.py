#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md, between the two marker lines."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(root + '/seeded')):
    d = json.load(open(f'{root}/seeded/{s}/meta.json'))
    rows.append((d['property'], s, d['needs']))
rows.sort()
t = '| check | planted bug | what it needs |\n|---|---|---|\n' + ''.join(
    f'| {p} | `{s}` | {n} |\n' for p, s, n in rows)
f = root + '/DESIGN.md'
a = open(f).read()
a = re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->', lambda m: f'<!-- seeds -->\n{t}<!-- /seeds -->', a, flags=re.S)
open(f, 'w').write(a)
