#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (section 5) from seeded/*/meta.json."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}     # id -> why
MARK = '<!-- planted bugs -->'

rows = ['| bug | caught by | what it needs |', '|---|---|---|']
for path in sorted(glob.glob(os.path.join(VERIF, 'seeded/*/meta.json'))):
    name = path.split('/')[-2]
    meta = json.load(open(path))
    rows.append('| %s | %s | %s |' % (
        name, MISSED.get(name) or 'check %s' % meta['property'], meta['needs'].replace('|', '/')))
design = os.path.join(VERIF, 'DESIGN.md')
text = open(design).read()
head = text[:text.index(MARK)]
with open(design, 'w') as f:
    f.write(head + MARK + '\n' + '\n'.join(rows) + '\n')
