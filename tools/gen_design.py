#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
p = os.path.join(V, 'DESIGN.md')
text = open(p).read()
text = text[:text.index(MARK) + len(MARK)]
rows = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    cell = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], cell(m['what_it_breaks']), cell(m['needs'])))
text += """Each was confirmed in a scratch worktree: it compiles, the stable tests pass, its demonstration fails with it and passes without.
Each is caught by the quick check of its own property (exit 1 and its VIOLATION line); the checks read nothing of `seeded/`.
Several were missed at first and led to stronger workloads: long tasks and sets of more than 65536 tasks (T01), copied task
providers (T02), large matrices (X02), bitmaps with long gaps before the pixels (F01), memory used while loading (F02), second
device (G01, C01), reuse of one object for several calls (X01, L01, E01).

| id (`seeded/`) | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open(p, 'w').write(text)
