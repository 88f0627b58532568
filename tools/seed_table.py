#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted -->\n'
rows = []
for f in glob.glob(os.path.join(root, 'seeded', '*', 'meta.json')):
    d = json.load(open(f))
    rows.append((d['property'][0] != 'F', d['property'], os.path.basename(os.path.dirname(f)), d['what_it_breaks'], d['needs'], d.get('also', '')))
rows.sort()
t = '| change | check | what it does | needs |\n|---|---|---|---|\n'
for _, p, i, w, n, also in rows:
    t += f'| {i} | {p}{also} | {w} | {n} |\n'
path = os.path.join(root, 'DESIGN.md')
s = open(path).read().split(MARK)[0]
open(path, 'w').write(s + MARK + t)
print(len(rows), 'planted changes')
