#!/usr/bin/env python3
"""Rewrites the section "Families" of DESIGN.md from the evidence of the last quick runs,
and the table of planted changes from seeded/*/meta.json and catches.txt."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
doc = open(here + '/DESIGN.md').read()
i = doc.index('## Families')
out = ['## Families', '', 'States are the cases (or explored states) of the quick tier on the unchanged tree.', '']
for p in range(1, 21):
    pid = 'C%02d' % p
    ev = json.load(open(f'{here}/evidence/{pid}.json'))
    out += [f'### {pid}', '']
    for f in ev['coverage']['families']:
        out.append(f"* **{f['name']}** ({f['states']:,} states): {f['space']}")
    out.append('')
out += ['## Planted changes', '',
        'Every change in `seeded/` and whether the check of its property reports it (quick tier).', '',
        '| change | property | needs | caught |', '|--------|----------|-------|--------|']
caught = {}
for l in open(here + '/catches.txt'):
    k, v = l.split()
    caught[k] = v
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |")
open(here + '/DESIGN.md', 'w').write(doc[:i] + '\n'.join(out) + '\n')
