#!/usr/bin/env python3
"""gen_planted.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = R + '/DESIGN.md'
rows = []
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
rows.sort()
t = '| check | planted bug | what it does |\n|---|---|---|\n' + ''.join(f'| {p} | {i} | {w} |\n' for p, i, w in rows)
s = open(D).read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(D, 'w').write(s); print(len(rows), 'planted bugs')
