#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = {'P19-height-digits', 'P15-binary-count', 'P29-near-tie', 'P01-path-index'}
rows = ['<!-- seedtab -->', '| bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/' + d + '/meta.json'
    if not os.path.exists(f): continue
    m = json.load(open(f))
    rows.append('| %s%s | %s | %s |' % (d, '*' if d in STAR else '', m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
rows.append('<!-- /seedtab -->')
p = V + '/DESIGN.md'
t = open(p).read()
new = '\n'.join(rows)
if '@TABLE@' in t: t = t.replace('@TABLE@', '\n' + new)
else: t = re.sub(r'<!-- seedtab -->.*?<!-- /seedtab -->', lambda _: new, t, flags=re.S)
open(p, 'w').write(t)
