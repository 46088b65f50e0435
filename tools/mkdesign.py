#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/results.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(res)) if os.path.exists(res) else {}
rows = ['<!-- table -->', '| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    f = os.path.join(V, 'seeded', d, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), str(m['needs']).replace('|', '/'), res.get(d, m['property'])))
rows.append('<!-- end -->')
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
t = t.replace('@@TABLE@@', '<!-- table --><!-- end -->')
t = re.sub(r'<!-- table -->.*?<!-- end -->', lambda m: '\n'.join(rows), t, flags=re.S)
open(p, 'w').write(t)
