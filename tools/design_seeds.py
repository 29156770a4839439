#!/usr/bin/env python3
"""design_seeds.py: rewrites the table of planted bugs in DESIGN.md.

The last column is the latest `tryseed.py` result per bug, kept in
tools/seed_results.json (written by tryseed.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = V + '/tools/seed_results.json'
if os.path.exists(p):
    res = json.load(open(p))
rows = ['| Planted bug | Property | Needs | Caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, '?')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->',
           lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
