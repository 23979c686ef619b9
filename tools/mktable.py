#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.json (author's use only:
no check reads it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(V + '/tools/missed.json'))
rows = ['| planted bug | breaks | needs | caught by | first |', '|---|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s quick | %s |' % (i, m['what_it_breaks'].replace('|', '/'),
                m['needs'].replace('|', '/'), m['property'], missed.get(i, 'yes')))
p = V + '/DESIGN.md'; t = open(p).read()
b, e = '<!-- planted -->', '<!-- /planted -->'
if '@@TABLE@@' in t: t = t.replace('@@TABLE@@', b + '\n' + e)
t = t[:t.index(b) + len(b)] + '\n' + '\n'.join(rows) + '\n' + t[t.index(e):]
open(p, 'w').write(t)
