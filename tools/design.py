#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- planted -->', '| bug | property | needs | caught by |', '|---|---|---|---|']
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '\\|'), m.get('caught_by', m['property'])))
rows.append('<!-- /planted -->')
p = V + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if 'PLANTED_TABLE' in s:
    s = s.replace('PLANTED_TABLE', t)
else:
    a, b = s.index('<!-- planted -->'), s.index('<!-- /planted -->') + len('<!-- /planted -->')
    s = s[:a] + t + s[b:]
open(p, 'w').write(s)
