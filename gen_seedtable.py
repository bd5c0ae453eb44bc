#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (and the results given as JSON: {id: [property, needs, caught]})."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
rows = json.load(open(sys.argv[1]))
t = ['<!-- seeds -->', '| planted bug | property | needs | quick check |', '| --- | --- | --- | --- |']
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    r = rows.get(i)
    t.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), 'not run' if r is None else 'caught' if r[2] else 'MISSED'))
t.append('<!-- /seeds -->')
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
if '<!-- seeds -->' in s:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '\n'.join(t), s, flags=re.S)
else:
    s = s.replace('SEEDTABLE', '\n'.join(t))
open(p, 'w').write(s)
