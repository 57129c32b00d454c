#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json; notes on misses come from tools/misses.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = json.load(open(V + '/tools/misses.json'))
head = '## Planted bugs (seeded/) and what catches them\n'
s = open(V + '/DESIGN.md').read()
s = s[:s.index(head)] + head + '''
Each bug was confirmed with `tools/bugtest` (builds, stable tests pass, demo 0 on the clean tree and 1 with the patch), and is caught by the quick
check of its property unless the last column says otherwise.

| bug | caught by | what it breaks | first missed; strengthened by |
|---|---|---|---|
'''
for d in sorted(glob.glob(V + '/seeded/B*')):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    s += '| %s | %s | %s | %s |\n' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), miss.get(b, ''))
open(V + '/DESIGN.md', 'w').write(s)
