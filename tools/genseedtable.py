#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (seed: checks that catch it)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
other = {}
for l in open(ROOT + '/tools/caught.txt'):
    if ':' in l: k, v = l.split(':', 1); other[k.strip()] = v.strip()
rows = []
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s |' % (i, d['needs'].replace('|', '\\|'), other.get(i, d['property'])))
p = ROOT + '/DESIGN.md'; t = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = t.index(a) + len(a), t.index(b)
open(p, 'w').write(t[:i] + '| bug | what it needs in order to manifest | caught by (quick) |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + t[j:])
