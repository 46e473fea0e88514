#!/usr/bin/env python3
"""Writes DESIGN.md from body.md, the planted bugs and the mutants."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')
seeds = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); seeds.append((d['property'], os.path.basename(os.path.dirname(m)), d))
n = q = 0
for f in glob.glob(V + '/tools/mutants/m*.py'):
    if os.path.basename(f) == 'mut.py': continue
    g = {}
    exec(compile(open(f).read(), f, 'exec'), g)
    n += len(g['M'])
    q += sum(1 for x in g['M'] if x[1].startswith('!'))
t = open(os.path.join(os.path.dirname(__file__), 'body.md')).read().replace('MUTANTS', str(n)).replace('QUIET', str(q)).replace('SEEDS', str(len(seeds)))
t += '| caught by | planted bug | what it breaks |\n|---|---|---|\n'
for p, i, d in sorted(seeds):
    t += '| %s | %s | %s |\n' % (d.get('caught_by', p), i, d['what_it_breaks'].replace('|', '/').replace('\n', ' '))
open(V + '/DESIGN.md', 'w').write(t)
print(n, len(seeds))
