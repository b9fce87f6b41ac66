#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, known_findings.txt and the planted bugs."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(root, f)).read()
o = rd('tools/design_head.md') + rd('tools/design_props.md') + rd('tools/design_tail.md')
for l in rd('known_findings.txt').splitlines():
    if l.startswith('fixed:'):
        _, p, c, t = l.split(' ', 3)
        o += '- %s `%s` %s\n' % (p.split('=')[1], c, t)
o += '\n' + rd('tools/design_seeded.md')
res = {}
f = os.path.join(root, 'tools/seeded_results.json')
if os.path.exists(f): res = json.load(open(f))
o += '\n| planted bug | needs | caught by |\n|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    o += '| %s | %s | %s |\n' % (i, d['needs'].replace('|', '/'), res.get(i, '?'))
o += '\n' + rd('tools/design_notes.md')
open(os.path.join(root, 'DESIGN.md'), 'w').write(o)
