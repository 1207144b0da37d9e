#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: the table of planted bugs (from seeded/*/meta.json)."""
import json, glob, os, re
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append((m['property'], os.path.basename(d[:-1]), m['needs']))
rows.sort()
t = '| check | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % (p, i, n.replace('|', '\\|').replace('\n', ' ')) for p, i, n in rows)
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
