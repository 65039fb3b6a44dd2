#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['what_it_breaks']))
s = open(R + '/DESIGN.md').read()
s = re.sub(r'(\| change \| caught by \| remark \|\n\|---\|---\|---\|\n)(\|.*\n)*', lambda k: k.group(1) + '\n'.join(rows) + '\n', s)
open(R + '/DESIGN.md', 'w').write(s)
