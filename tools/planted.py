#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
table = '<!-- planted -->\n| check | planted bug | needs |\n|---|---|---|\n'
table += ''.join('| %s | %s | %s |\n' % (p, i, n.replace('|', '/')) for p, i, n in sorted(rows))
table += '<!-- /planted -->'
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda m: table, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
