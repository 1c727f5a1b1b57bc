#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for p in glob.glob(here + '/seeded/*/meta.json'):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['needs']))
t = '| caught by | bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows))
d = here + '/DESIGN.md'
s = open(d).read()
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + t + '<!-- /seeded -->', s, flags=re.S)
open(d, 'w').write(s)
