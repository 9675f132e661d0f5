#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
`caught` is what tools/seed.py check reported (recorded in meta.json is not allowed to
be read by checks: this only documents)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    s = re.sub(r'\s+', ' ', d['what_it_breaks'])
    if len(s) > 150: s = s[:147].rsplit(' ', 1)[0] + ' ...'
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], s.replace('|', '\\|')))
p = here + '/DESIGN.md'
t = open(p).read()
a = t.index('<!-- seeds -->')
t = t[:a] + '<!-- seeds -->\n\n| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
