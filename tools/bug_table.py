#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob, json, os
s = open('/verif/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/')))
t = a + '\n'.join(rows) + '\n' + b
if '@TABLE@\n' in s: s = s.replace('@TABLE@\n', t)
else: s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
open('/verif/DESIGN.md', 'w').write(s)
