#!/usr/bin/env python3
"""Rewrite the table of seeded bugs in DESIGN.md (between the markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in s:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: block, s, flags=re.S)
else:
    s = s.replace('SEEDS\n', block + '\n', 1)
open(p, 'w').write(s)
