#!/usr/bin/env python3
"""Make seeded/ID from the uncommitted change in /repo's working tree (which is undone):
mkseed.py ID PROPERTY 'needs' 'what it breaks' < demo.py"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(HERE, 'seeded', bug)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), 'no change'
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
open(d + '/demo.py', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$here/demo.py"
''')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
