#!/usr/bin/env python3
"""Test one planted bug against /repo: plant.py ID [--tests] [--check PROP]

Applies seeded/ID/patch.diff to /repo, builds, runs demo.sh (must fail), optionally the test suite, and the check of
the bug's property; then undoes the change, rebuilds and runs demo.sh again (must pass).  Not used by any check."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bug = sys.argv[1]
    d = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(d + '/meta.json'))
    props = [a for a in sys.argv[2:] if a.startswith('C')] or [meta['property']]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    r = sh('git -C /repo apply %s/patch.diff' % d)
    assert r.returncode == 0, r.stdout
    out = [bug]
    try:
        r = sh('bash /opt/vp/build.sh')
        out.append('build=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-2000:])
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        out.append('demo=%d%s' % (r.returncode, '' if r.returncode else ' NOT-SHOWN'))
        if '-v' in sys.argv:
            print(r.stdout[-1500:])
        if '--tests' in sys.argv:
            t = tempfile.mktemp(suffix='.json')
            sh('bash /opt/vp/test.sh %s' % t)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = set(json.load(open(t))['passed'])
            os.remove(t)
            out.append('tests=%s' % ('ok' if base <= got else 'FAIL %s' % sorted(base - got)[:3]))
        for p in props:
            r = sh('timeout 900 bash check.sh %s' % p, cwd=HERE)
            out.append('%s=%s' % (p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode)))
            if '-v' in sys.argv or r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    out.append('demo-clean=%d%s' % (r.returncode, ' BROKEN' if r.returncode else ''))
    if r.returncode:
        print(r.stdout[-1500:])
    print(' '.join(out), flush=True)


main()
