#!/usr/bin/env python3
"""mut.py FILE [names]: run checks against quick mutations, in private copies (development only; no check uses it).
FILE defines MUTS = [(name, 'C01 C02', [(file, old, new[, nth])...]), ...] with files relative to src/pyclaw."""
import os, queue, runpy, shutil, subprocess, sys, tempfile, threading
N = int(os.environ.get('MUT_JOBS', '3'))
REPO = os.environ.get('REPO_SRC', '/repo')
VERIF = os.environ.get('VERIF_SRC', '/verif')
muts = runpy.run_path(sys.argv[1])['MUTS']
names = sys.argv[2:]
q = queue.Queue()
for m in muts:
    if not names or m[0] in names:
        q.put(m)


def edit(root, edits):
    for e in edits:
        f, old, new = e[:3]
        p = '%s/repo/src/pyclaw/%s' % (root, f)
        s = open(p).read()
        k = s.count(old)
        if len(e) < 4:
            if k != 1:
                return '%d matches in %s' % (k, f)
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            if k <= e[3]:
                return '%d matches in %s' % (k, f)
            s = old.join(parts[:e[3]+1]) + new + old.join(parts[e[3]+1:])
        open(p, 'w').write(s)
    return None


def worker():
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run('cp -a %s %s/repo; cp -a %s %s/verif; cp -a /opt/clawpack %s/clawpack' % (REPO, w, VERIF, w, w), shell=True, check=True)
        while True:
            try:
                name, props, edits = q.get_nowait()
            except queue.Empty:
                return
            err = edit(w, edits)
            out = [name]
            if err:
                out.append('EDIT: ' + err)
            else:
                for p in props.split():
                    r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/clawpack /opt/clawpack && cd /verif && timeout 900 bash check.sh %s' % (w, w, w, p)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    out.append('%s=%s' % (p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode)))
                    if r.returncode not in (0, 1) or os.environ.get('MUT_V'):
                        out.append(r.stdout[-1500:])
            subprocess.run('git -C %s/repo checkout -q -- .' % w, shell=True)
            print(' '.join(out), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


ts = [threading.Thread(target=worker) for _ in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
