#!/usr/bin/env python3
"""auto.py [-n N] [-s SEED] [-f FILE]...: sample single-node mutants of the Python sources of /repo and run the checks
on each in private copies until one catches it; survivors are printed (development only; no check uses it)."""
import argparse, ast, json, os, queue, random, shutil, subprocess, sys, tempfile, threading
REPO = os.environ.get('REPO_SRC', '/repo')
VERIF = os.environ.get('VERIF_SRC', '/verif')
CHECKS = {
    'cfl.py': 'C06 C19', 'state.py': 'C12 C05 C11 C20 C19 C23 C17 C01', 'solution.py': 'C12 C13 C14 C20 C17 C15 C16',
    'controller.py': 'C17 C23 C18 C20 C16 C19 C06 C12 C13', 'gauges.py': 'C18', 'geometry.py': 'C11 C12 C18 C20 C05 C13',
    'util.py': 'C24', 'solver.py': 'C05 C06 C07 C20 C18 C17 C19', 'classic/solver.py': 'C02 C03 C04 C07 C20 C19 C05 C06',
    'sharpclaw/solver.py': 'C08 C09 C07 C20 C06 C19 C05 C22 C01', 'limiters/tvd.py': 'C10 C02', 'limiters/recon.py': 'C09',
    'fileio/ascii.py': 'C13 C16 C23 C15 C17 C20', 'fileio/binary.py': 'C15', 'fileio/hdf5.py': 'C14 C16 C23 C17',
    'fileio/claw_vtk.py': 'C16'}
SKIP = {'plot', 'plot_html', 'html_plot', 'iplot', 'plot_interactive', 'compile_library', 'construct_function_handle', '__str__', 'start_logging'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/'}


def mutants(path, rel):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(n):
        return raw[pos(n):pos(n, True)].decode()
    out = []

    def add(n, new, kind):
        out.append((rel, n.lineno, pos(n), pos(n, True), new, kind))

    def visit(n, infun):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP or 'plot' in n.name.lower():
                return
            body = n.body[1:] if ast.get_docstring(n) is not None else n.body
            for c in body:
                visit(c, isinstance(n, ast.FunctionDef))
            return
        if infun:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                add(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, (ast.Add, ast.Mult)) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))):
                add(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'bin')
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                if isinstance(n.value, bool):
                    add(n, str(not n.value), 'bool')
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), 'const')
                    if n.value > 0:
                        add(n, str(n.value - 1), 'const')
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 1.25 + 1e-3), 'const')
            if isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
            if isinstance(n, (ast.If, ast.While)):
                add(n.test, 'True' if not isinstance(n, ast.While) else 'False', 'cond')
                add(n.test, 'False', 'cond')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(n, '(%s)' % text(n.operand), 'unary')
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise, ast.Assert, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                t = text(n)
                if 'logger' not in t and 'print(' not in t and 'warn' not in t:
                    add(n, 'pass', 'del')
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n, 'return None', 'ret')
            if isinstance(n, ast.Raise):
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and any(w in text(n) for w in ('logger', 'print(', 'warn')):
                return
        for c in ast.iter_child_nodes(n):
            visit(c, infun)
    for c in ast.parse(src).body:
        visit(c, False)
    return out


ap = argparse.ArgumentParser()
ap.add_argument('-n', type=int, default=100)
ap.add_argument('-s', type=int, default=1)
ap.add_argument('-f', action='append')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('--scale', default='1')
ap.add_argument('--skip', help='log of earlier runs: do not repeat')
ap.add_argument('--again', help='log of earlier runs: only the survivors')
ap.add_argument('--checks')
ap.add_argument('--jobs', default='3')
a = ap.parse_args()
files = a.f or sorted(CHECKS)
allm = []
for rel in files:
    allm += mutants('%s/src/pyclaw/%s' % (REPO, rel), rel)
rnd = random.Random(a.s)
rnd.shuffle(allm)
done = set()
if a.skip and os.path.exists(a.skip):
    for l in open(a.skip):
        try:
            done.add(tuple(json.loads(l)['m']))
        except ValueError:
            pass
allm = [m for m in allm if tuple(m) not in done]
if a.again:
    keep = set()
    for l in open(a.again):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d['res'] == 'SURVIVED':
            keep.add(tuple(d['m']))
    allm = [m for m in allm if tuple(m) in keep]
print('# %d mutants in %s, running %d' % (len(allm), ' '.join(files), min(a.n, len(allm))), file=sys.stderr)
q = queue.Queue()
for m in allm[:a.n]:
    q.put(m)


def worker():
    w = tempfile.mkdtemp(prefix='auto', dir='/tmp')
    try:
        subprocess.run('cp -a %s %s/repo; cp -a %s %s/verif; cp -a /opt/clawpack %s/clawpack' % (REPO, w, VERIF, w, w), shell=True, check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            rel, line, i, j, new, kind = m
            p = '%s/repo/src/pyclaw/%s' % (w, rel)
            raw = open(p, 'rb').read()
            mut = raw[:i] + new.encode() + raw[j:]
            res = None
            try:
                compile(mut, rel, 'exec')
            except SyntaxError:
                continue
            open(p, 'wb').write(mut)
            for c in (a.checks or CHECKS[rel]).split():
                r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/clawpack /opt/clawpack && cd /verif && timeout 300 bash check.sh %s --scale %s --jobs %s' % (w, w, w, c, a.scale, a.jobs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    res = '%s:%d' % (c, r.returncode)
                    break
            open(p, 'wb').write(raw)
            l = raw.decode().splitlines()[line - 1].strip()
            print(json.dumps({'m': m, 'res': res or 'SURVIVED', 'line': l, 'old': raw[i:j].decode()[:200]}), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


ts = [threading.Thread(target=worker) for _ in range(a.j)]
[t.start() for t in ts]
[t.join() for t in ts]
