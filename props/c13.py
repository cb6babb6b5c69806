"""C13: ASCII output reads back as the solution that was written."""
import os
import re

import numpy as np

from harness import sols
from harness.core import Family, require
from harness.pc import st

ID = 'C13'
ASSUMPTIONS = ['values are finite; 9 significant digits are the stated precision of the format',
               'all patches share the number of equations and auxiliary fields and the time, as the format requires',
               'problem data and mapping can be pickled']

TOL = 5.01e-9


def near(a, b, slack=0.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    with np.errstate(over='ignore'):
        return a.shape == b.shape and bool((np.abs(a - b) <= TOL * np.abs(a) + 1e-323 + slack).all())


def check_geometry(p, patch, what):
    require(patch.level == p['level'], '%s: level %s became %s', what, p['level'], patch.level)
    require(patch.patch_index == p['index'], '%s: patch index %s became %s', what, p['index'], patch.patch_index)
    require(list(patch.num_cells_global) == list(p['cells']), '%s: cells %s became %s', what, p['cells'],
            patch.num_cells_global)
    require(list(patch.grid.num_cells) == list(p['cells']), '%s: grid cells %s became %s', what, p['cells'],
            patch.grid.num_cells)
    for d in range(len(p['cells'])):
        lo, up = p['lower'][d], p['lower'][d] + p['len'][d]
        dim = patch.dimensions[d]
        require(dim.name == 'xyz'[d], '%s: dimension %d is named %r', what, d, dim.name)
        require(near(lo, dim.lower), '%s: lower %r became %r', what, lo, dim.lower)
        require(abs(up - dim.upper) <= 2 * TOL * (abs(lo) + abs(up - lo)) + 1e-15 * abs(up),
                '%s: upper %r became %r', what, up, dim.upper)
        delta = (up - lo) / p['cells'][d]
        require(abs(dim.delta - delta) <= 2 * TOL * delta + 4e-16 * (abs(lo) + abs(up)),
                '%s: delta %r became %r', what, delta, dim.delta)


def check_solution(spec, sol, aux_written, expect_pickle=True):
    from clawpack import pyclaw
    require(near(spec['t'], sol.t), 'time %r became %r', spec['t'], sol.t)
    require(len(sol.states) == len(spec['patches']), '%d states instead of %d', len(sol.states), len(spec['patches']))
    require(len(sol.domain.patches) == len(spec['patches']), 'the domain has %d patches instead of %d',
            len(sol.domain.patches), len(spec['patches']))
    ref = sols.build(spec)
    for k, (p, s, r) in enumerate(zip(spec['patches'], sol.states, ref.states)):
        what = 'patch %d' % k
        check_geometry(p, s.patch, what)
        require(sol.domain.patches[k] is s.patch, '%s: domain and state disagree', what)
        require(near(spec['t'], s.t), '%s: time %r became %r', what, spec['t'], s.t)
        require(s.num_eqn == spec['eqn'], '%s: num_eqn %s', what, s.num_eqn)
        require(s.num_aux == spec['aux'], '%s: num_aux %s', what, s.num_aux)
        require(near(r.q, s.q), '%s: q differs: %r became %r', what, r.q.tolist(), s.q.tolist())
        if aux_written and spec['aux']:
            require(near(r.aux, s.aux), '%s: aux differs: %r became %r', what, r.aux.tolist(), s.aux.tolist())
        elif spec['aux']:
            require(np.isnan(s.aux).all(), '%s: auxiliary values that were not read are not marked as such', what)
        if expect_pickle:
            require(s.problem_data == r.problem_data, '%s: problem data %r became %r', what, r.problem_data,
                    s.problem_data)
            if spec['map']:
                require(s.grid.mapc2p is sols.fortran_map, '%s: the mapping was lost', what)
    require(isinstance(sol, pyclaw.Solution), 'no solution')


# ---- an independent parser and writer of the format ---------------------------

def parse_t(path):
    rows = [line.split() for line in open(path) if line.strip()]
    return [r[0] for r in rows], [r[1] for r in rows]


def parse_patches(path, nd, npatch, num):
    tok = open(path).read().split('\n')
    pos = 0
    out = []
    for _ in range(npatch):
        head = []
        while len(head) < 2 + 3 * nd:
            if tok[pos].strip():
                head.append(tok[pos].split())
            pos += 1
        vals = [h[0] for h in head]
        names = [h[1] for h in head]
        cells = [int(v) for v in vals[2:2 + nd]]
        need = num * int(np.prod(cells))
        data = []
        while len(data) < need:
            data.extend(float(x) for x in tok[pos].split())
            pos += 1
        require(len(data) == need, 'a line of %s holds the wrong number of values', path)
        arr = np.array(data).reshape(list(reversed(cells)) + [num]).transpose()
        out.append((int(vals[0]), int(vals[1]), cells, [float(v) for v in vals[2 + nd:2 + 2 * nd]],
                    [float(v) for v in vals[2 + 2 * nd:]], names, arr))
    rest = [t for t in tok[pos:] if t.strip()]
    require(not rest, 'unexpected text at the end of %s: %r', path, rest[:2])
    return out


def check_files(spec, d, prefix, frame, aux):
    ref = sols.build(spec)
    nd = spec['nd']
    num = '%04d' % frame
    vals, names = parse_t(os.path.join(d, prefix + '.t' + num))
    require(names == ['time', 'num_eqn', 'nstates', 'num_aux', 'num_dim', 'num_ghost', 'file_format'],
            'unexpected header names %r', names)
    require(near(spec['t'], float(vals[0])), 'time %r written as %r', spec['t'], vals[0])
    want = [spec['eqn'], len(spec['patches']), spec['aux'], nd, 0]
    require([int(v) for v in vals[1:6]] == want, 'header %r instead of %r', vals[1:6], want)
    require(vals[6] == 'ascii', 'format %r', vals[6])
    kinds = [('q', spec['eqn'], [s.q for s in ref.states])]
    if aux and spec['aux']:
        kinds.append(('a', spec['aux'], [s.aux for s in ref.states]))
    else:
        require(not os.path.exists(os.path.join(d, prefix + '.a' + num)), 'an auxiliary file was written unasked')
    for letter, n, arrays in kinds:
        got = parse_patches(os.path.join(d, prefix + '.' + letter + num), nd, len(spec['patches']), n)
        for k, (p, g, a) in enumerate(zip(spec['patches'], got, arrays)):
            what = 'file %s patch %d' % (letter, k)
            require(g[0] == p['index'] and g[1] == p['level'] and g[2] == list(p['cells']), '%s: header %r', what, g[:3])
            require(near(p['lower'], g[3]), '%s: lower %r', what, g[3])
            delta = [r.delta for r in ref.states[k].patch.dimensions]
            require(near(delta, g[4]), '%s: delta %r', what, g[4])
            nm = ['patch_number', 'AMR_level'] + ['m' + c for c in 'xyz'[:nd]] + [c + 'low' for c in 'xyz'[:nd]] + \
                 ['d' + c for c in 'xyz'[:nd]]
            require(g[5] == nm, '%s: names %r', what, g[5])
            require(near(a, g[6]), '%s: values %r instead of %r', what, g[6].tolist(), a.tolist())


# ---- round trip -----------------------------------------------------------------

@st.composite
def round_st(draw):
    return {'spec': draw(sols.spec_st()), 'frame': draw(st.sampled_from([0, 1, 7, 42, 999, 9999, 10000, 123456])),
            'prefix': draw(st.sampled_from([None, 'fort', 'claw', 'run.a', 'x', '_run_1_'])),
            'sub': draw(st.sampled_from(['', 'a/b', '$VERIF_SUB/c'])), 'write_aux': draw(st.booleans()),
            'read_aux': draw(st.booleans()), 'how': draw(st.sampled_from(['read', 'init', 'frame', 'module', 'again'])),
            'fmt': draw(st.sampled_from(['ascii', 'list', 'sniff', 'wrong'])), 'first': draw(st.sampled_from(['none', 'other', 'same']))}


def round_check(case, ctx):
    from clawpack import pyclaw
    from clawpack.pyclaw.fileio import ascii as mod
    spec = case['spec']
    top = ctx.tmpdir()
    os.environ['VERIF_SUB'] = 'sub'
    path = os.path.join(top, case['sub'])
    real = os.path.expandvars(path)
    sol = sols.build(spec)
    prefix = case['prefix'] or 'fort'
    write_aux = case['write_aux']
    if case['first'] != 'none' and case['frame'] and spec['aux']:
        # frame 0 has auxiliary data too: they hold for later frames that have none of their own
        zero = sols.build(spec)
        if case['first'] == 'other':
            for s in zero.states:
                s.aux[...] = 77.0
            write_aux = True
        else:
            write_aux = False
        os.makedirs(real, exist_ok=True)
        zero.write(0, real, file_format='ascii', file_prefix=prefix, write_aux=True)
    case = dict(case, write_aux=write_aux)
    if case['how'] == 'module':
        path = real
        os.makedirs(real, exist_ok=True)
        mod.write(sol, case['frame'], real, prefix, write_aux=case['write_aux'])
    else:
        kw = {} if case['prefix'] is None else {'file_prefix': case['prefix']}
        sol.write(case['frame'], path, file_format=['ascii'] if case['fmt'] == 'list' else 'ascii',
                  write_aux=case['write_aux'], **kw)
    check_files(spec, real, prefix, case['frame'], case['write_aux'])
    # the format noted in the frame decides
    fmt = {'sniff': None, 'wrong': 'binary'}.get(case['fmt'], 'ascii')
    opts = {}
    if case['how'] == 'module':
        got = pyclaw.Solution()
        mod.read(got, case['frame'], real, prefix, read_aux=case['read_aux'])
    elif case['how'] == 'init':
        got = pyclaw.Solution(case['frame'], path=real, file_format=fmt, file_prefix=prefix, read_aux=case['read_aux'])
    elif case['how'] == 'frame':
        got = pyclaw.Solution(frame=case['frame'], path=real, file_format=fmt, file_prefix=prefix,
                              read_aux=case['read_aux'])
    else:
        got = pyclaw.Solution()
        if case['how'] == 'again':
            other = sols.build(dict(spec, q={'kind': 'count', 'seed': 5}, t=3.5))
            other.write(case['frame'] + 1, real, file_prefix=prefix)
            got.read(case['frame'] + 1, real, file_format='ascii', file_prefix=prefix)
        got.read(case['frame'], path, file_format=fmt, file_prefix=prefix, read_aux=case['read_aux'], options=opts)
    require(opts == {}, 'reading changed the options given: %r', opts)
    from_zero = case['first'] != 'none' and case['frame'] and spec['aux']
    check_solution(spec, got, (case['write_aux'] or from_zero) and case['read_aux'])
    ctx.label('%dD' % spec['nd'], 'patches%d' % min(len(spec['patches']), 3), 'aux' if case['write_aux'] else 'noaux',
              spec['q']['kind'], case['how'])
    ctx.interesting(len(spec['patches']) > 1 or spec['eqn'] > 1 or spec['q']['kind'] == 'extreme')


# ---- files written by the Fortran codes ------------------------------------------

@st.composite
def foreign_st(draw):
    return {'spec': dict(draw(sols.spec_st()), params={}, map=False), 'frame': draw(st.sampled_from([0, 3, 120])),
            'perline': draw(st.sampled_from([1, 2, 4, 6, 7, 99])), 'tail': draw(st.sampled_from(['full', 'ghost', 'none'])),
            'aux': draw(st.sampled_from(['frame', 'zero', 'both', 'none'])), 'digits': draw(st.sampled_from([8, 16])),
            'ghost': draw(st.integers(0, 3))}


def fwrite(path, spec, arrays, perline, digits):
    fmt = '%%%d.%de' % (digits + 10, digits)
    nd = spec['nd']
    with open(path, 'w') as f:
        for p, a in zip(spec['patches'], arrays):
            f.write('%6d                 grid_number\n%6d                 AMR_level\n' % (p['index'], p['level']))
            for d in range(nd):
                f.write('%6d                 m%s\n' % (p['cells'][d], 'xyz'[d]))
            for d in range(nd):
                f.write('%26.16E    %slow\n' % (p['lower'][d], 'xyz'[d]))
            for d in range(nd):
                f.write('%26.16E    d%s\n' % (p['len'][d] / p['cells'][d], 'xyz'[d]))
            f.write('\n')
            rows = a.reshape(a.shape[0], -1, order='F').T
            n0 = p['cells'][0]
            n1 = p['cells'][1] if nd > 1 else 0
            for i, row in enumerate(rows):
                for s in range(0, len(row), perline):
                    f.write(''.join(fmt % v for v in row[s:s + perline]) + '\n')
                if nd > 1 and (i + 1) % n0 == 0:
                    f.write('\n')
                if nd > 2 and (i + 1) % (n0 * n1) == 0:
                    f.write('\n')


def foreign_check(case, ctx):
    from clawpack import pyclaw
    spec = case['spec']
    d = ctx.tmpdir()
    ref = sols.build(spec)
    num = '%04d' % case['frame']
    with open(os.path.join(d, 'fort.t' + num), 'w') as f:
        f.write('%26.16E    time\n%6d                 meqn\n%6d                 ngrids\n%6d                 maux\n'
                '%6d                 ndim\n' % (spec['t'], spec['eqn'], len(spec['patches']), spec['aux'], spec['nd']))
        if case['tail'] != 'none':
            f.write('%6d                 nghost\n' % case['ghost'])
        if case['tail'] == 'full':
            f.write('ascii                  format\n')
    fwrite(os.path.join(d, 'fort.q' + num), spec, [s.q for s in ref.states], case['perline'], case['digits'])
    if spec['aux'] and case['aux'] != 'none':
        if case['aux'] == 'both' and case['frame']:      # the data of the frame come before those of frame 0
            fwrite(os.path.join(d, 'fort.a0000'), spec, [np.full(s.aux.shape, 77.0) for s in ref.states], case['perline'],
                   case['digits'])
        name = num if case['aux'] != 'zero' else '0000'
        fwrite(os.path.join(d, 'fort.a' + name), spec, [s.aux for s in ref.states], case['perline'], case['digits'])
    got = pyclaw.Solution(case['frame'], path=d, file_format='ascii', read_aux=True)
    check_solution(spec, got, case['aux'] != 'none', expect_pickle=False)
    for s in got.states:        # no mapping was given: physical and computational coordinates are the same
        require(all(np.array_equal(x, y) for x, y in zip(s.grid.p_centers, s.grid.c_centers)), 'a mapping appeared')
    if case['digits'] == 16:
        for r, s in zip(ref.states, got.states):
            require(np.array_equal(r.q, s.q), 'values of 17 digits were not read exactly')
    from clawpack.pyclaw.controller import OutputController
    oc = OutputController(d, file_format='ascii', file_prefix='fort')
    require(near(spec['t'], oc.get_time(case['frame'])), 'OutputController.get_time gives another time')
    ctx.label('%dD' % spec['nd'], 'perline%d' % case['perline'], case['tail'], 'aux-' + case['aux'])
    ctx.interesting(spec['eqn'] > case['perline'] or len(spec['patches']) > 1)


# ---- damaged files must not be read as data ----------------------------------------

@st.composite
def cut_st(draw):
    return {'spec': dict(draw(sols.spec_st(max_patches=2)), params={}, map=False), 'keep': draw(st.integers(0, 10 ** 6)),
            'which': draw(st.sampled_from(['q', 'a', 't']))}


def cut_check(case, ctx):
    from clawpack import pyclaw
    spec = case['spec']
    d = ctx.tmpdir()
    sols.build(spec).write(0, d, write_aux=True)
    f = os.path.join(d, 'fort.%s0000' % case['which'])
    if not os.path.exists(f):
        return
    lines = open(f).read().split('\n')
    full = [k for k, line in enumerate(lines) if re.search(r'\d', line)]
    if case['which'] == 't':
        full = full[:5]
    keep = full[case['keep'] % len(full)]
    open(f, 'w').write('\n'.join(lines[:keep]) + ('\n' if keep else ''))
    got = sols.build(dict(spec, q={'kind': 'count', 'seed': 3}))
    before = sols.snapshot(got)
    try:
        got.read(0, d, file_format='ascii', read_aux=True)
    except Exception:
        require(sols.snapshot(got) == before, 'a read that failed changed the solution')
        ctx.label('refused', case['which'])
        ctx.interesting()
        return
    require(False, 'file %s cut after %d lines was read as a frame', case['which'], keep)


FAMILIES = [
    Family('round', round_st(), round_check, quick=3000, thorough=60000, shards=4,
           rule='several patches or components, or extreme magnitudes'),
    Family('foreign', foreign_st(), foreign_check, quick=1800, thorough=30000, shards=3,
           rule='values of a cell on several lines, or several patches'),
    Family('cut', cut_st(), cut_check, quick=500, thorough=15000, shards=1, rule='the damaged file was refused'),
]
