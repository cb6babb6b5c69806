"""C15: binary AMR output is read back exactly."""
import os

import numpy as np

from harness import sols
from harness.core import Family, require
from harness.pc import st

ID = 'C15'
ASSUMPTIONS = ['files follow the AMRClaw layout: headers in fort.q, values including ghost cells in Fortran order in fort.b, '
               'auxiliary values in fort.a, byte order of the machine']


@st.composite
def case_st(draw):
    return {'spec': dict(draw(sols.spec_st(max_patches=5)), params={}, map=False),
            'frame': draw(st.sampled_from([0, 1, 12, 9999])), 'ghost': draw(st.integers(0, 4)),
            'fmt': draw(st.sampled_from(['binary', 'binary64', 'binary32'])), 'header': draw(st.booleans()),
            'aux': draw(st.sampled_from(['frame', 'zero', 'both', 'none'])), 'read_aux': draw(st.booleans()),
            'how': draw(st.sampled_from(['read', 'init', 'module', 'again'])),
            'prefix': draw(st.sampled_from(['fort', 'amr'])), 'seed': draw(st.integers(0, 999))}


def full(interior, g, rng, dtype):
    shape = [interior.shape[0]] + [n + 2 * g for n in interior.shape[1:]]
    a = rng.uniform(-9e3, 9e3, size=shape)
    a[(slice(None),) + tuple(slice(g, g + n) for n in interior.shape[1:])] = interior
    return a.astype(dtype)


def write(case, spec, ref, d, num, prefix='fort'):
    rng = np.random.default_rng(case['seed'])
    g = case['ghost']
    dtype = np.float32 if case['fmt'] == 'binary32' else np.float64
    nd = spec['nd']
    with open(os.path.join(d, prefix + '.t' + num), 'w') as f:
        f.write('%26.16E    time\n%6d                 meqn\n%6d                 ngrids\n%6d                 naux\n'
                '%6d                 ndim\n%6d                 nghost\n'
                % (spec['t'], spec['eqn'], len(spec['patches']), spec['aux'], nd, g))
        if case['header']:
            f.write('%-12s           format\n' % case['fmt'])
    with open(os.path.join(d, prefix + '.q' + num), 'w') as f:
        for p in spec['patches']:
            f.write('%8d                 grid_number\n%8d                 AMR_level\n' % (p['index'], p['level']))
            for i in range(nd):
                f.write('%8d                 m%s\n' % (p['cells'][i], 'xyz'[i]))
            for i in range(nd):
                f.write('%26.16E    %slow\n' % (p['lower'][i], 'xyz'[i]))
            for i in range(nd):
                f.write('%26.16E    d%s\n' % (p['len'][i] / p['cells'][i], 'xyz'[i]))
            f.write('\n')
    qs = [full(s.q, g, rng, dtype) for s in ref.states]
    with open(os.path.join(d, prefix + '.b' + num), 'wb') as f:
        for a in qs:
            f.write(a.tobytes(order='F'))
    auxs = []
    if spec['aux']:
        auxs = [full(s.aux, g, rng, dtype) for s in ref.states]
        if case['aux'] != 'none':
            if case['aux'] == 'both' and case['frame']:      # the data of the frame come before those of frame 0
                with open(os.path.join(d, prefix + '.a0000'), 'wb') as f:
                    for a in auxs:
                        f.write((a * 0 + 77).astype(dtype).tobytes(order='F'))
            with open(os.path.join(d, prefix + '.a' + (num if case['aux'] != 'zero' else '0000')), 'wb') as f:
                for a in auxs:
                    f.write(a.tobytes(order='F'))
    return qs, auxs


def check(case, ctx):
    from clawpack import pyclaw
    from clawpack.pyclaw.fileio import binary as mod
    spec = case['spec']
    if case['fmt'] == 'binary32':
        spec = dict(spec, q={'kind': 'rand', 'seed': spec['q']['seed']}, auxv={'kind': 'rand', 'seed': spec['auxv']['seed']})
    d = ctx.tmpdir()
    ref = sols.build(spec)
    num = '%04d' % case['frame']
    prefix = case['prefix']
    qs, auxs = write(case, spec, ref, d, num, prefix)
    g = case['ghost']
    kw = dict(path=d, file_format=None if case['header'] and case['seed'] % 2 else case['fmt'], file_prefix=prefix,
              read_aux=case['read_aux'])
    if case['how'] == 'init':
        got = pyclaw.Solution(case['frame'], **kw)
    elif case['how'] == 'module':
        got = pyclaw.Solution()
        mod.read(got, case['frame'], d, prefix, read_aux=case['read_aux'], options={'format': case['fmt']})
    else:
        got = pyclaw.Solution()
        if case['how'] == 'again':
            os.mkdir(os.path.join(d, 'other'))
            write(case, spec, ref, os.path.join(d, 'other'), '0003', prefix)
            got.read(3, path=os.path.join(d, 'other'), file_format=case['fmt'], file_prefix=prefix)
        got.read(case['frame'], **kw)
    require(len(got.states) == len(spec['patches']) == len(got.domain.patches), '%d states', len(got.states))
    require(got.t == float('%26.16E' % spec['t']), 'time %r became %r', spec['t'], got.t)
    for k, (p, s) in enumerate(zip(spec['patches'], got.states)):
        what = 'patch %d of %d' % (k, len(got.states))
        inner = (slice(None),) + tuple(slice(g, g + n) for n in p['cells'])
        require(got.domain.patches[k] is s.patch, '%s: domain and state disagree', what)
        require(s.patch.level == p['level'] and s.patch.patch_index == p['index'], '%s: level or index', what)
        require(s.t == got.t, '%s: time', what)
        require(s.num_eqn == spec['eqn'] and s.num_aux == spec['aux'], '%s: counts', what)
        for i, dim in enumerate(s.patch.dimensions):
            lo = float('%26.16E' % p['lower'][i])
            dx = float('%26.16E' % (p['len'][i] / p['cells'][i]))
            require(dim.name == 'xyz'[i] and dim.num_cells == p['cells'][i], '%s: dimension %s', what, dim)
            require(dim.lower == lo, '%s: lower %r became %r', what, lo, dim.lower)
            require(abs(dim.upper - (lo + p['cells'][i] * dx)) <= 1e-14 * (abs(lo) + p['cells'][i] * dx), '%s: upper %r', what,
                    dim.upper)
        require(s.q.shape == qs[k][inner].shape, '%s: q has shape %s', what, s.q.shape)
        require(sols.bits(s.q) == sols.bits(qs[k][inner]), '%s: q differs', what)
        if spec['aux'] and case['read_aux'] and case['aux'] != 'none':
            require(s.aux.shape == auxs[k][inner].shape and sols.bits(s.aux) == sols.bits(auxs[k][inner]),
                    '%s: aux differs', what)
        elif spec['aux']:
            require(np.isnan(s.aux).all(), '%s: auxiliary values that were not read are not marked as such', what)
    ctx.label('%dD' % spec['nd'], 'ghost%d' % g, case['fmt'], 'aux-' + case['aux'] if spec['aux'] else 'noaux')
    ctx.interesting(g > 0 or len(spec['patches']) > 1)


@st.composite
def cut_st(draw):
    case = draw(case_st())
    return dict(case, cut=draw(st.integers(1, 10 ** 6)), which=draw(st.sampled_from(['b', 'b', 'a'])), read_aux=True)


def cut_check(case, ctx):
    """A frame whose data end early is refused, and leaves what the solution held."""
    spec = case['spec']
    if case['fmt'] == 'binary32':
        spec = dict(spec, q={'kind': 'rand', 'seed': spec['q']['seed']}, auxv={'kind': 'rand', 'seed': spec['auxv']['seed']})
    d = ctx.tmpdir()
    num = '%04d' % case['frame']
    write(case, spec, sols.build(spec), d, num, case['prefix'])
    f = os.path.join(d, case['prefix'] + '.' + case['which'] + num)
    if not os.path.exists(f):
        return
    size = os.path.getsize(f)
    os.truncate(f, (case['cut'] % size) if size > 1 else 0)
    got = sols.build(dict(spec, q={'kind': 'count', 'seed': 3}))
    before = sols.snapshot(got)
    try:
        got.read(case['frame'], path=d, file_format=case['fmt'], file_prefix=case['prefix'], read_aux=True)
    except Exception:
        require(sols.snapshot(got) == before, 'a read that failed changed the solution')
        ctx.interesting()
        ctx.label('refused', case['which'])
        return
    require(False, 'a %s file cut to %d of %d bytes was read as a frame', case['which'], os.path.getsize(f), size)


FAMILIES = [Family('binary', case_st(), check, quick=3600, thorough=60000, shards=6,
                   rule='ghost cells or several patches'),
            Family('cut', cut_st(), cut_check, quick=600, thorough=10000, shards=1, rule='the damaged file was refused')]
