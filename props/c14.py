"""C14: HDF5 output reads back bit for bit."""
import os

import numpy as np

from harness import sols
from harness.core import Family, require
from harness.pc import st

ID = 'C14'
ASSUMPTIONS = ['patch indices are distinct (the format names groups by patch index); patches are read in the order of their index',
               'compression filters that this h5py offers: gzip, lzf and the integer levels']


@st.composite
def case_st(draw):
    comp = draw(st.sampled_from([None, None, 'gzip', 'lzf', 4]))
    opts = {}
    if comp is not None:
        opts['compression'] = comp
        if comp == 'gzip' and draw(st.booleans()):
            opts['compression_opts'] = draw(st.integers(0, 9))
    if draw(st.booleans()):
        opts['shuffle'] = draw(st.booleans())
    if draw(st.booleans()):
        opts['fletcher32'] = draw(st.booleans())
    if draw(st.booleans()):
        opts['chunks'] = draw(st.sampled_from([True, True, 'ones']))
    return {'spec': dict(draw(sols.spec_st(max_patches=draw(st.sampled_from([1, 3, 12])))),
                         names=draw(st.sampled_from([['x', 'y', 'z'], ['r', 'theta', 'phi'], ['y', 'x', 'w']]))), 'opts': opts,
            'frame': draw(st.sampled_from([0, 1, 7, 42, 999, 9999, 10000, 123456])),
            'prefix': draw(st.sampled_from([None, 'claw', 'fort', 'run.a'])),
            'write_aux': draw(st.booleans()), 'read_aux': draw(st.booleans()),
            'how': draw(st.sampled_from(['read', 'init', 'frame', 'module', 'again'])),
            'fmt': draw(st.sampled_from(['hdf5', 'hdf'])), 'units': draw(st.sampled_from([None, ['m'] * 3, ['m', 'rad', 's'], [None, 'm', None], ['km', None, 'm']])),
            'bad': draw(st.sampled_from([None, None, 'missing', 'cut', 'prefix'])), 'cut': draw(st.floats(0.0, 0.9)),
            'twice': draw(st.booleans()), 'stagger': draw(st.booleans())}


def same(a, b):
    return a.shape == b.shape and sols.bits(a) == sols.bits(b)


def h5_patches(case):
    return sorted(range(len(case['spec']['patches'])), key=lambda k: case['spec']['patches'][k]['index'])


def check_file(case, fname, ref):
    import h5py
    spec = case['spec']
    with h5py.File(fname, 'r') as f:
        require(sorted(f.keys()) == sorted('patch%d' % p['index'] for p in spec['patches']), 'groups %r', list(f.keys()))
        for k, p in enumerate(spec['patches']):
            g = f['patch%d' % p['index']]
            s = ref.states[k]
            require(float(g.attrs['t']) == s.t, 'time %r', g.attrs['t'])
            require(int(g.attrs['num_eqn']) == spec['eqn'] and int(g.attrs['num_aux']) == spec['aux'], 'counts')
            require(int(g.attrs['level']) == p['level'] and int(g.attrs['patch_index']) == p['index'], 'level or index')
            require([n.decode() if isinstance(n, bytes) else str(n) for n in g.attrs['dimensions']]
                    == spec['names'][:spec['nd']], 'dimension names %r', g.attrs['dimensions'])
            for d, dim in enumerate(s.patch.dimensions):
                for attr in ('num_cells', 'lower', 'upper', 'delta'):
                    require(float(g.attrs['%s.%s' % (dim.name, attr)]) == float(getattr(dim, attr)),
                            '%s of dimension %s is %r in the file', attr, dim.name, g.attrs['%s.%s' % (dim.name, attr)])
            require(same(s.q, g['q'][...]), 'q in the file differs')
            if case['write_aux'] and spec['aux']:
                require(same(s.aux, g['aux'][...]), 'aux in the file differs')
            else:
                require('aux' not in g, 'auxiliary values were written unasked')
            want = case['opts'].get('compression')
            if want is not None:
                require(g['q'].compression == ('gzip' if isinstance(want, int) else want), 'compression %r asked, %r used',
                        want, g['q'].compression)
            require(bool(g['q'].fletcher32) == bool(case['opts'].get('fletcher32', False)), 'fletcher32 not as asked')


def refused(case, ctx, d, prefix, got):
    """A file that is not there or is cut off is refused and leaves the solution as it was."""
    if case['bad'] is None:
        return
    name = lambda pre, n: os.path.join(d, '%s%04d.hdf' % (pre, n))
    frame = case['frame'] + 3
    if case['bad'] == 'cut':
        with open(name(prefix, case['frame']), 'rb') as f:
            data = f.read()
        with open(name(prefix, frame), 'wb') as f:
            f.write(data[:int(case['cut'] * len(data))])
    states, domain, qs = list(got.states), got.domain, [s.q.copy() for s in got.states]
    try:
        if case['bad'] == 'prefix':
            got.read(case['frame'], d, file_format='hdf5', file_prefix=prefix + 'x')
        else:
            got.read(frame, d, file_format='hdf5', file_prefix=prefix)
    except Exception:
        require(got.domain is domain and len(got.states) == len(states) and all(a is b for a, b in zip(got.states, states))
                and all(same(a.q, b) for a, b in zip(got.states, qs)), 'a read that failed (%s) changed the solution', case['bad'])
        ctx.label('refused ' + case['bad'])
        return
    require(False, 'a file that cannot be read (%s) was accepted', case['bad'])


def check(case, ctx):
    from clawpack import pyclaw
    from clawpack.pyclaw.fileio import hdf5 as mod
    spec = case['spec']
    opts = dict(case['opts'])
    if opts.get('chunks') == 'ones':
        opts['chunks'] = (1,) * (spec['nd'] + 1)
    d = ctx.tmpdir()
    ref = sols.build(spec)
    for s in ref.states:
        for dim in s.patch.dimensions:
            dim.units = case['units'] and case['units'][spec['names'].index(dim.name)]
    if case['stagger']:      # patches at different times
        for k, s in enumerate(ref.states):
            s.t = spec['t'] + k / 8.0
    prefix = case['prefix'] or 'claw'
    if case['twice']:  # a frame is overwritten, not merged with an older one
        old = sols.build(dict(spec, q={'kind': 'count', 'seed': 1}, t=9.0))
        old.write(case['frame'], d, file_format='hdf5', file_prefix=prefix, write_aux=True)
    if case['how'] == 'module':
        mod.write(ref, case['frame'], d, prefix, write_aux=case['write_aux'], options=opts)
    else:
        kw = {} if case['prefix'] is None else {'file_prefix': case['prefix']}
        ref.write(case['frame'], d, file_format='hdf5', write_aux=case['write_aux'], options=opts, **kw)
    check_file(case, os.path.join(d, '%s%04d.hdf' % (prefix, case['frame'])), ref)
    kw = dict(path=d, file_format=case['fmt'], file_prefix=prefix, read_aux=case['read_aux'])
    if case['how'] == 'module':
        got = pyclaw.Solution()
        mod.read(got, case['frame'], d, prefix, read_aux=case['read_aux'])
    elif case['how'] == 'init':
        got = pyclaw.Solution(case['frame'], **kw)
    elif case['how'] == 'frame':
        got = pyclaw.Solution(frame=case['frame'], **kw)
    else:
        got = pyclaw.Solution()
        if case['how'] == 'again':
            sols.build(dict(spec, q={'kind': 'count', 'seed': 5}, t=3.5)).write(
                case['frame'] + 1, d, file_format='hdf5', file_prefix=prefix)
            got.read(case['frame'] + 1, d, file_format='hdf5', file_prefix=prefix)
        got.read(case['frame'], **kw)
    order = h5_patches(case)
    require(len(got.states) == len(order), '%d states instead of %d', len(got.states), len(order))
    require([p is s.patch for p, s in zip(got.domain.patches, got.states)] == [True] * len(order),
            'the domain does not consist of the patches of the states')
    require(case['stagger'] or got.t == spec['t'], 'time %r became %r', spec['t'], got.t)
    for k, s in zip(order, got.states):
        p = spec['patches'][k]
        r = ref.states[k]
        what = 'patch %d' % p['index']
        require(s.patch.patch_index == p['index'], '%s came back at the place of %s', s.patch.patch_index, p['index'])
        require(s.patch.level == p['level'], '%s: level %s became %s', what, p['level'], s.patch.level)
        require(s.t == r.t, '%s: time %r became %r', what, r.t, s.t)
        require(s.num_eqn == spec['eqn'] and s.num_aux == spec['aux'], '%s: counts %s %s', what, s.num_eqn, s.num_aux)
        for a, b in zip(s.patch.dimensions, r.patch.dimensions):
            require((a.name, a.lower, a.upper, a.num_cells, a.delta) == (b.name, b.lower, b.upper, b.num_cells, b.delta),
                    '%s: dimension %s became %s', what, b, a)
            require(a.units == b.units, '%s: units %r became %r', what, b.units, a.units)
        require([list(map(int, s.grid.num_cells)), list(s.grid.lower)] == [list(r.grid.num_cells), list(r.grid.lower)],
                '%s: grid', what)
        require(same(r.q, s.q), '%s: q differs', what)
        require(s.is_valid() or spec['map'], '%s: the state that was read is not valid', what)
        if case['write_aux'] and case['read_aux'] and spec['aux']:
            require(same(r.aux, s.aux), '%s: aux differs', what)
        elif spec['aux']:
            require(np.isnan(s.aux).all(), '%s: auxiliary values that were not read are %r', what, s.aux)
    arrays = [a for s in got.states for a in (s.q, s.aux) if a is not None]
    require(not any(np.shares_memory(a, b) for i, a in enumerate(arrays) for b in arrays[:i]), 'arrays of the states share memory')
    refused(case, ctx, d, prefix, got)
    ctx.label('%dD' % spec['nd'], 'patches%s' % ('>9' if len(order) > 9 else '1' if len(order) == 1 else '2-9'),
              'comp-%s' % case['opts'].get('compression'), case['how'])
    ctx.interesting(len(order) > 1 or spec['eqn'] > 1 or spec['q']['kind'] == 'extreme')


FAMILIES = [
    Family('round', case_st(), check, quick=1500, thorough=50000, shards=4,
           rule='several patches or components, or extreme magnitudes'),
]
