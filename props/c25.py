"""C25: ForestClaw frames keep block numbers and ranks, and leave the other formats alone."""
import copy
import os

import numpy as np

from harness import sols
from harness.core import Family, require
from harness.pc import st
from props import c13

ID = 'C25'
ASSUMPTIONS = ['values are finite; 9 significant digits are the stated precision of the format',
               'all patches share the number of equations and auxiliary fields and the time, as the format requires',
               'solutions written in ForestClaw format live on ForestClaw patches']

FRAMES = [0, 1, 7, 42, 999, 9999, 10000, 123456]


@st.composite
def forest_spec(draw, **kw):
    spec = draw(sols.spec_st(**kw))
    for p in spec['patches']:
        p['block'] = draw(st.sampled_from([0, 0, 1, 2, 5, 17, 99999, 123456]))
        p['rank'] = draw(st.sampled_from([0, 0, 1, 3, 127, 100000]))
    return spec


def build(spec):
    """The solution of sols.build on ForestClaw patches."""
    from clawpack import forestclaw, pyclaw
    plain = sols.build(spec)
    states = []
    for p, s in zip(spec['patches'], plain.states):
        patch = forestclaw.Patch([pyclaw.Dimension(d.lower, d.upper, d.num_cells, name=d.name) for d in s.patch.dimensions])
        require((patch.block_number, patch.mpi_rank, patch.level) == (0, 0, 1), 'a new patch has block %r, rank %r, level %r',
                patch.block_number, patch.mpi_rank, patch.level)
        patch.level, patch.patch_index = p['level'], p['index']
        patch.block_number, patch.mpi_rank = p['block'], p['rank']
        n = pyclaw.State(patch, spec['eqn'], spec['aux'])
        n.q[...] = s.q
        if spec['aux']:
            n.aux[...] = s.aux
        n.t, n.problem_data = s.t, copy.deepcopy(s.problem_data)
        if spec['map']:
            n.grid.mapc2p = sols.fortran_map
        states.append(n)
    return pyclaw.Solution(states, pyclaw.Domain([s.patch for s in states]))


def check_blocks(spec, sol, what):
    for k, (p, s) in enumerate(zip(spec['patches'], sol.states)):
        got = (getattr(s.patch, 'block_number', None), getattr(s.patch, 'mpi_rank', None))
        require(got == (p['block'], p['rank']), '%s: block and rank of patch %d are %r instead of %r', what, k, got, (p['block'], p['rank']))


def check_headers(spec, fname, num):
    """The headers in the file, read by other means."""
    nd, rows = spec['nd'], [line.split() for line in open(fname) if line.strip()]
    names = ['patch_number', 'AMR_level', 'block_number', 'mpi_rank'] + ['m' + c for c in 'xyz'[:nd]] + \
            [c + 'low' for c in 'xyz'[:nd]] + ['d' + c for c in 'xyz'[:nd]]
    pos = 0
    for k, p in enumerate(spec['patches']):
        head = rows[pos:pos + len(names)]
        require([r[1] for r in head] == names, '%s: header lines %r of patch %d', fname, [r[1:] for r in head], k)
        require([int(r[0]) for r in head[:4 + nd]] == [p['index'], p['level'], p['block'], p['rank']] + list(p['cells']),
                '%s: header %r of patch %d', fname, [r[0] for r in head], k)
        require(c13.near(p['lower'], [float(r[0]) for r in head[4 + nd:4 + 2 * nd]]), '%s: lower bounds of patch %d', fname, k)
        pos += len(names) + int(np.prod(p['cells']))
    require(pos == len(rows), '%s has %d lines instead of %d', fname, len(rows), pos)
    require(all(len(r) == num for r in rows[-1:]), '%s: %r values in a line', fname, len(rows[-1]))


# ------------------------------------------------------------ round trip
@st.composite
def round_st(draw):
    return {'spec': draw(forest_spec()), 'frame': draw(st.sampled_from(FRAMES)), 'prefix': draw(st.sampled_from([None, 'fort', 'run.a'])),
            'write_aux': draw(st.booleans()), 'read_aux': draw(st.booleans()), 'how': draw(st.sampled_from(['init', 'read', 'module', 'again'])),
            'copy': draw(st.booleans())}


def round_check(case, ctx):
    from clawpack import pyclaw
    import clawpack.forestclaw.fileio.ascii as mod
    spec, d, frame = case['spec'], ctx.tmpdir(), case['frame']
    prefix = case['prefix'] or 'fort'
    sol = build(spec)
    check_blocks(spec, sol, 'before writing')
    if case['copy']:        # a deep copy is as good
        first, sol = sol, copy.deepcopy(sol)
        check_blocks(spec, sol, 'deep copy')
        for s in first.states:
            s.patch.block_number, s.patch.mpi_rank = 31, 41
        check_blocks(spec, sol, 'deep copy of a changed solution')
    snap = sols.snapshot(sol)
    kw = {} if case['prefix'] is None else {'file_prefix': prefix}
    if case['how'] == 'module':
        mod.write(sol, frame, d, write_aux=case['write_aux'], **kw)
    else:
        sol.write(frame, d, file_format='forestclaw', write_aux=case['write_aux'], **kw)
    require(sols.snapshot(sol) == snap, 'writing changed the solution')
    check_blocks(spec, sol, 'after writing')
    check_headers(spec, os.path.join(d, '%s.q%04d' % (prefix, frame)), spec['eqn'])
    aux = case['write_aux'] and spec['aux'] > 0
    if aux:
        check_headers(spec, os.path.join(d, '%s.a%04d' % (prefix, frame)), spec['aux'])
    kw['read_aux'] = case['read_aux']
    if case['how'] == 'module':
        got = pyclaw.Solution()
        mod.read(got, frame, d, **kw)
    elif case['how'] == 'init':
        got = pyclaw.Solution(frame, path=d, file_format='forestclaw', **kw)
    else:
        got = pyclaw.Solution()
        if case['how'] == 'again':
            got.read(frame, d, file_format='forestclaw', **kw)
        got.read(frame, d, file_format='forestclaw', **kw)
    c13.check_solution(spec, got, aux and case['read_aux'])
    check_blocks(spec, got, 'after reading')
    check_blocks(spec, copy.deepcopy(got), 'deep copy of what was read')
    ctx.label('%dD' % spec['nd'], case['how'], 'aux' if aux else 'noaux')
    ctx.interesting(any(p['block'] or p['rank'] for p in spec['patches']))


# ------------------------------------------------------------ files as ForestClaw writes them
@st.composite
def foreign_st(draw):
    return {'spec': dict(draw(forest_spec(max_aux=0)), map=False), 'frame': draw(st.sampled_from(FRAMES)),
            'short': draw(st.booleans()), 'lines': draw(st.integers(1, 9)), 'names': draw(st.sampled_from(['grid_number', 'patch_number'])),
            'cut': draw(st.sampled_from([None, None, 0.3, 0.7]))}


def foreign_check(case, ctx):
    from clawpack import pyclaw
    spec, d, nd = case['spec'], ctx.tmpdir(), case['spec']['nd']
    ref = build(spec)
    num = '%04d' % case['frame']
    with open(os.path.join(d, 'fort.t' + num), 'w') as f:
        f.write('%30.20e time\n%5d meqn\n%5d ngrids\n%5d num_aux\n%5d num_dim\n' % (spec['t'], spec['eqn'], len(spec['patches']), 0, nd))
        if not case['short']:
            f.write('%5d num_ghost\nascii   file_format\n' % 0)
    text = []
    for p, s in zip(spec['patches'], ref.states):
        text += ['%5d   %s' % (p['index'], case['names']), '%5d   AMR_level' % p['level'], '%5d   block_number' % p['block'],
                 '%5d   mpi_rank' % p['rank']]
        text += ['%5d   m%s' % (n, c) for n, c in zip(p['cells'], 'xyz')]
        text += ['%24.16e   %slow' % (dim.lower, dim.name) for dim in s.patch.dimensions]
        text += ['%24.16e   d%s' % (dim.delta, dim.name) for dim in s.patch.dimensions]
        text.append('')
        for idx in np.ndindex(*reversed(s.q.shape[1:])):
            v = ['%26.16e' % x for x in s.q[(slice(None),) + tuple(reversed(idx))]]
            text += [''.join(v[i:i + case['lines']]) for i in range(0, len(v), case['lines'])]
            for m, n in zip(reversed(idx), s.q.shape[1:-1]):    # empty lines after rows and planes
                if m != n - 1:
                    break
                text.append('')
    body = '\n'.join(text) + '\n'
    if case['cut']:
        lines = body.splitlines(True)
        body = ''.join(lines[:max(1, int(case['cut'] * len(lines)))])
        ctx.label('cut')
    with open(os.path.join(d, 'fort.q' + num), 'w') as f:
        f.write(body)
    if case['cut']:
        sol = build(spec)
        states, domain = list(sol.states), sol.domain
        try:
            sol.read(case['frame'], d, file_format='forestclaw')
        except Exception:
            require(sol.domain is domain and len(sol.states) == len(states) and all(a is b for a, b in zip(sol.states, states)),
                    'a read that failed changed the solution')
            return
        require(False, 'a truncated file was accepted')
    got = pyclaw.Solution(case['frame'], path=d, file_format='forestclaw')
    c13.check_solution(spec, got, False, expect_pickle=False)
    check_blocks(spec, got, 'file of ForestClaw')
    for s, r in zip(got.states, ref.states):
        require(np.array_equal(np.array(s.q), np.array(r.q)), 'values written with 17 digits came back changed')
    ctx.label('%dD' % nd, 'short header' if case['short'] else 'long header')
    ctx.interesting(any(p['block'] or p['rank'] for p in spec['patches']))


# ------------------------------------------------------------ histories of several formats
@st.composite
def mixed_st(draw):
    n = draw(st.integers(2, 4))
    return {'specs': [draw(forest_spec(max_patches=2, max_cells=4, max_eqn=3, max_aux=2)) for _ in range(n)],
            'ops': [[draw(st.integers(0, n - 1)), draw(st.sampled_from(['ascii', 'ascii', 'forestclaw', 'forestclaw', 'hdf5', 'ascii-forest', 'hdf5-forest', 'read'])),
                     draw(st.booleans())] for _ in range(draw(st.integers(2, 8)))]}


def mixed_check(case, ctx):
    from clawpack import pyclaw
    d = ctx.tmpdir()
    done = []

    def verify(frame, k, fmt, aux):
        spec = case['specs'][k]
        got = pyclaw.Solution(frame, path=d, file_format=fmt.split('-')[0], file_prefix='fort')
        aux = aux and spec['aux'] > 0
        if fmt.startswith('hdf5'):
            ref = sols.build(spec)
            order = sorted(range(len(spec['patches'])), key=lambda j: spec['patches'][j]['index'])
            require(len(got.states) == len(order) and all(np.array_equal(got.states[i].q, ref.states[j].q) and got.states[i].t == spec['t']
                                                          for i, j in enumerate(order)), 'HDF5 frame %d came back changed', frame)
            return
        c13.check_solution(spec, got, aux)
        if fmt == 'forestclaw':
            check_blocks(spec, got, 'frame %d' % frame)
        else:
            c13.check_files(spec, d, 'fort', frame, aux)
            require(type(got.states[0].patch) is type(sols.build(spec).states[0].patch), 'an ASCII frame came back on %r', type(got.states[0].patch))
    for frame, (k, fmt, aux) in enumerate(case['ops'], 1):
        if fmt == 'read':
            for entry in done:
                verify(*entry)
            continue
        spec = case['specs'][k]
        sol = build(spec) if 'forest' in fmt else sols.build(spec)
        sol.write(frame, d, file_format=fmt.split('-')[0], file_prefix='fort', write_aux=aux)
        done.append((frame, k, fmt, aux))
        verify(*done[-1])
    for entry in done:
        verify(*entry)
    kinds = {e[2] for e in done}
    ctx.label(*kinds)
    ctx.interesting('forestclaw' in kinds and len(kinds) > 1)


# ------------------------------------------------------------ runs
@st.composite
def run_st(draw):
    nd = draw(st.integers(1, 2))
    return {'nd': nd, 'cells': [draw(st.integers(3, 9)) for _ in range(nd)], 'block': draw(st.integers(0, 9)), 'rank': draw(st.integers(0, 9)),
            'level': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 10 ** 6)), 'outputs': draw(st.integers(1, 3))}


def run_check(case, ctx):
    from clawpack import forestclaw, pyclaw, riemann
    nd, d = case['nd'], ctx.tmpdir()

    def run(forest):
        cls = forestclaw.Patch if forest else pyclaw.Patch
        patch = cls([pyclaw.Dimension(0.0, 1.0, n, name=c) for n, c in zip(case['cells'], 'xy')])
        if forest:
            patch.block_number, patch.mpi_rank, patch.level = case['block'], case['rank'], case['level']
        state = pyclaw.State(patch, 1)
        state.problem_data.update(u=1.0, v=-0.5)
        state.q[...] = np.random.default_rng(case['seed']).uniform(0, 1, state.q.shape)
        solver = [pyclaw.ClawSolver1D(riemann.advection_1D), pyclaw.ClawSolver2D(riemann.advection_2D)][nd - 1]
        solver.all_bcs = pyclaw.BC.periodic
        claw = pyclaw.Controller()
        claw.verbosity, claw.keep_copy, claw.solver = 0, True, solver
        claw.solution = pyclaw.Solution(state, pyclaw.Domain([patch]))
        claw.tfinal, claw.num_output_times = 0.3, case['outputs']
        claw.output_format, claw.outdir = 'forestclaw' if forest else 'ascii', os.path.join(d, 'forest' if forest else 'plain')
        claw.run()
        return claw
    a, b = run(True), run(False)
    require(len(a.frames) == len(b.frames) == case['outputs'] + 1, '%d frames', len(a.frames))
    want = (case['block'], case['rank'], case['level'])
    for k, (f, g) in enumerate(zip(a.frames, b.frames)):
        require(f.t == g.t and np.array_equal(f.q, g.q), 'frame %d of the run on ForestClaw patches differs', k)
        got = tuple(getattr(f.states[0].patch, n, None) for n in ('block_number', 'mpi_rank', 'level'))
        require(got == want, 'block, rank and level of frame %d in memory are %r instead of %r', k, got, want)
        r = pyclaw.Solution(k, path=a.outdir, file_format='forestclaw')
        got = tuple(getattr(r.states[0].patch, n, None) for n in ('block_number', 'mpi_rank', 'level'))
        require(got == want, 'block, rank and level of frame %d on disk are %r instead of %r', k, got, want)
        p = pyclaw.Solution(k, path=b.outdir, file_format='ascii')
        require(np.array_equal(r.q, p.q) and r.t == p.t and c13.near(f.q, r.q, 1e-300), 'frame %d on disk differs', k)
    ctx.interesting(case['block'] > 0 or case['rank'] > 0)


FAMILIES = [
    Family('round', round_st(), round_check, quick=1500, thorough=40000, shards=4, rule='some block number or rank is not zero'),
    Family('foreign', foreign_st(), foreign_check, quick=1000, thorough=30000, shards=4, rule='some block number or rank is not zero'),
    Family('mixed', mixed_st(), mixed_check, quick=500, thorough=15000, shards=4, rule='the history uses ForestClaw and another format'),
    Family('run', run_st(), run_check, quick=100, thorough=2000, shards=2, rule='block number or rank is not zero'),
]
