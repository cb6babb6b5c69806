"""C16: writing output never changes the solution; VTK files contain it."""
import copy
import importlib
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from harness import sols
from harness.core import Family, require
from harness.pc import st, data_spec

ID = 'C16'
ASSUMPTIONS = ['VTK output supports two dimensions with levels numbered 1, 2, ... without gaps and patches aligned with the '
               'cells of their level', 'VTK values are single precision']


# ---- any sequence of writes ------------------------------------------------------

@st.composite
def writes_st(draw):
    spec = draw(sols.spec_st(nd=draw(st.sampled_from([1, 2, 2, 3])), max_patches=3))
    fmts = ['ascii', 'hdf5', 'ascii+hdf5']
    return {'spec': dict(spec), 'mp': draw(st.integers(0, 3)), 'mF': draw(st.integers(0, 2)),
            'writes': [{'fmt': draw(st.sampled_from(fmts)), 'aux': draw(st.booleans()), 'p': draw(st.booleans()),
                        'opts': draw(st.sampled_from([None, {}, {'compression': 'gzip'}, {'shuffle': True}])),
                        'prefix': draw(st.sampled_from([None, 'abc'])), 'frame': draw(st.integers(0, 20))}
                       for _ in range(draw(st.integers(1, 4)))]}


def writes_check(case, ctx):
    from clawpack import pyclaw
    d = ctx.tmpdir()
    sol = sols.build(case['spec'])
    for k, s in enumerate(sol.states):
        if case['mp']:
            s.mp = case['mp']
            s.p[...] = sols.values({'kind': 'rand', 'seed': k}, s.p.shape)
        if case['mF']:
            s.mF = case['mF']
            s.F[...] = sols.values({'kind': 'rand', 'seed': k + 9}, s.F.shape)
    before = sols.snapshot(sol)
    for n, w in enumerate(case['writes']):
        write_p = w['p'] and case['mp'] > 0
        kw = {} if w['prefix'] is None else {'file_prefix': w['prefix']}
        if w['opts'] is not None:
            kw['options'] = copy.deepcopy(w['opts'])
        fl = w['fmt'].split('+')
        fl = fl[0] if len(fl) == 1 else fl
        asked = copy.deepcopy(fl)
        sol.write(w['frame'], os.path.join(d, 'w%d' % n), file_format=fl, write_aux=w['aux'], write_p=write_p, **kw)
        require(fl == asked, 'the list of formats was changed to %r', fl)
        if 'options' in kw:
            require(kw['options'] == w['opts'], 'the options %r became %r', w['opts'], kw['options'])
        after = sols.snapshot(sol)
        require(after == before, 'write %r changed the solution', w)
        # a later write gives the same files as a write of a fresh solution
        if write_p:
            for form in (asked if isinstance(asked, list) else [asked]):
                got = pyclaw.Solution()
                # (the reader of the format: Solution.read prefers an ascii header of the same name)
                importlib.import_module('clawpack.pyclaw.fileio.' + form).read(
                    got, w['frame'], os.path.join(d, 'w%d' % n), w['prefix'] or ('fort' if form == 'ascii' else 'claw'),
                    read_aux=False)
                order = sorted(range(len(sol.states)), key=lambda i: sol.states[i].patch.patch_index)
                if form == 'ascii':
                    order = range(len(sol.states))
                for i, s in zip(order, got.states):
                    p = sol.states[i].p
                    require(s.q.shape == p.shape, 'derived quantities of shape %s read back as %s', p.shape, s.q.shape)
                    if form == 'hdf5':
                        require(np.array_equal(s.q, p), 'derived quantities differ in the hdf5 file')
                    else:
                        require(np.allclose(s.q, p, rtol=6e-9, atol=0), 'derived quantities differ in the ascii file')
    ctx.label('%dD' % case['spec']['nd'], *[w['fmt'] for w in case['writes']])
    ctx.label(*['p' for w in case['writes'] if w['p'] and case['mp']])
    ctx.interesting(len(case['writes']) > 1)


# ---- VTK ---------------------------------------------------------------------------

@st.composite
def vtk_st(draw):
    nlev = draw(st.integers(1, 3))
    ratio = [draw(st.sampled_from([2, 3, 4])) for _ in range(nlev - 1)]
    patches = [{'level': 1, 'i': [0, 0], 'n': [draw(st.integers(1, 6)), draw(st.integers(1, 6))]}]
    for lev in range(1, nlev + 1):
        for _ in range(draw(st.integers(0 if lev == 1 else 1, 2))):
            # positions in cells of the next coarser level (of level 1 for level 1)
            r = 1 if lev == 1 else ratio[lev - 2]
            patches.append({'level': lev, 'i': [draw(st.integers(0, 8)) * r, draw(st.integers(0, 8)) * r],
                            'n': [draw(st.integers(1, 4)) * r, draw(st.integers(1, 4)) * r]})
    rest = draw(st.permutations(patches[1:]))
    return {'patches': [patches[0]] + list(rest), 'ratio': ratio, 'eqn': draw(st.integers(1, 3)),
            'd': [draw(st.sampled_from([1.0, 0.25, 0.1])), draw(st.sampled_from([1.0, 0.5, 0.3]))],
            'low': [draw(st.sampled_from([0.0, -1.0, 2.5])), draw(st.sampled_from([0.0, 10.0]))],
            'q': draw(data_spec()), 'binary': draw(st.booleans()), 'frame': draw(st.sampled_from([0, 5, 321, 12345])),
            'prefix': draw(st.sampled_from([None, 'abc'])), 'how': draw(st.sampled_from(['sol', 'module', 'counter', 'noopt', 'list'])),
            'order': draw(st.permutations(['ascii', 'hdf5', 'vtk']))}


def vtk_build(case):
    from clawpack import pyclaw
    states = []
    for k, p in enumerate(case['patches']):
        r = int(np.prod(case['ratio'][:p['level'] - 1]))
        dims = []
        for d in range(2):
            dx = case['d'][d] / r
            lo = case['low'][d] + p['i'][d] * dx
            dims.append(pyclaw.Dimension(lo, lo + p['n'][d] * dx, p['n'][d], name='xy'[d]))
        patch = pyclaw.Patch(dims)
        patch.level = p['level']
        patch.patch_index = k + 1
        s = pyclaw.State(patch, case['eqn'])
        s.q[...] = sols.expand(dict(case['q'], seed=case['q']['seed'] + k), s.q.shape, -2, 5)
        states.append(s)
    return pyclaw.Solution(states, pyclaw.Domain([s.patch for s in states]))


def read_vti(fname):
    import vtk
    from vtk.util import numpy_support
    reader = vtk.vtkXMLImageDataReader()
    reader.SetFileName(fname)
    reader.Update()
    img = reader.GetOutput()
    cells = img.GetCellData()
    arrays = {cells.GetArrayName(i): numpy_support.vtk_to_numpy(cells.GetArray(i)).copy()
              for i in range(cells.GetNumberOfArrays())}
    return img.GetOrigin(), img.GetSpacing(), img.GetDimensions(), arrays


def vtk_check(case, ctx):
    from clawpack import pyclaw
    from clawpack.pyclaw.util import FrameCounter
    from clawpack.pyclaw.fileio import claw_vtk
    d = ctx.tmpdir()
    sol = vtk_build(case)
    before = sols.snapshot(sol)
    opts = {'binary': case['binary']}
    prefix = case['prefix'] or 'claw'
    frame = case['frame']
    if case['how'] == 'counter':
        frame = FrameCounter()
        frame.set_counter(case['frame'])
    if case['how'] == 'module':
        claw_vtk.write(sol, frame, d, file_prefix=prefix, options=opts)
    elif case['how'] == 'noopt':
        claw_vtk.write(sol, frame, d, file_prefix=prefix)
    elif case['how'] == 'list':
        kw = {} if case['prefix'] is None else {'file_prefix': prefix}
        sol.write(frame, d, file_format=list(case['order']), **kw)
        for form in ('ascii', 'hdf5'):      # every format of the list is there
            got = pyclaw.Solution()
            importlib.import_module('clawpack.pyclaw.fileio.' + form).read(
                got, frame, d, case['prefix'] or ('fort' if form == 'ascii' else 'claw'), read_aux=False)
            require(len(got.states) == len(sol.states), '%d of %d patches in the %s file', len(got.states), len(sol.states), form)
            for s, g in zip(sol.states, got.states):
                require(s.q.shape == g.q.shape and np.allclose(g.q, s.q, rtol=6e-9 if form == 'ascii' else 0, atol=0),
                        'values differ in the %s file of a list of formats', form)
    else:
        kw = {} if case['prefix'] is None else {'file_prefix': prefix}
        sol.write(frame, d, file_format='vtk', options=opts, **kw)
    require(opts == {'binary': case['binary']}, 'the options became %r', opts)
    require(sols.snapshot(sol) == before, 'writing VTK output changed the solution')

    base = '%s%04d' % (prefix, case['frame'])
    root = ET.parse(os.path.join(d, base + '.vthb')).getroot()
    blocks = {}
    for b in root.iter('Block'):
        blocks[int(b.get('level'))] = [(ds.get('amr_box'), ds.get('file')) for ds in b.iter('DataSet')]
    levels = sorted(set(p['level'] for p in case['patches']))
    require(sorted(blocks) == [lev - 1 for lev in levels], 'levels %r in the file', sorted(blocks))
    for lev in levels:
        want = [k for k, p in enumerate(case['patches']) if p['level'] == lev]
        require(len(blocks[lev - 1]) == len(want), '%d patches of level %d in the file', len(blocks[lev - 1]), lev)
        for k, (box, fname) in zip(want, blocks[lev - 1]):
            p = case['patches'][k]
            s = sol.states[k]
            what = 'patch %d (level %d)' % (k, lev)
            lo, hi = p['i'], [p['i'][0] + p['n'][0] - 1, p['i'][1] + p['n'][1] - 1]
            require([int(v) for v in box.split()[:4]] == [lo[0], hi[0], lo[1], hi[1]], '%s: box %r', what, box)
            origin, spacing, dims, arrays = read_vti(os.path.join(d, fname))
            require(np.allclose(origin[:2], [x.lower for x in s.patch.dimensions], rtol=1e-10, atol=1e-10), '%s: origin %r', what,
                    origin)
            require(np.allclose(spacing[:2], [x.delta for x in s.patch.dimensions], rtol=1e-10), '%s: spacing %r', what,
                    spacing)
            require(list(dims[:2]) == [n + 1 for n in p['n']], '%s: dimensions %r', what, dims)
            require(sorted(arrays) == sorted(['q_%d' % m for m in range(case['eqn'])] + ['vtkGhostType']),
                    '%s: arrays %r', what, sorted(arrays))
            for m in range(case['eqn']):
                got = arrays['q_%d' % m].reshape(p['n'][1], p['n'][0]).T
                require(np.allclose(got, s.q[m], rtol=2e-7, atol=1e-12), '%s: q_%d differs', what, m)
            cover = np.zeros(p['n'], dtype=int)
            for f in case['patches']:
                if f['level'] == lev + 1:
                    r = case['ratio'][lev - 1]
                    a = [f['i'][e] // r - p['i'][e] for e in range(2)]
                    b = [a[e] + f['n'][e] // r for e in range(2)]
                    cover[max(a[0], 0):max(b[0], 0), max(a[1], 0):max(b[1], 0)] = 8
            got = arrays['vtkGhostType'].reshape(p['n'][1], p['n'][0]).T
            require(np.array_equal(got, cover), '%s: cells covered by finer patches are %r, marked %r', what,
                    cover.tolist(), got.tolist())
    files = [f for _, _, fs in os.walk(os.path.join(d, base)) for f in fs]
    text = not case['binary'] or case['how'] in ('noopt', 'list')
    for f in files:
        kinds = {a.decode() for a in re.findall(rb'<DataArray[^>]* format="([a-z]+)"', open(os.path.join(d, base, f), 'rb').read())}
        require(kinds == {'ascii'} if text else 'ascii' not in kinds, 'data of format %r with binary=%r', kinds, not text)
    require(len(files) == len(case['patches']), '%d data files for %d patches', len(files), len(case['patches']))
    ctx.label('levels%d' % len(levels), 'binary' if case['binary'] else 'text', case['how'])
    ctx.interesting(len(case['patches']) > 1 or case['eqn'] > 1)


# ---- output during a run ---------------------------------------------------------

@st.composite
def run_st(draw):
    from harness import claw
    nd = draw(st.sampled_from([1, 2]))
    case = draw(claw.problem_case(nd, lambda p: p.sharp and not p.fwave, cells=(4, 8), kinds=['smooth', 'const', 'step']))
    case['solver'] = draw(st.sampled_from(['Claw', 'SharpClaw']))
    case['fmts'] = draw(st.lists(st.sampled_from(['ascii', 'hdf5', 'vtk']), min_size=1, max_size=3, unique=True))
    case['keep'] = draw(st.booleans())
    case['p'] = draw(st.booleans())
    case['nout'] = draw(st.integers(1, 3))
    case['waux'] = draw(st.booleans())
    return case


def run_one(case, d, fmts):
    from clawpack import pyclaw
    from harness import claw
    prob, solver, sol, params = claw.setup(case, case['solver'])
    solver.dt_initial = 1e-3
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution = sol
    ctrl.solver = solver
    ctrl.outdir = d
    ctrl.output_format = fmts
    ctrl.tfinal = 0.004
    ctrl.num_output_times = case['nout']
    ctrl.keep_copy = case['keep']
    ctrl.write_aux_always = case['waux']
    if case['p'] and fmts:
        sol.state.mp = 2

        def compute_p(state):
            state.p[0] = state.q[0] * 2
            state.p[1] = state.q[0] - 1
        ctrl.compute_p = compute_p
    status = ctrl.run()
    return np.array(ctrl.solution.q, copy=True), ctrl.solution.t, status


def run_check(case, ctx):
    if case['p'] or len(case['cells']) != 2:
        case = dict(case, fmts=[f for f in case['fmts'] if f != 'vtk'] or ['ascii'])
    a = run_one(case, ctx.tmpdir(), None)
    b = run_one(case, ctx.tmpdir(), case['fmts'] if len(case['fmts']) > 1 else case['fmts'][0])
    require(a[1] == b[1], 'final time %r with output, %r without', b[1], a[1])
    require(a[0].shape == b[0].shape and a[0].tobytes() == b[0].tobytes(), 'the result of a run with output %r differs from '
            'the one without output', case['fmts'])
    require({k: v for k, v in a[2].items()} == {k: v for k, v in b[2].items()}, 'status %r with output, %r without', b[2], a[2])
    ctx.label(case['solver'], *case['fmts'])
    ctx.interesting(a[2]['numsteps'] > 1)


FAMILIES = [
    Family('writes', writes_st(), writes_check, quick=1200, thorough=20000, shards=3, rule='more than one write'),
    Family('vtk', vtk_st(), vtk_check, quick=1200, thorough=20000, shards=3, rule='several patches or components'),
    Family('run', run_st(), run_check, quick=300, thorough=4000, shards=2, rule='several steps', case_timeout=60),
]
