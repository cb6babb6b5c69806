"""C23: derived quantities and functionals are evaluated on what is output."""
import os

import numpy as np

from harness.core import Family, require
from harness.pc import st
from props import c13, c17

ID = 'C23'
ASSUMPTIONS = ['one patch (the controller evaluates the user functions on the first state)',
               'a functional is the sum over the cells of the absolute value of its density, as State.sum_F defines it',
               'the functional file holds the records of the latest run']


@st.composite
def case_st(draw):
    case = draw(c17.base_st())
    case['fmts'] = draw(st.sampled_from([['ascii'], ['hdf5'], ['ascii', 'hdf5'], None]))
    case['mp'] = draw(st.integers(0, 4))
    case['mF'] = draw(st.integers(0, 3))
    case['keep'] = draw(st.booleans())
    case['fname'] = draw(st.sampled_from([None, 'functional']))
    case['pname'] = draw(st.sampled_from([None, 'derived']))
    case['style'] = draw(st.sampled_from([1, 2, 3]))
    case['n'] = draw(st.integers(1, 4))
    case['steps'] = draw(st.integers(1, 3))
    case['runs'] = draw(st.integers(1, 2))
    case['waux'] = draw(st.booleans())
    case['tweak'] = draw(st.booleans())
    case['opts'] = draw(st.sampled_from([{}, {'compression': 'gzip'}, {'shuffle': True}]))
    case['t0'] = draw(st.sampled_from([0.0, 0.5]))
    return case


def functions(case):
    mp, mF = case['mp'], case['mF']

    def p_of(q, t, k):
        return [q[0] + t, q[-1] * 2 - 1, q.sum(axis=0), np.full(q.shape[1:], t) + k][k % 4]

    def F_of(q, t, vol, k):
        return [q[0] * vol, (q ** 2).sum(axis=0) * vol, q[-1] - 1 + t][k % 3]

    def compute_p(state):
        for k in range(mp):
            state.p[k, ...] = p_of(state.q, state.t, k)

    def compute_F(state):
        vol = np.prod(state.grid.delta)
        for k in range(mF):
            state.F[k, ...] = F_of(state.q, state.t, vol, k)
    return p_of, F_of, compute_p, compute_F


def stored(case, data, what):
    for key, value in case['opts'].items():
        got = getattr(data, key)
        require(got == value, '%s: stored with %s=%r instead of %r', what, key, got, value)


def check(case, ctx):
    from clawpack import pyclaw
    d = ctx.tmpdir()
    out = os.path.join(d, 'o')
    prob, solver, sol = c17.build(case)
    sol.t = case['t0']
    _, msolver, msol = c17.build(case)
    msol.t = case['t0']
    msolver.setup(msol)
    msolver.dt = msolver.dt_initial
    p_of, F_of, compute_p, compute_F = functions(case)
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.outdir = out
    ctrl.keep_copy = case['keep']
    ctrl.write_aux_always = case['waux']
    ctrl.output_format = case['fmts'] and (case['fmts'][0] if len(case['fmts']) == 1 else list(case['fmts']))
    ctrl.output_options = dict(case['opts'])
    if case['mp']:
        if case['keep']:
            sol.mp = case['mp']       # through the solution
        else:
            sol.state.mp = case['mp']
        ctrl.compute_p = compute_p
    if case['mF']:
        sol.state.mF = case['mF']
        ctrl.compute_F = compute_F
    if case['fname']:
        ctrl.F_file_name = case['fname']
    if case['pname']:
        ctrl.file_prefix_p = case['pname']
    prefix = case['pname'] or 'claw_p'
    frame = 0
    unit = c17.DT * (1 if case['fixed'] else 1.37)
    allframes = 0
    for run in range(case['runs']):
        if run and case['style'] == 3:
            break
        if run and case['tweak']:       # the user may change the solution between runs
            sol.q[...] *= 1.25
            msol.q[...] *= 1.25
        ctrl.output_style = case['style']
        ctrl.num_output_times = case['n']
        ctrl.nstepout = case['steps']
        t = sol.t
        ctrl.tfinal = t + case['n'] * case['steps'] * unit
        ctrl.out_times = [t + i * case['steps'] * unit for i in range(case['n'] + 1)]
        times = np.linspace(t, ctrl.tfinal, case['n'] + 1) if case['style'] == 1 else ctrl.out_times
        ctrl.run()
        rows = []
        for k in range(case['n'] + 1):
            if k:
                if case['style'] < 3:
                    msolver.evolve_to_time(msol, times[k])
                else:
                    for _ in range(case['steps']):
                        msolver.evolve_to_time(msol)
            q = np.array(msol.q, copy=True)
            rows.append((msol.t, q))
            if case['mp']:
                for fmt in case['fmts'] or []:
                    what = 'derived quantities of frame %d (%s)' % (frame, fmt)
                    want = np.array([p_of(q, msol.t, m) for m in range(case['mp'])])
                    pd = os.path.join(out, '_p')
                    if fmt == 'ascii':
                        vals, _ = c13.parse_t(os.path.join(pd, '%s.t%04d' % (prefix, frame)))
                        require(int(vals[1]) == case['mp'], '%s: the header says %s components, there are %d', what, vals[1],
                                case['mp'])
                        got = c13.parse_patches(os.path.join(pd, '%s.q%04d' % (prefix, frame)), prob.nd, 1, case['mp'])[0][6]
                        require(abs(float(vals[0]) - msol.t) <= 5.1e-9 * abs(msol.t), '%s: time %s', what, vals[0])
                        require(c13.near(want, got), '%s differ', what)
                        require(not os.path.exists(os.path.join(pd, '%s.a%04d' % (prefix, frame))), '%s: aux written', what)
                    else:
                        import h5py
                        with h5py.File(os.path.join(pd, '%s%04d.hdf' % (prefix, frame)), 'r') as f:
                            g = f['patch1']
                            require(int(g.attrs['num_eqn']) == case['mp'], '%s: num_eqn %s', what, g.attrs['num_eqn'])
                            require(float(g.attrs['t']) == msol.t, '%s: time %r', what, g.attrs['t'])
                            require(np.array_equal(g['q'][...], want), '%s differ', what)
                            stored(case, g['q'], what)
                    back = pyclaw.Solution(frame, path=pd, file_format=fmt if len(case['fmts']) == 1 else 'ascii',
                                           file_prefix=prefix, read_aux=False)
                    require(back.q.shape == want.shape and c13.near(want, back.q), '%s read back differ', what)
                    if back.problem_data is not None and fmt == 'ascii':
                        require(back.problem_data == dict(sol.state.problem_data), '%s: problem data %r became %r', what,
                                sol.state.problem_data, back.problem_data)
            if case['fmts']:
                # the frame itself is still the solution
                fmt = case['fmts'][0]
                ft, fq, _ = c17.read_frame(fmt, out, {'ascii': 'fort', 'hdf5': 'claw'}[fmt], frame, prob.nd, prob.eqn,
                                           sol.state.num_aux, case['waux'])
                require(c13.near(q, fq) and abs(ft - msol.t) <= 5.1e-9 * abs(msol.t), 'frame %d is not the solution', frame)
                if 'hdf5' in case['fmts']:
                    import h5py
                    with h5py.File(os.path.join(out, 'claw%04d.hdf' % frame), 'r') as f:
                        stored(case, f['patch1']['q'], 'frame %d' % frame)
            frame += 1
        if case['mF']:
            fn = os.path.join(out, (case['fname'] or 'F') + '.txt')
            got = [[float(x) for x in line.split()] for line in open(fn)]
            require(len(got) == len(rows), '%d lines of functionals for %d frames', len(got), len(rows))
            vol = np.prod([L / n for L, n in zip(case['len'], case['cells'])])
            for k, ((t, q), g) in enumerate(zip(rows, got)):
                require(g[0] == t, 'functionals of frame %d have time %r instead of %r', k, g[0], t)
                want = [np.abs(F_of(q, t, vol, m)).sum() for m in range(case['mF'])]
                require(len(g) - 1 == len(want) and np.allclose(g[1:], want, rtol=1e-12, atol=1e-300),
                        'functionals of frame %d are %r instead of %r', k, g[1:], want)
        else:
            require(not os.path.exists(os.path.join(out, (case['fname'] or 'F') + '.txt')), 'a functional file without functionals')
        require(os.path.isdir(os.path.join(out, '_p')) == bool(case['mp'] and case['fmts']), 'directory of derived quantities')
        require(np.array(sol.q).tobytes() == rows[-1][1].tobytes(), 'the result differs from a run without functionals')
    ctx.label('mp%d' % case['mp'], 'mF%d' % case['mF'], 'style%d' % case['style'], 'fmt-%s' % '+'.join(case['fmts'] or ['none']))
    ctx.interesting((case['mp'] > 0 and bool(case['fmts'])) or case['mF'] > 0)


FAMILIES = [Family('run', case_st(), check, quick=1600, thorough=40000, shards=4, rule='derived quantities or functionals are output')]
