"""C17: a controller run outputs every requested frame at its time."""
import os

import numpy as np

from harness import claw, zoo
from harness.core import Family, require
from harness.pc import st
from props import c13

ID = 'C17'
ASSUMPTIONS = ['output style 1 spreads num_output_times equal intervals from the current time to tfinal; style 2 outputs at '
               'out_times after the first; style 3 outputs every nstepout steps until frame number num_output_times',
               'a restarted run gets the same fixed time step; frames agree to the precision of the format',
               'Solution(frame) counts new frames from zero unless count_from_zero=False']

DT = 2.0 ** -9


def problems(p):
    return (p.linear or p.scalar) and p.sharp and not p.fwave


@st.composite
def base_st(draw, cells=(4, 9)):
    nd = draw(st.sampled_from([1, 1, 2]))
    case = draw(claw.problem_case(nd, problems, cells=cells, kinds=['smooth', 'step', 'rand']))
    case['solver'] = draw(st.sampled_from(['Claw', 'SharpClaw']))
    case['fixed'] = draw(st.booleans())
    return case


def build(case):
    prob, solver, sol, params = claw.setup(case, case['solver'])
    solver.cfl_max = 1e6
    solver.cfl_desired = 0.4
    solver.dt_variable = not case['fixed']
    solver.dt_initial = DT
    solver.dt_max = 0.05
    solver.max_steps = 100000
    return prob, solver, sol


@st.composite
def run_st(draw):
    case = draw(base_st())
    case['fmts'] = draw(st.sampled_from([['ascii'], ['hdf5'], ['ascii', 'hdf5'], None]))
    case['keep'] = draw(st.booleans())
    case['aux_init'] = draw(st.booleans())
    case['aux_always'] = draw(st.booleans())
    case['prefix'] = draw(st.sampled_from([None, 'abc']))
    case['t0'] = draw(st.sampled_from([0.0, 0.5, 1.0 + 2.0 ** -9]))
    case['runs'] = []
    for _ in range(draw(st.integers(1, 3))):
        style = draw(st.sampled_from([1, 1, 2, 3]))
        r = {'style': style}
        if style == 1:
            r['n'] = draw(st.sampled_from([0, 1, 2, 3, 4, 7, 11]))
            r['steps'] = draw(st.integers(1, 3 if r['n'] < 5 else 1))
        elif style == 2:
            r['gaps'] = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(0, 4)))]
            r['astuple'] = draw(st.booleans())
            r['early'] = draw(st.sampled_from([0, 0, 1, 3]))     # the first time stands for the start: it may have passed
        else:
            r['n'] = draw(st.integers(0, 3))
            r['nstep'] = draw(st.integers(1, 3))
        case['runs'].append(r)
    case['gap'] = draw(st.sampled_from([1.0, 1.37, 0.7, 1.1]))
    case['comp'] = draw(st.sampled_from([None, None, 'gzip', 'lzf']))
    return case


def plan(case):
    """The frames that have to come out: list of runs of [(frame, 'time'|'steps', value)]."""
    out = []
    t = case['t0']
    frame = 0
    for r in case['runs']:
        unit = DT if case['fixed'] else DT * case['gap']
        first = frame
        rows = [(frame, 'start', None)]
        if r['style'] == 1:
            tfinal = t + max(r['n'], 1) * r['steps'] * unit
            times = np.linspace(t, tfinal, r['n'] + 1)[1:]
            rows += [(frame + 1 + k, 'time', float(x)) for k, x in enumerate(times)]
            set_ = {'tfinal': tfinal, 'num_output_times': r['n'], 'out_times': None}
            if r['n']:
                t = float(times[-1])
        elif r['style'] == 2:
            times = [t]
            for g in r['gaps']:
                times.append(times[-1] + g * unit)
            rows += [(frame + 1 + k, 'time', x) for k, x in enumerate(times[1:])]
            t, times[0] = times[-1], times[0] - r['early'] * unit
            set_ = {'out_times': tuple(times) if r['astuple'] else np.array(times)}
        else:
            rows += [(frame + 1 + k, 'steps', r['nstep']) for k in range(r['n'])]
            set_ = {'num_output_times': first + r['n'], 'nstepout': r['nstep']}
            t = None
        frame = rows[-1][0] + 1
        out.append((r['style'], set_, rows))
        if t is None:
            break       # the time after style 3 is known only after the run
    return out


def read_frame(fmt, d, prefix, frame, nd, eqn, naux, aux):
    """t, q, aux of the only patch of a frame, read from the file without pyclaw."""
    if fmt == 'ascii':
        num = '%04d' % frame
        vals, _ = c13.parse_t(os.path.join(d, prefix + '.t' + num))
        q = c13.parse_patches(os.path.join(d, prefix + '.q' + num), nd, 1, eqn)[0][6]
        a = None
        fn = os.path.join(d, prefix + '.a' + num)
        require(os.path.exists(fn) == (aux and naux > 0), 'auxiliary file of frame %d: %s', frame,
                'missing' if aux else 'not asked for')
        if aux and naux:
            a = c13.parse_patches(fn, nd, 1, naux)[0][6]
        return float(vals[0]), q, a
    import h5py
    with h5py.File(os.path.join(d, '%s%04d.hdf' % (prefix, frame)), 'r') as f:
        g = f['patch1']
        require(('aux' in g) == (aux and naux > 0), 'auxiliary data of frame %d', frame)
        return float(g.attrs['t']), g['q'][...], g['aux'][...] if aux and naux else None


def expected_files(case, frames):
    """Relative names of the files of a run; frames: {frame: aux written}."""
    out = set()
    for fmt in case['fmts'] or []:
        p = case['prefix'] or {'ascii': 'fort', 'hdf5': 'claw'}[fmt]
        for n in frames:
            if fmt == 'ascii':
                out |= {'%s.%s%04d' % (p, x, n) for x in (['t', 'q', 'pkl'] + (['a'] if frames[n] else []))}
            else:
                out.add('%s%04d.hdf' % (p, n))
    return out


def run_check(case, ctx):
    from clawpack import pyclaw
    top = ctx.tmpdir()
    out = os.path.join(top, 'out')
    prob, solver, sol = build(case)
    sol.t = case['t0']
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.outdir = out
    ctrl.output_format = case['fmts'] and (case['fmts'][0] if len(case['fmts']) == 1 else list(case['fmts']))
    ctrl.output_file_prefix = case['prefix']
    if case['comp'] and case['fmts'] == ['hdf5']:
        ctrl.output_options = {'compression': case['comp']}
    ctrl.keep_copy = case['keep']
    ctrl.write_aux_init = case['aux_init']
    ctrl.write_aux_always = case['aux_always']
    # the model: the same problem advanced without a controller
    _, msolver, msol = build(case)
    msol.t = case['t0']
    msolver.setup(msol)
    msolver.dt = msolver.dt_initial
    naux = sol.state.num_aux
    files = {}
    nframes = 0
    steps0 = 0
    for style, settings, rows in plan(case):
        ctrl.output_style = style
        for k, v in settings.items():
            if v is not None:
                setattr(ctrl, k, v)
        status = ctrl.run()
        snaps = []
        for frame, kind, v in rows:
            if kind == 'time':
                msolver.evolve_to_time(msol, v)
                require(abs(msol.t - v) <= 1e-12, 'the model run missed its time')
            elif kind == 'steps':
                for _ in range(v):
                    msolver.evolve_to_time(msol)
            snaps.append((frame, kind, v, msol.t, np.array(msol.q, copy=True),
                          None if msol.aux is None else np.array(msol.aux, copy=True)))
        require(status is not None and status['numsteps'] == msolver.status['numsteps'],
                'the run took %r steps, directly %r', status and status['numsteps'], msolver.status['numsteps'])
        require(ctrl.solution is sol, 'the controller has another solution')
        require(ctrl.solution.t == snaps[-1][3], 'the run ended at %r instead of %r', ctrl.solution.t, snaps[-1][3])
        require(np.array(ctrl.solution.q).tobytes() == snaps[-1][4].tobytes(), 'the result differs from the directly '
                'advanced solution')
        for k, (frame, kind, v, t, q, aux) in enumerate(snaps):
            waux = case['aux_always'] or (k == 0 and case['aux_init'])
            files[frame] = waux and naux > 0
            for fmt in case['fmts'] or []:
                prefix = case['prefix'] or {'ascii': 'fort', 'hdf5': 'claw'}[fmt]
                ft, fq, fa = read_frame(fmt, out, prefix, frame, prob.nd, prob.eqn, naux, waux)
                what = 'frame %d (%s)' % (frame, fmt)
                if fmt == 'hdf5':
                    if case['comp'] and case['fmts'] == ['hdf5']:
                        import h5py
                        with h5py.File(os.path.join(out, '%s%04d.hdf' % (prefix, frame)), 'r') as f:
                            require(f['patch1']['q'].compression == case['comp'], '%s is not compressed as output_options asks', what)
                    require(ft == t and np.array_equal(fq, q), '%s is not the solution at its time: t=%r, wanted %r', what, ft, t)
                    require(fa is None or np.array_equal(fa, aux), '%s: aux', what)
                else:
                    require(abs(ft - t) <= 5.1e-9 * abs(t), '%s has time %r instead of %r', what, ft, t)
                    require(c13.near(q, fq), '%s is not the solution at its time', what)
                    require(fa is None or c13.near(aux, fa), '%s: aux', what)
            if case['keep']:
                f = ctrl.frames[nframes + k]
                require(f.t == t and np.array_equal(f.q, q), 'frame %d kept in memory is not the solution at its time '
                        '(t=%r, wanted %r)', frame, f.t, t)
        nframes += len(rows)
        require(len(ctrl.frames) == (nframes if case['keep'] else 0), '%d frames kept, %d output', len(ctrl.frames), nframes)
        have = set(os.listdir(out)) if os.path.isdir(out) else set()
        want = expected_files(case, files)
        require(have == want, 'files %r missing, %r unexpected', sorted(want - have)[:4], sorted(have - want)[:4])
    if case['keep']:
        arrays = [f.q for f in ctrl.frames] + [ctrl.solution.q]
        keep = [np.array(a, copy=True) for a in arrays]
        for k in range(len(arrays)):
            arrays[k][...] = -77.0
            for j in range(k + 1, len(arrays)):
                require(np.array_equal(arrays[j], keep[j]), 'frames %d and %d share their data', k, j)
    ctx.label(case['solver'], 'fixed' if case['fixed'] else 'variable', *['style%d' % r[0] for r in plan(case)])
    ctx.label('runs%d' % len(plan(case)), 'fmt-%s' % '+'.join(case['fmts'] or ['none']))
    ctx.interesting(nframes >= 3)


# ---- restart ---------------------------------------------------------------------

@st.composite
def restart_st(draw):
    case = draw(base_st())
    case['fixed'] = True
    case['fmt'] = draw(st.sampled_from(['ascii', 'hdf5']))
    if case['fmt'] == 'ascii':
        case['solver'] = 'Claw'     # WENO weights can magnify the rounding of the format beyond any bound
    case['nout'] = draw(st.integers(1, 4))
    case['steps'] = draw(st.integers(1, 3))
    case['from'] = draw(st.integers(0, case['nout']))
    case['cfz'] = draw(st.sampled_from([None, True, False]))
    case['style'] = draw(st.sampled_from([1, 2, 3]))
    case['t0'] = draw(st.sampled_from([0.0, 0.75]))
    return case


def restart_check(case, ctx):
    from clawpack import pyclaw
    d1, d2 = ctx.tmpdir(), ctx.tmpdir()
    prob, solver, sol = build(case)
    sol.t = case['t0']
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.outdir = d1
    ctrl.output_format = case['fmt']
    ctrl.write_aux_always = True
    ctrl.keep_copy = True
    ctrl.num_output_times = case['nout']
    ctrl.tfinal = case['t0'] + case['nout'] * case['steps'] * DT
    ctrl.run()
    k = case['from']
    prefix = {'ascii': 'fort', 'hdf5': 'claw'}[case['fmt']]
    kw = {} if case['cfz'] is None else {'count_from_zero': case['cfz']}
    again = pyclaw.Solution(k, path=d1, file_format=case['fmt'], file_prefix=prefix, read_aux=True, **kw)
    start = k if case['cfz'] is False else 0
    require(again.start_frame == start, 'start frame %r instead of %r', again.start_frame, start)
    _, solver2, ref = build(case)
    again.state.problem_data = dict(ref.state.problem_data) if case['fmt'] == 'hdf5' else again.state.problem_data
    again.state.index_capa = ref.state.index_capa
    c2 = pyclaw.Controller()
    c2.verbosity = 0
    c2.solution, c2.solver = again, solver2
    c2.outdir = d2
    c2.output_format = case['fmt']
    c2.keep_copy = True
    c2.output_style = case['style']
    left = case['nout'] - k
    c2.tfinal = ctrl.tfinal
    c2.num_output_times = left
    c2.out_times = [again.t + i * case['steps'] * DT for i in range(left + 1)]
    c2.nstepout = case['steps']
    if case['style'] == 3:
        c2.num_output_times = start + left
    if left:
        c2.run()
        tol = 1e-6 if case['fmt'] == 'ascii' else 1e-11
        require(len(c2.frames) == left + 1, '%d frames instead of %d', len(c2.frames), left + 1)
        for i in range(left + 1):
            a, b = ctrl.frames[k + i], c2.frames[i]
            require(abs(a.t - b.t) <= tol, 'restarted frame %d has time %r instead of %r', i, b.t, a.t)
            scale = max(np.abs(f.q).max() for f in ctrl.frames) + 1.0
            require(np.abs(a.q - b.q).max() <= tol * scale, 'restarted frame %d differs by %g', i, np.abs(a.q - b.q).max())
            name = ('fort.q%04d' if case['fmt'] == 'ascii' else 'claw%04d.hdf') % (start + i)
            require(os.path.exists(os.path.join(d2, name)), 'restarted run did not write %s', name)
        num = [f for f in os.listdir(d2) if f.startswith('fort.q') or f.endswith('.hdf')]
        require(len(num) == left + 1, '%d frame files instead of %d', len(num), left + 1)
    ctx.label(case['solver'], case['fmt'], 'style%d' % case['style'], 'cfz-%s' % case['cfz'])
    ctx.interesting(0 < k < case['nout'])


# ---- overwriting -------------------------------------------------------------------

@st.composite
def over_st(draw):
    case = draw(base_st())
    case['fmt'] = draw(st.sampled_from(['ascii', 'hdf5', None]))
    case['exists'] = draw(st.booleans())
    case['overwrite'] = draw(st.booleans())
    case['gauge'] = draw(st.booleans())
    case['F'] = draw(st.booleans())
    case['p'] = draw(st.booleans())
    return case


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out


def over_check(case, ctx):
    from clawpack import pyclaw
    top = ctx.tmpdir()
    out = os.path.join(top, 'out')
    prob, solver, sol = build(case)
    if case['gauge']:
        sol.state.grid.add_gauges([[0.3 * L for L in case['len']]])
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.outdir = out
    ctrl.output_format = case['fmt']
    ctrl.overwrite = case['overwrite']
    ctrl.num_output_times = 1
    ctrl.tfinal = 2 * DT
    if case['F']:
        sol.state.mF = 1

        def compute_F(state):
            state.F[0] = state.q[0]
        ctrl.compute_F = compute_F
    if case['p'] and case['fmt']:
        sol.state.mp = 1

        def compute_p(state):
            state.p[0] = state.q[0]
        ctrl.compute_p = compute_p
    if case['exists']:
        os.makedirs(os.path.join(out, '_gauges'))
        os.makedirs(os.path.join(out, '_p'))
        for f in ['fort.q0000', 'fort.t0000', 'claw0000.hdf', 'F.txt', '_p/claw_p.q0000', 'other']:
            open(os.path.join(out, f), 'w').write('precious')
        for g in sol.state.grid.gauge_file_names:
            open(os.path.join(out, '_gauges', g), 'w').write('precious')
    before = tree(out)
    writes = bool(case['fmt'] or case['gauge'] or case['F'])
    refuse = case['exists'] and not case['overwrite'] and writes
    try:
        ctrl.run()
    except Exception as e:
        require(refuse, 'a run was refused: %s', e)
        require(tree(out) == before, 'a refused run changed the output directory')
        require(sol.t == 0.0, 'a refused run advanced the solution')
    else:
        require(not refuse, 'existing output was overwritten without permission')
        if not writes:
            require(tree(out) == before and os.path.exists(out) == case['exists'], 'a run without output wrote files')
        require(tree(out).get('other') == before.get('other'), 'an unrelated file changed')
    ctx.label('refuse' if refuse else 'allow', 'fmt-%s' % case['fmt'])
    ctx.interesting(refuse)


# ---- no output times ----------------------------------------------------------------

@st.composite
def none_st(draw):
    case = draw(base_st())
    case['style'] = draw(st.sampled_from([2, 3]))
    case['first'] = draw(st.integers(0, 2))
    case['steps'] = draw(st.integers(1, 2))
    case['reached'] = draw(st.booleans())
    return case


def none_check(case, ctx):
    from clawpack import pyclaw
    prob, solver, sol = build(case)
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.output_format = None
    ctrl.keep_copy = True
    ctrl.num_output_times = case['first']
    ctrl.tfinal = 8 * DT
    ctrl.output_style = 3
    ctrl.nstepout = case['steps']
    ctrl.run()
    n = case['first'] + 1
    require(len(ctrl.frames) == n, '%d frames instead of %d', len(ctrl.frames), n)
    t, q = sol.t, np.array(sol.q, copy=True)
    if case['reached']:
        ctrl.tfinal = t
    ctrl.output_style = case['style']
    ctrl.out_times = []
    require(ctrl.run() is None, 'a run without output times has a result')
    require(sol.t == t and np.array_equal(sol.q, q), 'a run without output times changed the solution')
    require(len(ctrl.frames) == n, 'a run without output times kept a frame')
    ctrl.output_style = 2
    ctrl.out_times = [t, t + 2 * DT]
    require(ctrl.run() is not None and len(ctrl.frames) == n + 2 and abs(sol.t - (t + 2 * DT)) <= 1e-12,
            'the run after one without output times')
    ctx.label('style%d' % case['style'])
    ctx.interesting(case['first'] > 0)


# ---- the process dies in the middle of a run --------------------------------------------

@st.composite
def crash_st(draw):
    case = draw(base_st())
    case['fmts'] = draw(st.sampled_from([['ascii'], ['hdf5'], ['ascii', 'hdf5']]))
    case['nout'] = draw(st.integers(1, 4))
    case['steps'] = draw(st.integers(1, 3))
    case['at'] = draw(st.integers(0, 12))
    case['style'] = draw(st.sampled_from([1, 2, 3]))
    case['waux'] = draw(st.booleans())
    case['F'] = draw(st.booleans())
    case['gauge'] = draw(st.booleans())
    case['fixed'] = True
    return case


def crash_check(case, ctx):
    from clawpack import pyclaw
    out = os.path.join(ctx.tmpdir(), 'out')
    n, per = case['nout'], case['steps']
    at = case['at'] % (n * per)

    def ctrl_of(hook):
        prob, solver, sol = build(case)
        ctrl = pyclaw.Controller()
        ctrl.verbosity = 0
        ctrl.solution, ctrl.solver = sol, solver
        ctrl.outdir = out
        ctrl.output_style = case['style']
        ctrl.num_output_times = n
        ctrl.nstepout = per
        ctrl.tfinal = n * per * DT
        ctrl.out_times = [k * per * DT for k in range(n + 1)]
        ctrl.write_aux_always = case['waux']
        solver.before_step = hook
        if case['F']:
            sol.state.mF = 1

            def compute_F(state):
                state.F[0] = state.q[0]
            ctrl.compute_F = compute_F
        if case['gauge']:
            sol.state.grid.add_gauges([[0.3 * L for L in case['len']]])
        return prob, ctrl

    pid = os.fork()
    if pid == 0:
        try:
            count = [0]

            def die(solver, state):
                if count[0] == at:
                    os._exit(17)
                count[0] += 1
            prob, ctrl = ctrl_of(die)
            ctrl.output_format = case['fmts'][0] if len(case['fmts']) == 1 else list(case['fmts'])
            ctrl.run()
        except BaseException:
            import traceback
            open(out + '.err', 'w').write(traceback.format_exc())
        finally:
            os._exit(1)
    _, status = os.waitpid(pid, 0)
    require(os.WIFEXITED(status) and os.WEXITSTATUS(status) == 17, 'the run did not get to step %d (status %r): %s', at,
            status, open(out + '.err').read() if os.path.exists(out + '.err') else '')
    states = []

    def note(solver, state):
        states.append((state.t, np.array(state.q, copy=True)))
    out2 = out
    out = os.path.join(ctx.tmpdir(), 'other')
    prob, ctrl = ctrl_of(note)
    ctrl.output_format = None
    ctrl.run()
    out = out2
    naux = ctrl.solution.state.num_aux
    done = at // per + 1        # frames finished before step number at
    for k in range(done):
        t, q = states[k * per]
        for fmt in case['fmts']:
            ft, fq, fa = read_frame(fmt, out, {'ascii': 'fort', 'hdf5': 'claw'}[fmt], k, prob.nd, prob.eqn, naux, case['waux'])
            require(abs(ft - t) <= 5.1e-9 * abs(t) and c13.near(q, fq), 'frame %d (%s), finished before the process died, is not '
                    'the solution at its time', k, fmt)
    case2 = dict(case, prefix=None)
    have = {f for f in os.listdir(out) if os.path.isfile(os.path.join(out, f))}
    want = expected_files(case2, {k: case['waux'] and naux > 0 for k in range(done)}) | ({'F.txt'} if case['F'] else set())
    require(have == want, 'after a run that died: files %r missing, %r unexpected', sorted(want - have)[:4], sorted(have - want)[:4])
    if case['F']:
        got = [[float(x) for x in line.split()] for line in open(os.path.join(out, 'F.txt'))]
        require(len(got) == done and all(g[0] == states[k * per][0] for k, g in enumerate(got)),
                'functionals of %d frames are on file after a run that died with %d frames finished', len(got), done)
    if case['gauge'] and done > 1:
        d = os.path.join(out, '_gauges')
        names = os.listdir(d)
        require(len(names) == 1, 'gauge files %r', names)
        rows = [[float(x) for x in line.split()] for line in open(os.path.join(d, names[0])).read().split('\n')[:(done - 1) * per + 1]]
        require([r[0] for r in rows if r] == [s[0] for s in states[:(done - 1) * per + 1]],
                'gauge records up to the last output are not on file after a run that died: %d of %d', len(rows), (done - 1) * per + 1)
    ctx.label(case['solver'], 'style%d' % case['style'], *case['fmts'])
    ctx.interesting(done > 1)


FAMILIES = [
    Family('crash', crash_st(), crash_check, quick=200, thorough=6000, shards=2, rule='the process died after at least two frames'),
    Family('run', run_st(), run_check, quick=2000, thorough=25000, shards=4, rule='at least three frames'),
    Family('restart', restart_st(), restart_check, quick=800, thorough=10000, shards=2,
           rule='restarted from a frame in the middle'),
    Family('overwrite', over_st(), over_check, quick=500, thorough=6000, shards=1, rule='a run that has to be refused'),
    Family('none', none_st(), none_check, quick=100, thorough=2000, shards=1, rule='after a run with several frames'),
]
