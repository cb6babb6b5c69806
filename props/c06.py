"""C06: time stepping reaches the requested time within the CFL limit."""
import numpy as np

from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, floats, make_domain, demand_close

ID = 'C06'
ASSUMPTIONS = ['the wave speeds of the generated problems are known to the check (own Riemann solver in Python, '
               'advection with prescribed speeds in Fortran)',
               'a Courant number within 1e-9 (relative) of the maximum may be judged either way',
               'the desired Courant number is below the maximum by more than rounding',
               'rejected attempts may or may not count towards max_steps']

RK3 = {'a': [[0, 0, 0], [1, 0, 0], [.25, .25, 0]], 'b': [1 / 6., 1 / 6., 2 / 3.], 'c': [0, 1, .5]}


@st.composite
def history_st(draw, kind):
    sharp = kind == 'sharp'
    nd = 1 if kind != 'fortran' else draw(st.sampled_from([1, 2, 2, 3]))
    case = {
        'kind': kind, 'nd': nd,
        'cells': [draw(st.integers(3, 8 if nd == 1 else 4)) for _ in range(nd)],
        'len': [draw(st.sampled_from([1.0, 0.5, 3.0])) for _ in range(nd)],
        'q': draw(data_spec()),
        't0': draw(st.sampled_from([0.0, 0.0, 1.0, -2.5, 100.0])),
        'speeds': [[draw(st.sampled_from([1.0, 2.0, 0.5, -1.0, -3.0, 5.0, 0.0])) for _ in range(nd)]
                   for _ in range(draw(st.integers(1, 5)))],
        'nl': draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])) if kind != 'fortran' else 0.0,
        'dt': draw(st.sampled_from([0.01, 0.1, 0.3, 1.0, 10.0, 1e-4])),
        'desired': draw(st.sampled_from([0.9, 0.5, 0.2])),
        'ratio': draw(st.sampled_from([1.0001, 1.05, 1.2, 2.0])),
        'dt_max': draw(st.sampled_from([1e99, 1e99, 0.5, 0.05])),
        'split': draw(st.sampled_from([0, 0, 1, 2])),
        'lam': draw(st.sampled_from([1.0, 3.0, -2.0, 20.0])),
        'max_steps': 200,
        'gain': draw(st.sampled_from([1.0, 1.0, 1.02, 0.9])),      # what before_step makes of the solution
        'unit': draw(st.sampled_from([1.0, 1.0, 1.0, 1e-12, 1e-5, 1e9])),     # of space and time
    }
    u = case['unit']
    case['len'] = [x * u for x in case['len']]
    case['t0'] *= u
    case['dt_max'] = min(1e99, case['dt_max'] * u)
    case['lam'] /= u
    if sharp:
        case['integrator'] = draw(st.sampled_from(['Euler', 'SSP33', 'SSP104', 'RK']))
        case['scale'] = 2.0 if case['integrator'] == 'SSP104' else 1.0
        case['implied'] = draw(st.integers(0, 5)) == 0      # only cfl_max is given; 0.9 of it is then desired
        if case['implied']:
            case['ratio'] = 1 / 0.9
    ops = []
    fixed = draw(st.integers(0, 4)) == 0
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(['fixed', 'fixed', 'here', 'back'] if fixed else
                                  ['to', 'to', 'to', 'one', 'one', 'near', 'here', 'back', 'set', 'limit', 'bad']))
        if op == 'to':
            ops.append([op, draw(st.sampled_from([0.1, 0.35, 1.0, 0.01, 0.123456])), draw(st.booleans())])
        elif op == 'near':      # the last of m steps all but reaches, or just passes, the end
            ops.append([op, draw(st.integers(1, 6)), draw(st.sampled_from([0.02, 0.1, 0.3])),
                        draw(st.sampled_from([1, -1])) * 10.0 ** -draw(st.integers(2, 11))])
        elif op == 'set':
            ops.append([op, draw(st.sampled_from(['dt_max', 'desired'])), draw(st.sampled_from([0.3, 0.7, 0.03, 0.999]))])
        elif op == 'fixed':
            ops.append([op, draw(st.integers(1, 4)), draw(st.sampled_from([0.25, 0.5, 0.9, 1.7]))])
        elif op == 'limit':
            ops.append([op, draw(st.integers(1, 4))])
        else:
            ops.append([op])
    case['ops'] = ops
    return case


class Log:
    """Everything the hooks see: attempts (t, q, dt afterwards, speeds)."""

    def __init__(self):
        self.attempts = []

    def close(self, solver):      # the attempt has its final dt now
        if self.attempts and 'dt' not in self.attempts[-1]:
            self.attempts[-1]['dt'] = solver.dt


def build(case):
    from clawpack import pyclaw, riemann
    log = Log()
    nd = case['nd']
    delta = [l / n for l, n in zip(case['len'], case['cells'])]
    speeds = case['speeds']
    kept = [-1]         # number of changes of t seen by the hook
    last = [None]
    rng = expand(case['q'], [1] + case['cells'], 0.2, 1.0)

    def pick():
        # by attempt for classic (so that retries may differ), by kept step for SharpClaw
        k = kept[0] if case['kind'] == 'sharp' else len(log.attempts) - 1
        return speeds[k % len(speeds)]

    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        u = pick()[0]
        s = u * (1 + case['nl'] * 0.5 * (q_l[0] + q_r[0]))
        wave = (q_r - q_l)[:, None, :]
        amdq = np.minimum(s, 0) * (q_r - q_l)
        apdq = np.maximum(s, 0) * (q_r - q_l)
        if log.attempts:
            log.attempts[-1].setdefault('evals', []).append((q_l.shape[1], float(np.abs(s).max())))
        return wave, s[None, :], amdq, apdq

    if case['kind'] == 'fortran':
        mod = {1: riemann.advection_color_1D, 2: riemann.vc_advection_2D, 3: riemann.vc_advection_3D}[nd]
        solver = {1: pyclaw.ClawSolver1D, 2: pyclaw.ClawSolver2D, 3: pyclaw.ClawSolver3D}[nd](mod)
        naux = nd
        if nd > 1:
            solver.dimensional_split = True
    else:
        solver = (pyclaw.SharpClawSolver1D if case['kind'] == 'sharp' else pyclaw.ClawSolver1D)(rp)
        solver.kernel_language = 'Python'
        naux = 0
    solver.num_eqn = solver.num_waves = 1
    solver.fwave = False
    if case['kind'] == 'sharp':
        solver.lim_type = -1
        solver.time_integrator = case['integrator']
        if case['integrator'] == 'RK':
            solver.a, solver.b, solver.c = (np.array(RK3[k]) for k in 'abc')
        if case['split']:
            solver.dq_src = lambda solver, state, dt: dt * case['lam'] * state.q
    else:
        solver.order = 1
        if case['split']:
            solver.source_split = case['split']

            def src(solver, state, dt):
                state.q *= 1 + dt * case['lam']
            solver.step_source = src
    for d in range(nd):
        for b in (solver.bc_lower, solver.bc_upper, solver.aux_bc_lower, solver.aux_bc_upper):
            b[d] = pyclaw.BC.periodic
    domain = make_domain([0.0] * nd, case['len'], case['cells'])
    state = pyclaw.State(domain, 1, naux)
    state.q[:] = rng
    if naux:
        state.aux[:] = 0.0
    state.t = case['t0']

    def hook(solver, state):
        log.close(solver)
        if state.t != last[0]:
            kept[0] += 1
        last[0] = state.t
        log.attempts.append({'t': state.t, 'q': np.array(state.q)})
        u = pick()
        log.attempts[-1]['u'] = u
        if naux:
            for d in range(nd):
                state.aux[d] = u[d]
        if case.get('gain', 1.0) != 1.0:
            state.q *= case['gain']
        log.attempts[-1]['qs'] = np.array(state.q)
    solver.before_step = hook
    scale = case.get('scale', 1.0)
    if not case.get('implied'):
        solver.cfl_desired = case['desired'] * scale
    solver.cfl_max = case['desired'] * scale * case['ratio']
    solver.dt = solver.dt_initial = case['dt'] * min(delta)
    solver.dt_max = case['dt_max']
    return solver, pyclaw.Solution(state, domain), log, delta


def rates(a, case, delta):
    """Largest |speed|/dx at the start of the attempt, and over all its evaluations."""
    if case['kind'] == 'fortran':
        r = max(abs(u) / d for u, d in zip(a['u'], delta))
        return r, r
    q = a['qs'][0]
    s = a['u'][0] * (1 + case['nl'] * 0.5 * (q + np.roll(q, 1)))
    start = float(np.abs(s).max()) / delta[0]
    n = case['cells'][0]
    every = [start] + [v / delta[0] for cols, v in a.get('evals', []) if cols % 2 != n % 2]
    if case['split'] == 2 and case['kind'] == 'classic':
        every = every[1:] or [start]
    return start, max(every)


def check(case, ctx):
    solver, sol, log, delta = build(case)
    limit = solver.max_steps = case.get('max_steps', 10000)
    top = desired = case['desired'] * case.get('scale', 1.0)
    prev = None          # (dt, rate) of the last attempt, for the choice of the next dt
    total = 0
    cflmax = 0.0
    stopped = False
    rejected = 0
    for op in case['ops']:
        t0 = sol.t
        q0 = np.array(sol.q)
        log.close(solver)
        mark = len(log.attempts)
        if op[0] == 'set':
            if op[1] == 'dt_max':
                solver.dt_max = op[2] * case['unit']
            else:
                solver.cfl_desired = desired = op[2] * solver.cfl_max
                top = max(top, desired)
            continue
        if op[0] == 'bad':      # the desired Courant number may not exceed the maximum, at any point of a history
            if solver.cfl_desired is None:
                continue
            solver.cfl_desired = 1.5 * solver.cfl_max
            try:
                solver.evolve_to_time(sol, t0 + min(delta))
                raise Violation('variable steps were taken with cfl_desired=%r above cfl_max=%r'
                                % (solver.cfl_desired, solver.cfl_max))
            except Violation:
                raise
            except Exception:
                pass
            require(sol.t == t0 and np.array_equal(sol.q, q0) and len(log.attempts) == mark,
                    'refusing a desired Courant number changed the solution')
            solver.cfl_desired = desired
            ctx.label('refused')
            continue
        fixed = op[0] == 'fixed'
        tend = None
        if fixed:
            rate = max(max(abs(u) / d for u, d in zip(s, delta)) for s in case['speeds']) or 1.0
            solver.dt_variable = False
            solver.dt = dt_fix = op[2] * solver.cfl_max / rate / (1 + case['nl'])
            if abs(t0) > 1e6 * solver.dt * op[1]:
                continue
            tend = t0 + op[1] * solver.dt
        elif op[0] == 'to':
            tend = t0 + op[1] * (min(delta) * 10 if op[2] else case['unit'])
        elif op[0] == 'near':
            solver.dt_max = op[2] * min(delta)
            tend = t0 + op[1] * solver.dt_max * (1 + op[3])
        elif op[0] in ('here', 'limit'):
            tend = t0
            if op[0] == 'limit':
                tend = t0 + 8 * min(delta)
                solver.max_steps = op[1]
        elif op[0] == 'back':
            tend = t0 - 0.5 * case['unit']
        elif op[0] == 'one' and solver.dt_max > 1e9 * case['unit']:
            solver.dt_max = 2.0 * case['unit']
        raised = None
        try:
            solver.evolve_to_time(sol, tend)
        except Exception as e:      # judged below
            raised = e
        log.close(solver)
        lim = solver.max_steps
        solver.max_steps = limit
        tries = log.attempts[mark:]
        tail = {'t': sol.t, 'q': np.array(sol.q)}
        if op[0] in ('here', 'back'):
            require(raised is None, 'asking for a time already reached raised %r', raised)
            require(not tries and sol.t == t0 and np.array_equal(tail['q'], q0),
                    'asking for a time already reached changed the solution (%d attempts)', len(tries))
            continue
        require(tries, 'no step was attempted on the way from %r to %r (%r)', t0, tend, raised)
        if not all(np.abs(a['q']).max() < 1e6 for a in tries + [tail]) or any(a['dt'] <= 1e-15 * abs(a['t']) for a in tries):
            ctx.label('unstable')      # the scheme itself blew up; steps then shrink below rounding
            return
        kept = 0
        for i, a in enumerate(tries):
            after = tries[i + 1] if i + 1 < len(tries) else tail
            dt = a['dt']
            start, full = rates(a, case, delta)
            cfl = full * dt
            is_last = i + 1 == len(tries)
            gave_up = fixed and raised is not None and is_last
            moved = after['t'] != a['t']
            ok_max = cfl <= solver.cfl_max * (1 + 1e-9)
            bad_min = cfl > solver.cfl_max * (1 - 1e-9)
            # the length of the step
            if fixed:
                require(dt == dt_fix, 'a fixed step %r became %r', dt_fix, dt)
            else:
                if prev is None:
                    want = min(case['dt'] * min(delta), solver.dt_max)
                else:
                    r = start if case['kind'] == 'sharp' and prev[2] else prev[1]
                    want = min(solver.dt_max, desired / r) if r > 0 else solver.dt_max
                if tend is not None:
                    want = min(want, tend - a['t'])
                    # within rounding of the end the step may go there at once
                    if tend - a['t'] - want < 1e-12 * abs(a['t']) and abs(dt - (tend - a['t'])) < abs(dt - want):
                        want = tend - a['t']
                require(abs(dt - want) <= 1e-9 * want + 1e-14 * abs(a['t']),
                        'the step from t=%r was %r; the rule gives %r', a['t'], dt, want)
                require(dt <= solver.dt_max * (1 + 1e-9) + 1e-12 * abs(a['t']), 'step %r exceeds dt_max=%r', dt, solver.dt_max)
            if moved:
                kept += 1
                require(ok_max, 'a step of Courant number %.12g was kept (maximum %.12g)', cfl, solver.cfl_max)
                cflmax = max(cflmax, cfl)
                require(abs(after['t'] - a['t'] - dt) <= 1e-12 * max(abs(a['t']), abs(after['t']), dt),
                        'time moved from %r to %r with dt=%r', a['t'], after['t'], dt)
                if case['kind'] == 'classic':
                    demand_close(after['q'], classic_step(a, dt, case, delta), 'kept step from t=%r' % a['t'],
                                 rtol=1e-11, scale=max(1, np.abs(a['q']).max()))
            elif not gave_up:
                rejected += 1
                require(bad_min, 'a step of Courant number %.12g was rejected (maximum %.12g)', cfl, solver.cfl_max)
                require(np.array_equal(after['q'], a['q']), 'a rejected step changed the solution: largest change %.3g',
                        np.abs(after['q'] - a['q']).max())
            else:
                require(bad_min, 'gave up on a fixed step of Courant number %.12g (maximum %.12g): %r', cfl, solver.cfl_max, raised)
                cflmax = max(cflmax, cfl)
            prev = (dt, full, moved)
        # where it ended
        total += kept
        require(solver.status['numsteps'] == total, 'status counts %r steps, %d were kept', solver.status['numsteps'], total)
        # SharpClaw may carry the speeds of a rejected attempt over to its repetition (never above the desired number)
        slack = max(cflmax, top) if case['kind'] == 'sharp' and rejected else cflmax
        require((total == 0 and not fixed) or cflmax * (1 - 1e-9) <= solver.status['cflmax'] <= slack * (1 + 1e-9),
                'status says cflmax=%r, the largest was %r', solver.status['cflmax'], cflmax)
        if fixed:
            if raised is None:
                require(kept == op[1], '%d fixed steps instead of %d', kept, op[1])
                ulp = 1e-15 * max(abs(tend), abs(t0), dt_fix)
                for i, a in enumerate(tries + [tail]):
                    require(abs(a['t'] - (t0 + i * dt_fix)) <= ulp, 'fixed step %d at t=%r', i, a['t'])
                require(sol.t == tend, 'fixed steps ended at %r instead of %r', sol.t, tend)
            else:
                require(gave_up, 'fixed steps raised %r', raised)
                stopped = True
                break
            ctx.label('fixed')
            continue
        if op[0] == 'one':
            require(raised is None, 'a single step raised %r', raised)
            require(kept == 1, 'evolve_to_time without an end time made %d steps', kept)
            continue
        require(len(tries) <= lim or kept <= lim, 'more than max_steps=%d steps', lim)
        if raised is not None:
            require(len(tries) >= lim and sol.t < tend, 'raised %r after %d of %d steps at %r of %r', raised, len(tries), lim, sol.t, tend)
            ctx.label('maxsteps')
        else:
            require(abs(sol.t - tend) <= 4e-16 * max(abs(t0), abs(tend)), 'ended at %r instead of %r', sol.t, tend)
    ctx.label('rejected' if rejected else 'no-rejection', 'sharp-' + case['integrator'] if case['kind'] == 'sharp' else case['kind'])
    ctx.interesting(total > 0 and (rejected > 0 or len(case['ops']) > 1))


def classic_step(a, dt, case, delta):
    lam, split = case['lam'], case['split']
    q = a['qs'].copy()
    if split == 2:
        q = q * (1 + dt / 2 * lam)
    left = np.roll(q, 1, axis=1)
    s = a['u'][0] * (1 + case['nl'] * 0.5 * (q + left))[0]
    jump = (q - left)[0]
    q = q - dt / delta[0] * (np.maximum(s, 0) * jump + np.roll(np.minimum(s, 0) * jump, -1))
    if split:
        q = q * (1 + (dt / 2 if split == 2 else dt) * lam)
    return q


# --------------------------------------------------------------------------
#  many fixed steps
# --------------------------------------------------------------------------
@st.composite
def fixed_st(draw):
    return {'kind': draw(st.sampled_from(['classic', 'classic', 'sharp'])),
            'dt': draw(st.sampled_from([0.1, 0.01, 0.001, 1 / 3., 0.7, 1e-5, 0.25, 3e7])),
            'steps': draw(st.lists(st.one_of(st.integers(1, 20), st.integers(20, 400)), min_size=1, max_size=3)),
            't0': draw(st.sampled_from([0.0, 0.0, 1.0, -0.3, 7.1, 123.0])),
            'eps': draw(st.sampled_from([0.0, 0.0, 1e-15, 1e-12, 1e-9, 1e-7, 5e-6, -1e-12, -1e-9, -5e-6, 3e-5, -3e-5, 0.2, -0.2])),
            'one': draw(st.booleans()), 'u': draw(st.sampled_from([1.0, -1.0, 0.0]))}


def fixed_check(case, ctx):
    from clawpack import pyclaw
    sharp = case['kind'] == 'sharp'
    dt, u = case['dt'], case['u']
    dx = 2 * dt
    times, dts, calls = [], [], [0]

    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        d = q_r - q_l
        return d[:, None, :], np.full((1, d.shape[1]), u), min(u, 0) * d, max(u, 0) * d
    solver = (pyclaw.SharpClawSolver1D if sharp else pyclaw.ClawSolver1D)(rp)
    solver.kernel_language = 'Python'
    solver.num_eqn = solver.num_waves = 1
    if sharp:
        solver.lim_type = -1
        solver.time_integrator = 'Euler'
    else:
        solver.order = 1
    solver.all_bcs = pyclaw.BC.periodic
    solver.dt_variable = False
    solver.cfl_max, solver.cfl_desired = 1.0, 0.9
    domain = make_domain([0.0], [4 * dx], [4])
    state = pyclaw.State(domain, 1)
    state.q[:] = [[1., 2., 0.5, 4.]]
    t = state.t = case['t0'] * dt
    sol = pyclaw.Solution(state, domain)
    q = state.q.copy()

    def hook(solver, state):
        times.append(state.t)
        dts.append(solver.dt)
    solver.before_step = hook
    solver.dt = dt
    done = 0
    for n in case['steps']:
        tend = t + n * dt * (1 + case['eps'])
        del times[:], dts[:]
        try:
            solver.evolve_to_time(sol, tend)
            raised = None
        except Exception as e:
            raised = e
        require(solver.dt == dt and all(d == dt for d in dts), 'the fixed step %r became %r', dt, solver.dt)
        divides = n * abs(case['eps']) < 0.4 and abs(case['eps']) < 0.99e-5
        if not divides:
            if abs(case['eps']) > 1.01e-5 and abs(n * case['eps']) < 0.4:
                require(raised is not None, 'a step of %r was taken to divide the time from %r to %r', dt, t, tend)
                require(not times and sol.t == t and np.array_equal(sol.q, q), 'the refusal changed the solution')
                ctx.label('refused')
            return
        require(raised is None, '%d fixed steps of %r from %r to %r: %r', n, dt, t, tend, raised)
        require(len(times) == n, '%d fixed steps of %r from %r to %r instead of %d', len(times), dt, t, tend, n)
        for i, a in enumerate(times):
            require(abs(a - (t + i * dt)) <= 5e-16 * max(abs(t), abs(tend)), 'step %d starts at %r instead of %r', i, a, t + i * dt)
            jump = q - np.roll(q, 1, axis=1)
            q = q - dt / dx * (max(u, 0) * jump + np.roll(min(u, 0) * jump, -1, axis=1))
        demand_close(sol.q, q, 'after %d fixed steps' % n, rtol=1e-11, scale=4.0)
        require(sol.t == tend, '%d fixed steps of %r ended at %r instead of %r', n, dt, sol.t, tend)
        done += n
        require(solver.status['numsteps'] == done, 'status counts %r steps of %d', solver.status['numsteps'], done)
        t, q = sol.t, np.array(sol.q)
        if case['one']:
            del times[:], dts[:]
            solver.evolve_to_time(sol)
            require(len(times) == 1 and solver.dt == dt and dts == [dt] and abs(sol.t - (t + dt)) <= 5e-16 * abs(t + dt),
                    'a single fixed step from %r went to %r', t, sol.t)
            t, q, done = sol.t, np.array(sol.q), done + 1
    ctx.interesting(done > 5)


FAMILIES = [
    Family('manyfixed', fixed_st(), fixed_check, quick=400, thorough=6000, shards=1,
           rule='more than five fixed steps were made'),
    Family('classic', history_st('classic'), check, quick=3600, thorough=60000, shards=2,
           rule='at least one kept step and either a rejected step or several operations'),
    Family('fortran', history_st('fortran'), check, quick=3000, thorough=50000, shards=3,
           rule='at least one kept step and either a rejected step or several operations'),
    Family('sharp', history_st('sharp'), check, quick=3000, thorough=50000, shards=3,
           rule='at least one kept step and either a rejected step or several operations'),
]
