"""C08: SharpClaw time integrators follow their defining formulas."""
import numpy as np

from harness import ode
from harness.core import Family, require
from harness.pc import st, data_spec, expand, make_domain, demand_close

ID = 'C08'
ASSUMPTIONS = ['data are constant in space, so that the hyperbolic part vanishes and the right-hand side is the source term '
               '(the spatial operator is the subject of C09)',
               'explicit methods only, as the solver supports; c[0]=0 for user tableaux']

COEF = st.sampled_from([0.0, 0.5, -0.25, 1.0, 0.75, 0.3, 0.125])


@st.composite
def run_st(draw):
    kind = draw(st.sampled_from(['Euler', 'SSP33', 'SSP104', 'RK', 'RK', 'LMM', 'LMM', 'SSPLMMk2', 'SSPLMMk2', 'SSPLMMk3', 'SSPLMMk3']))
    case = {'kind': kind, 'kernel': draw(st.sampled_from(['Python', 'Python', 'Fortran1', 'Fortran2'])),
            'y': draw(data_spec(['rand', 'ints'])), 'f': draw(st.integers(0, 10 ** 6)),
            't0': draw(st.sampled_from([0.0, 0.0, 2.0, -1.0])),
            'calls': draw(st.lists(st.integers(1, 5), min_size=1, max_size=3))}
    if kind == 'RK':
        s = draw(st.integers(1, 5))
        case['a'] = [[draw(COEF) if j < i else 0.0 for j in range(s)] for i in range(s)]
        case['b'] = [draw(COEF) for _ in range(s)]
        case['c'] = [0.0] + [draw(COEF) for _ in range(s - 1)]
    if kind == 'LMM':
        k = draw(st.integers(2, 5))
        case['alpha'] = [draw(COEF) for _ in range(k)]
        case['beta'] = [draw(COEF) for _ in range(k)]
    if kind == 'SSPLMMk2':
        case['k'] = draw(st.integers(3, 6))
    if kind == 'SSPLMMk3':
        case['k'] = draw(st.integers(4, 5))
    # a fixed step, or speeds (in Python, per kept step) that make the step vary
    case['fixed'] = kind == 'LMM' or draw(st.sampled_from([True, False, False]))
    case['speeds'] = [draw(st.sampled_from([1.0, 1.3, 0.8, 1.1, 2.0])) for _ in range(draw(st.integers(1, 6)))]
    case['big'] = draw(st.booleans())
    case['capa'] = draw(st.sampled_from([None, None, 2.0, 0.5]))
    # SSP104 and the SSP multistep methods have Courant numbers of their own, SharpClaw otherwise wants them set
    case['default'] = not case['fixed'] and kind in ('SSP104', 'SSPLMMk2', 'SSPLMMk3') and draw(st.integers(0, 4)) == 0
    case['cut'] = draw(st.sampled_from([0.0, 0.0, 0.37]))
    return case


def rhs(seed, m):
    rng = np.random.default_rng(seed)
    A = rng.uniform(-1.5, 1.5, (m, m))
    b = rng.uniform(-2, 2, m)
    w = rng.uniform(0.5, 4, m)

    def f(t, y):
        return A @ y + b * np.cos(w * t) + 0.3 * y * y[::-1]
    return f


def build(case):
    """Solver and solution with spatially constant data, and the recorded kept values."""
    from clawpack import pyclaw, riemann
    nd = 2 if case['kernel'] == 'Fortran2' else 1
    m = {'Python': 2, 'Fortran1': 2, 'Fortran2': 3}[case['kernel']]
    f = rhs(case['f'], m)
    log = {'hist': [], 'attempts': 0, 'stage': []}

    def speed():
        k = len(log['hist']) - 1
        return case['speeds'][k % len(case['speeds'])] if case['kernel'] == 'Python' else 1.0

    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        n = q_l.shape[1]
        s = np.full((1, n), speed())
        wave = (q_r - q_l)[:, None, :]
        return wave, s, 0 * wave[:, 0], s[0] * wave[:, 0]

    if case['kernel'] == 'Python':
        solver = pyclaw.SharpClawSolver1D(rp)
        solver.kernel_language = 'Python'
        solver.lim_type = -1
        solver.num_eqn, solver.num_waves, solver.fwave = 2, 1, False
    else:
        solver = (pyclaw.SharpClawSolver1D(riemann.acoustics_1D) if nd == 1 else pyclaw.SharpClawSolver2D(riemann.acoustics_2D))
    cells = [4, 3][:nd]
    domain = make_domain([0.0] * nd, [1.0, 1.0][:nd], cells)
    for d in range(nd):
        for b in (solver.bc_lower, solver.bc_upper, solver.aux_bc_lower, solver.aux_bc_upper):
            b[d] = pyclaw.BC.periodic
    state = pyclaw.State(domain, m, 0 if case['capa'] is None else 1)
    if case['capa'] is not None:
        state.index_capa = 0
        state.aux[0] = case['capa']
    state.problem_data.update(rho=1.0, bulk=1.0, zz=1.0, cc=1.0)
    y0 = expand(case['y'], (m, 1), -1, 1)[:, 0]
    state.q[...] = y0.reshape([m] + [1] * nd)
    state.t = case['t0']
    solver.time_integrator = case['kind']

    def src(solver, state, dt):
        y = np.array(state.q).reshape(m, -1)[:, 0]
        log['stage'].append((state.t, y, dt))
        out = np.empty(state.q.shape)
        out[...] = (dt * f(state.t, y)).reshape([m] + [1] * nd)
        return out
    solver.dq_src = src
    return solver, pyclaw.Solution(state, domain), f, log, m, nd


def sspcoeff(kind, k):
    return (k - 2.) / (k - 1.) if kind[-1] == '2' else (k - 3.) / (k - 1.)


def check(case, ctx):
    solver, sol, f, log, m, nd = build(case)
    kind = case['kind']
    dx = 0.25
    base = 0.02
    capa = case['capa'] or 1.0
    if not case['default']:
        solver.cfl_max, solver.cfl_desired = 0.5, 0.45
    if kind == 'RK':
        solver.a, solver.b, solver.c = (np.array(case[k]) for k in 'abc')
    if kind == 'LMM':
        solver.alpha, solver.beta = np.array(case['alpha']), np.array(case['beta'])
        solver.lmm_steps = len(case['alpha'])
    if 'k' in case:
        solver.lmm_steps = case['k']
    fixed = case['fixed']
    solver.dt_variable = not fixed
    solver.dt = base * (1 if fixed or not case['big'] else 30)
    solver.dt_max = 1.0
    first = [True]
    pending = []

    def hook(solver, state):
        t, q = state.t, np.array(state.q).reshape(m, -1)
        require(not np.abs(q).max() < 1e4 or np.ptp(q, axis=1).max() < 1e-9 * (1 + np.abs(q).max()), 'constant data did not stay constant')
        if not log['hist'] or log['hist'][-1][0] != t:
            log['hist'].append((t, q[:, 0].copy()))
            pending.append(0)
        else:
            pending[-1] += 1
            require(np.array_equal(q[:, 0], log['hist'][-1][1], equal_nan=True), 'a repeated attempt starts from other data')
    solver.before_step = hook
    for n in case['calls']:
        if fixed:
            solver.evolve_to_time(sol, sol.t + n * solver.dt)
        elif case['cut']:
            solver.evolve_to_time(sol, sol.t + case['cut'] * n * dx)
        else:
            for _ in range(n):
                solver.evolve_to_time(sol)
    if not log['hist'] or sol.t != log['hist'][-1][0]:
        log['hist'].append((sol.t, np.array(sol.q).reshape(m, -1)[:, 0]))
    require(0 < solver.cfl_desired <= solver.cfl_max, 'Courant numbers %r and %r', solver.cfl_desired, solver.cfl_max)
    hist = log['hist']
    rejections = sum(pending)
    if not all(np.abs(y).max() < 1e4 for _, y in hist):
        ctx.label('unstable')
        return
    ts = [t for t, _ in hist]
    ys = [y for _, y in hist]
    fs = [f(t, y) for t, y in hist]
    dts = [b - a for a, b in zip(ts, ts[1:])]
    if 'LMM' in kind:
        k = len(case['alpha']) if kind == 'LMM' else case['k']
    for i, dt in enumerate(dts):
        t, y = hist[i]
        if 'LMM' in kind and i + 1 >= k:
            if kind == 'LMM':
                want = ode.lmm(case['alpha'], case['beta'], ys[i - k + 1:i + 1], fs[i - k + 1:i + 1], dt)
            else:
                want = (ode.ssplmm2 if kind[-1] == '2' else ode.ssplmm3)(
                    ys[i - k + 1:i + 1], fs[i - k + 1:i + 1], dts[i - k + 1:i], dt)
            ctx.label(kind + '-multistep')
            if not fixed:
                # the step is as long as the SSP condition allows: H mu/(H + (p-1) mu)
                p = int(kind[-1])
                speeds = case['speeds'] if case['kernel'] == 'Python' else [1.0]
                mu = min(solver.cfl_max / sspcoeff(kind, k) * capa * dx / speeds[j % len(speeds)] for j in range(i - k + 1, i + 1))
                H = sum(dts[i - k + 1:i])
                best = min(H * mu / (H + (p - 1) * mu), solver.dt_max)
                require(dt <= best * (1 + 1e-9), 'step %r is longer than the SSP condition allows (%r)', dt, best)
                if not case['cut']:
                    require(dt >= best * (1 - 1e-9), 'step %r is shorter than the SSP condition allows (%r)', dt, best)
        elif 'LMM' in kind:
            want = (ode.ssp104 if kind == 'LMM' else ode.ssp22)(f, t, y, dt)[0]
            if not fixed:
                # the Runge-Kutta method for the first values has a larger SSP coefficient (one)
                speeds = case['speeds'] if case['kernel'] == 'Python' else [1.0]
                c = dt * speeds[i % len(speeds)] / (capa * dx) * sspcoeff(kind, k)
                require(c <= solver.cfl_max * (1 + 1e-9), 'starting step with %r of the allowed Courant number', c / solver.cfl_max)
                if i > 0 and not case['cut']:
                    aim = solver.cfl_desired
                    require(dt == solver.dt_max or abs(c - aim) <= 1e-9 * aim,
                            'starting step %d has %r of the Courant number wanted', i, c / aim)
        elif kind == 'RK':
            want = ode.rk(case['a'], case['b'], case['c'])(f, t, y, dt)[0]
        else:
            want = ode.FIXED[kind](f, t, y, dt)[0]
        scale = 1 + max(np.abs(v).max() for v in ys[:i + 2])
        demand_close(ys[i + 1], want, '%s step %d of %d from t=%r, dt=%r' % (kind, i + 1, len(dts), t, dt), rtol=1e-10, scale=scale)
    ctx.interesting(len(dts) > 1)
    ctx.label(kind, case['kernel'], 'fixed' if fixed else 'variable', 'rejections' if rejections else 'none-rejected')


# ------------------------------------------------------------ SSPLMMk3 with its conditions on the steps checked
@st.composite
def cond_st(draw):
    return {'rate': draw(st.floats(-0.5, 0.5)), 'steps': draw(st.integers(4, 5)), 'n': draw(st.integers(8, 30)), 'q0': draw(st.floats(0.5, 2.0)),
            'T': draw(st.floats(0.3, 1.5)), 'dt': draw(st.floats(1e-4, 0.03)), 'pieces': draw(st.integers(1, 3))}


def cond_check(case, ctx):
    """Uniform data with growth or decay, so that the speed changes: steps that violate the conditions are discarded, and the
    steps that are kept still form a third-order method."""
    from clawpack import pyclaw, riemann

    def run(cond):
        solver = pyclaw.SharpClawSolver1D(riemann.burgers_1D)
        solver.time_integrator, solver.lmm_steps, solver.check_lmm_cond = 'SSPLMMk3', case['steps'], cond
        solver.all_bcs = pyclaw.BC.periodic
        solver.dq_src = lambda solver, state, dt: case['rate'] * dt * state.q
        domain = pyclaw.Domain([0.0], [1.0], [case['n']])
        state = pyclaw.State(domain, 1)
        state.problem_data['efix'] = False
        state.q[0] = case['q0']
        sol = pyclaw.Solution(state, domain)
        solver.dt, solver.max_steps = case['dt'] / case['q0'], 5000
        longest, dts = 0.0, []
        for k in range(case['pieces']):
            t0 = sol.t
            status = solver.evolve_to_time(sol, case['T'] * (k + 1) / case['pieces'])
            longest, dts = max(longest, status['dtmax']), dts + [(status['numsteps'], t0)]
        return solver, sol, longest, dts
    try:
        solver, sol, longest, dts = run(True)
    except Exception as e:
        if 'Maximum number of timesteps' not in str(e):
            raise
        ctx.label('raised')
        ctx.interesting(False)
        return
    want = case['q0'] * np.exp(case['rate'] * case['T'])
    err = np.abs(sol.q / want - 1).max()
    z = abs(case['rate']) * longest
    end = case['T'] * case['pieces'] / case['pieces']
    require(sol.t == end, 'the run ended at %r instead of %r', sol.t, end)
    require(err <= 0.4 * z ** 3 + 1e-11, 'relative error %r with steps up to %r, rate %r: not of third order', err, longest, case['rate'])
    ctx.label('checked')
    ctx.interesting(abs(case['rate']) > 0.01)


FAMILIES = [
    Family('steps', run_st(), check, quick=7000, thorough=100000, shards=6,
           rule='at least two kept steps'),
    Family('cond', cond_st(), cond_check, quick=200, thorough=20000, shards=2, rule='the speed changes during the run'),
]
