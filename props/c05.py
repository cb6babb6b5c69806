"""C05: ghost cells hold exactly what the boundary conditions say."""
import numpy as np

from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, make_domain

ID = 'C05'
ASSUMPTIONS = ['grids have at least as many cells as ghost layers in directions with periodic or wall conditions',
               'ghost cells are observed in the solver\'s ghosted arrays and in the arrays handed to user functions']

BCN = ['custom', 'extrap', 'periodic', 'wall']


def side_pair():
    # periodic comes in pairs (a periodic side against something else has no meaning)
    other = st.sampled_from(['custom', 'extrap', 'wall'])
    return st.one_of(st.just(['periodic', 'periodic']), st.tuples(other, other).map(list))


@st.composite
def case_st(draw):
    nd = draw(st.integers(1, 3))
    solver = draw(st.sampled_from(['classic', 'sharp']))
    order = draw(st.sampled_from([5, 5, 7, 9, 11])) if solver == 'sharp' else None
    g = draw(st.sampled_from([2, 2, 3, 4])) if order is None else (order + 1) // 2
    cells = [draw(st.integers(g, g + 4)) for _ in range(nd)]
    num_eqn = draw(st.integers(1, 4))
    num_aux = draw(st.integers(0, 3))
    return {
        'nd': nd, 'solver': solver, 'order': order, 'ghost': g, 'cells': cells, 'num_eqn': num_eqn, 'num_aux': num_aux,
        'q': draw(data_spec(['rand', 'ints', 'rand'])), 'aux': draw(data_spec(['rand'])),
        'bc': [draw(side_pair()) for _ in range(nd)],
        'aux_bc': [draw(side_pair()) for _ in range(nd)],
        'reflect': [draw(st.integers(0, num_eqn - 1)) for _ in range(nd)],
        'old_sig': draw(st.integers(0, 3)),
        't': draw(st.sampled_from([0.0, 1.5, -2.0])),
        'again': draw(st.booleans()),
        'bc2': [draw(side_pair()) for _ in range(nd)] if draw(st.booleans()) else None,
    }


def model(interior, g, bcs, reflect, writer):
    """The ghosted array, one dimension after the other, lower side first."""
    nd = interior.ndim - 1
    full = np.full((interior.shape[0],) + tuple(n + 2 * g for n in interior.shape[1:]), np.nan)
    full[(slice(None),) + (slice(g, -g),) * nd] = interior
    for d in range(nd):
        a = np.moveaxis(full, d + 1, 1)
        n = interior.shape[d + 1]
        for upper in (0, 1):
            kind = bcs[d][upper]
            for k in range(g):
                ghost = g - 1 - k if not upper else g + n + k      # k-th layer outwards
                if kind == 'extrap':
                    src = g if not upper else g + n - 1
                elif kind == 'periodic':
                    src = ghost + n if not upper else ghost - n
                elif kind == 'wall':
                    src = g + k if not upper else g + n - 1 - k
                else:
                    a[:, ghost] = writer(d, upper, k)
                    continue
                a[:, ghost] = a[:, src]
                if kind == 'wall' and reflect is not None:
                    a[reflect[d], ghost] = -a[reflect[d], src]
    return full


def wval(name, t):
    base = 100.0 if name == 'q' else 1000.0

    def w(d, upper, k):
        return base + 10 * d + 5 * upper + k + t
    return w


def make_user(name, upper, log, old_sig):
    def write(state, dim, t, array, num_ghost):
        d = [x.name for x in state.grid.dimensions].index(dim.name)
        log.append((name, upper, d, t, id(state), num_ghost, tuple(array.shape)))
        a = np.moveaxis(array, d + 1, 1)
        for k in range(num_ghost):
            idx = num_ghost - 1 - k if not upper else a.shape[1] - num_ghost + k
            a[:, idx] = wval(name, t)(d, upper, k)
    if old_sig == 1:
        def fun(state, dim, t, array, num_ghost):
            write(state, dim, t, array, num_ghost)
    elif old_sig == 3:
        def fun(s, d, time, qbc, g):
            write(s, d, time, qbc, g)
    elif old_sig == 2:
        def fun(current, dimension, time, q, aux, ng):
            write(current, dimension, time, q if name == 'q' else aux, ng)
    else:
        def fun(state, dim, t, qbc, auxbc, num_ghost):
            write(state, dim, t, qbc if name == 'q' else auxbc, num_ghost)
    return fun


def build(case):
    from clawpack import pyclaw, riemann
    nd = case['nd']
    rp = {1: riemann.advection_1D, 2: riemann.advection_2D, 3: riemann.vc_advection_3D}[nd]
    cls = getattr(pyclaw, ('Claw' if case['solver'] == 'classic' else 'SharpClaw') + 'Solver%dD' % nd)
    solver = cls(rp)
    solver.num_eqn = case['num_eqn']
    solver.num_waves = 1
    solver.fwave = False
    if case['solver'] == 'sharp':
        solver.weno_order = case['order']
    elif case.get('ghost'):
        solver.num_ghost = case['ghost']
    solver.reflect_index = list(case['reflect'])
    BC = pyclaw.BC
    for d in range(nd):
        solver.bc_lower[d] = getattr(BC, case['bc'][d][0])
        solver.bc_upper[d] = getattr(BC, case['bc'][d][1])
        solver.aux_bc_lower[d] = getattr(BC, case['aux_bc'][d][0])
        solver.aux_bc_upper[d] = getattr(BC, case['aux_bc'][d][1])
    domain = make_domain([0.0] * nd, [1.0] * nd, case['cells'])
    state = pyclaw.State(domain, case['num_eqn'], case['num_aux'])
    state.t = case['t']
    state.problem_data['u'] = 1.0
    state.problem_data['v'] = 1.0
    state.q[...] = expand(case['q'], state.q.shape, -3, 3)
    if case['num_aux']:
        state.aux[...] = expand(case['aux'], state.aux.shape, 1, 2)
    return solver, state, domain


def verify(case, solver, state, t, what, q=None, aux=None):
    g = solver.num_ghost
    q = state.q if q is None else q
    want = model(q, g, case['bc'], case['reflect'], wval('q', t))
    got = np.array(solver.qbc)
    if not np.array_equal(got, want):
        i = tuple(int(k) for k in np.argwhere(~(got == want))[0]) if got.shape == want.shape else None
        raise Violation('%s: ghost cells of q differ, first at %s: %s instead of %s (shapes %s, %s)' % (
            what, i, got[i] if i else None, want[i] if i else None, got.shape, want.shape))
    if case['num_aux']:
        aux = state.aux if aux is None else aux
        want = model(aux, g, case['aux_bc'], None, wval('aux', t))
        got = np.array(solver.auxbc)
        if not np.array_equal(got, want):
            i = tuple(int(k) for k in np.argwhere(~(got == want))[0]) if got.shape == want.shape else None
            raise Violation('%s: ghost cells of aux differ, first at %s: %s instead of %s' % (
                what, i, got[i] if i else None, want[i] if i else None))


def check(case, ctx):
    from clawpack import pyclaw
    solver, state, domain = build(case)
    log = []
    flat = [s for p in case['bc'] for s in p]
    aflat = [s for p in case['aux_bc'] for s in p]
    old = case['old_sig']
    if any(p[0] == 'custom' for p in case['bc'] + (case.get('bc2') or [])):
        solver.user_bc_lower = make_user('q', 0, log, old)
    if any(p[1] == 'custom' for p in case['bc'] + (case.get('bc2') or [])):
        solver.user_bc_upper = make_user('q', 1, log, old)
    if any(p[0] == 'custom' for p in case['aux_bc']):
        solver.user_aux_bc_lower = make_user('aux', 0, log, old)
    if any(p[1] == 'custom' for p in case['aux_bc']):
        solver.user_aux_bc_upper = make_user('aux', 1, log, old)
    if case['solver'] == 'classic':
        solver.cfl_max, solver.cfl_desired = 1.0, 0.9
    sol = pyclaw.Solution(state, domain)
    q0 = state.q.copy()
    aux0 = state.aux.copy() if case['num_aux'] else None
    g = case['ghost']
    shape = tuple(n + 2 * g for n in case['cells'])

    def calls(log):
        exp = []   # of the current conditions
        for d in range(case['nd']):
            for up in (0, 1):
                if case['num_aux'] and case['aux_bc'][d][up] == 'custom':
                    exp.append(('aux', up, d))
                if case['bc'][d][up] == 'custom':
                    exp.append(('q', up, d))
        for name in ('q', 'aux'):
            mine = [c[:3] for c in log if c[0] == name]
            want = [c for c in exp if c[0] == name]
            require(mine == want, 'user boundary functions called %s, expected %s', mine, want)
        for c in log:
            require(c[3] == state.t, 'user function got time %s at time %s', c[3], state.t)
            require(c[4] == id(state), 'user function got another state')
            require(c[5] == g, 'user function got ghost width %s, expected %s', c[5], g)
            comp = case['num_eqn'] if c[0] == 'q' else case['num_aux']
            require(c[6] == (comp,) + shape, 'user function got array of shape %s', c[6])

    solver.setup(sol)
    require(solver.num_ghost == g, 'ghost width %s', solver.num_ghost)
    verify(case, solver, state, state.t, 'after setup')
    calls(log)
    require(np.array_equal(state.q, q0), 'setup changed the solution')
    require(aux0 is None or np.array_equal(state.aux, aux0), 'setup changed aux')
    if case['again'] and case['solver'] == 'classic' and case['num_eqn'] == 1 and (case['nd'] == 1 or case['num_aux'] >= 3 or case['nd'] == 2):
        # a step of length zero: ghost cells must be those of the new data
        for r in range(2):
            state.q[...] = expand({'kind': 'rand', 'seed': case['q']['seed'] + 7 + r}, state.q.shape, -3, 3)
            q1 = state.q.copy()
            state.t = case['t'] + 1.0 + r
            solver.dt = 0.0
            solver.dt_variable = False
            solver.setup(sol) if r else None
            if r and case.get('bc2'):
                # other conditions from now on
                case = dict(case, bc=case['bc2'])
                for d in range(case['nd']):
                    solver.bc_lower[d], solver.bc_upper[d] = [getattr(pyclaw.BC, b) for b in case['bc'][d]]
                ctx.label('changed')
            del log[:]
            solver.step_hyperbolic(sol)
            calls(log)
            require(np.array_equal(state.q, q1), 'a step of length zero changed the solution')
            verify(case, solver, state, state.t, 'before a step')
            require(aux0 is None or np.array_equal(state.aux, aux0), 'a step changed aux')
        ctx.label('step')
    for k in set(flat):
        ctx.label('q_' + k)
    if case['num_aux']:
        for k in set(aflat):
            ctx.label('aux_' + k)
    ctx.label('%dD_%s' % (case['nd'], case['solver']))
    ctx.interesting(len(set(flat)) > 1 or case['nd'] > 1)


# ---- every step and stage of a run, seen by the Riemann solver (Python kernels) ----
run_st = st.fixed_dictionaries({
    'solver': st.sampled_from(['classic', 'Euler', 'SSP33', 'SSP104', 'RK']),
    'cells': st.integers(2, 9), 'bc': side_pair(), 'aux_bc': side_pair(), 'num_aux': st.integers(0, 2),
    'reflect': st.integers(0, 1), 'q': data_spec(), 'steps': st.integers(1, 6), 'moving': st.booleans(), 'old_sig': st.integers(0, 3),
    'cfl': st.sampled_from([0.1, 0.5])})


def check_run(case, ctx):
    from clawpack import pyclaw
    seen = []

    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        q_l = np.asarray(q_l)
        q_r = np.asarray(q_r)
        seen.append((q_l.copy(), q_r.copy(), None if aux_l is None else np.array(aux_l), None if aux_r is None else np.array(aux_r)))
        n = q_r.shape[1]
        wave = np.zeros((2, 2, n))
        s = np.zeros((2, n))
        c = 1.0
        d = q_r - q_l
        a1 = 0.5 * (-d[0] + d[1])
        a2 = 0.5 * (d[0] + d[1])
        wave[0, 0], wave[1, 0] = -a1, a1
        wave[0, 1], wave[1, 1] = a2, a2
        s[0], s[1] = -c, c
        return wave, s, -c * wave[:, 0], c * wave[:, 1]
    solver = (pyclaw.ClawSolver1D if case['solver'] == 'classic' else pyclaw.SharpClawSolver1D)(rp)
    solver.kernel_language = 'Python'
    solver.num_eqn, solver.num_waves, solver.fwave = 2, 2, False
    if case['solver'] != 'classic':
        solver.time_integrator = case['solver']
        solver.lim_type = -1
        solver.num_ghost = 2
        if case['solver'] == 'RK':
            solver.a = np.array([[0., 0.], [1., 0.]])
            solver.b = np.array([.5, .5])
            solver.c = np.array([0., 1.])
    solver.cfl_max, solver.cfl_desired = 1.0, 0.9
    BC = pyclaw.BC
    solver.bc_lower[0], solver.bc_upper[0] = [getattr(BC, b) for b in case['bc']]
    solver.aux_bc_lower[0], solver.aux_bc_upper[0] = [getattr(BC, b) for b in case['aux_bc']]
    solver.reflect_index = [case['reflect']]
    log = []
    for name, key in (('q', 'bc'), ('aux', 'aux_bc')):
        for up in (0, 1):
            if case[key][up] == 'custom':
                setattr(solver, 'user_%sbc_%s' % ('' if name == 'q' else 'aux_', 'upper' if up else 'lower'),
                        make_user(name, up, log, case['old_sig']))
    domain = make_domain([0.0], [1.0], [case['cells']])
    state = pyclaw.State(domain, 2, case['num_aux'])
    state.q[...] = expand(case['q'], state.q.shape, -1, 1)
    if case['num_aux']:
        state.aux[...] = expand({'kind': 'rand', 'seed': case['q']['seed'] + 1}, state.aux.shape, 1, 2)
    sol = pyclaw.Solution(state, domain)
    solver.dt_variable = False
    dt = case['cfl'] / case['cells']
    solver.dt = dt
    auxes = []
    moving = case['moving'] and case['num_aux'] and case['solver'] == 'classic'

    def before(solver, state):
        if moving:
            state.aux[...] += 1.0
        auxes.append(np.array(state.aux) if case['num_aux'] else None)
    solver.before_step = before
    for _ in range(case['steps']):
        solver.dt = dt
        solver.evolve_to_time(sol, sol.t + dt)
    g = solver.num_ghost
    nrhs = {'classic': 1, 'Euler': 1, 'SSP33': 3, 'SSP104': 10, 'RK': 2}[case['solver']]
    calls_per = 1 if case['solver'] == 'classic' else 2   # SharpClaw also asks for the fluctuation inside each cell
    require(len(seen) == nrhs * calls_per * case['steps'], 'the Riemann solver was called %d times, expected %d',
            len(seen), nrhs * calls_per * case['steps'])
    times = [c[3] for c in log if c[0] == 'q']
    nper = sum(b == 'custom' for b in case['bc'])
    for k in range(0, len(seen), calls_per):
        q_l, q_r, a_l, a_r = seen[k]
        full = np.concatenate([q_l, q_r[:, -1:]], axis=1)
        require(full.shape == (2, case['cells'] + 2 * g), 'ghosted array of shape %s', full.shape)
        require(np.array_equal(full[:, 1:], q_r), 'left and right states are not neighbours')
        stage = k // calls_per
        t = times[(stage + 1) * nper] if nper else 0.0       # the first group belongs to setup
        want = model(full[:, g:-g], g, [case['bc']], [case['reflect']], wval('q', t))
        if not np.array_equal(full, want):
            raise Violation('stage %d: ghost cells %s instead of %s' % (stage, full.tolist(), want.tolist()))
        if case['num_aux']:
            afull = np.concatenate([a_l, a_r[:, -1:]], axis=1)
            at = [c[3] for c in log if c[0] == 'aux']
            na = sum(b == 'custom' for b in case['aux_bc'])
            want = model(auxes[stage // nrhs], g, [case['aux_bc']], None, wval('aux', at[(stage + 1) * na] if na else 0.0))
            require(np.array_equal(afull, want), 'stage %d: aux ghost cells %s instead of %s', stage, afull.tolist(), want.tolist())
        else:
            require(a_l is None or a_l.size == 0, 'aux data without aux')
    if nper:
        c = {'classic': [0], 'Euler': [0], 'SSP33': [0, 1, .5], 'RK': [0, 1],
             'SSP104': [0, 1 / 6, 2 / 6, 3 / 6, 4 / 6, 2 / 6, 3 / 6, 4 / 6, 5 / 6, 1]}[case['solver']]
        want_t = [0.0] + [n * dt + ci * dt for n in range(case['steps']) for ci in c]
        got_t = times[::nper]
        require(len(got_t) == len(want_t) and np.allclose(got_t, want_t, rtol=0, atol=1e-12),
                'user boundary functions called at times %s, expected %s', got_t, want_t)
    ctx.label(case['solver'], *case['bc'])
    ctx.interesting(case['steps'] * nrhs > 1)


# ---- every step and stage of a run in 1-3D with the compiled kernels, seen by the user function ----
@st.composite
def nd_st(draw):
    nd = draw(st.integers(1, 3))
    bc = [draw(side_pair()) for _ in range(nd)]
    bc[-1] = [draw(st.sampled_from(['custom', 'extrap', 'wall'])), 'custom']
    num_aux = draw(st.integers(0, 1)) if nd < 3 else 4
    return {'nd': nd, 'solver': draw(st.sampled_from(['classic', 'sharp'])), 'bc': bc,
            'aux_bc': [draw(side_pair().filter(lambda p: 'custom' not in p)) for _ in range(nd)],
            'cells': [draw(st.integers(3, 6)) for _ in range(nd)], 'num_aux': num_aux,
            'split': draw(st.booleans()), 'q': draw(data_spec()), 'steps': draw(st.integers(1, 6)), 'moving': draw(st.booleans())}


def check_nd(case, ctx):
    from clawpack import pyclaw, riemann
    nd = case['nd']
    sharp = case['solver'] == 'sharp'
    cls = getattr(pyclaw, ('SharpClaw' if sharp else 'Claw') + 'Solver%dD' % nd)
    rp = {1: riemann.acoustics_1D, 2: riemann.acoustics_2D, 3: riemann.vc_acoustics_3D}[nd]
    solver = cls(rp)
    if not sharp and nd > 1:
        solver.dimensional_split = case['split']
    neq = nd + 1
    case = dict(case, num_eqn=neq, reflect=list(range(1, nd + 1)))
    BC = pyclaw.BC
    for d in range(nd):
        solver.bc_lower[d], solver.bc_upper[d] = [getattr(BC, b) for b in case['bc'][d]]
        solver.aux_bc_lower[d], solver.aux_bc_upper[d] = [getattr(BC, b) for b in case['aux_bc'][d]]
    domain = make_domain([0.0] * nd, [1.0] * nd, case['cells'])
    state = pyclaw.State(domain, neq, case['num_aux'])
    for k, v in dict(rho=1.0, bulk=1.0, cc=1.0, zz=1.0).items():
        state.problem_data[k] = v
    state.q[...] = expand(case['q'], state.q.shape, -1, 1)
    if case['num_aux']:
        state.aux[...] = expand({'kind': 'rand', 'seed': case['q']['seed'] + 1}, state.aux.shape, 1, 2)
    aux0 = state.aux.copy() if case['num_aux'] else None
    sol = pyclaw.Solution(state, domain)
    log = []
    count = [0]
    lower = make_user('q', 0, log, False)
    upper = make_user('q', 1, log, False)
    g = 3 if sharp else 2

    def last(st_, dim, t, qbc, auxbc, num_ghost):
        upper(st_, dim, t, qbc, auxbc, num_ghost)
        if dim.name != state.grid.dimensions[-1].name:
            return
        count[0] += 1
        sl = (slice(None),) + (slice(g, -g),) * nd
        want = model(np.array(qbc[sl]), g, case['bc'], case['reflect'], wval('q', t))
        require(np.array_equal(qbc, want), 'ghost cells of q wrong at boundary call %d (t=%s)', count[0], t)
        require(np.array_equal(qbc[sl], st_.q), 'interior of the ghosted array is not the state of the stage')
        if case['num_aux']:
            if moving and count[0] > 1:
                require(np.array_equal(auxbc[sl], state.aux), 'interior of the ghosted aux is not the aux of the step')
            want = model(aux0 + (count[0] - 1 if moving else 0), g, case['aux_bc'], None, None)
            require(np.array_equal(auxbc, want), 'ghost cells of aux wrong at boundary call %d', count[0])
    moving = case['moving'] and case['num_aux'] and not sharp

    def before(solver, state):
        state.aux[...] += 1.0
    if moving:
        aux0 = np.round(aux0 * 1024) / 1024
        state.aux[...] = aux0
        solver.before_step = before
    solver.user_bc_lower = lower
    solver.user_bc_upper = last
    solver.cfl_max, solver.cfl_desired = 1.0, 0.9
    solver.dt_variable = False
    dt = 0.05 / max(case['cells']) / nd
    solver.dt = dt
    solver.evolve_to_time(sol, dt * case['steps'])
    exp = 1 + case['steps'] * (10 if sharp else 1)
    require(count[0] == exp, 'boundary conditions applied %d times, expected %d', count[0], exp)
    require(aux0 is None or moving or np.array_equal(aux0, state.aux), 'the run changed aux')
    ctx.label('%dD_%s' % (nd, case['solver']))
    ctx.interesting()


# ---- a missing condition is refused ----
missing_st = st.fixed_dictionaries({
    'nd': st.integers(1, 3), 'dim': st.integers(0, 2), 'upper': st.booleans(), 'aux': st.booleans(),
    'solver': st.sampled_from(['classic', 'sharp']), 'bad': st.sampled_from(['none', 'unknown'])})


def check_missing(case, ctx):
    from clawpack import pyclaw
    full = dict(case, order=None if case['solver'] == 'classic' else 5, cells=[5] * case['nd'], num_eqn=1, num_aux=1,
                q={'kind': 'rand', 'seed': 1}, aux={'kind': 'rand', 'seed': 2}, bc=[['extrap', 'extrap']] * case['nd'],
                aux_bc=[['extrap', 'extrap']] * case['nd'], reflect=[0] * case['nd'], t=0.0)
    solver, state, domain = build(full)
    arr = getattr(solver, ('aux_' if case['aux'] else '') + 'bc_' + ('upper' if case['upper'] else 'lower'))
    arr[case['dim'] % case['nd']] = None if case['bad'] == 'none' else 17
    sol = pyclaw.Solution(state, domain)
    try:
        solver.dt = 1e-3
        solver.evolve_to_time(sol, 1e-3)
    except Exception:
        pass
    else:
        raise Violation('a run with a missing or unknown boundary condition was carried out')
    # and the same configuration with the condition is accepted
    del solver, arr
    solver, state, domain = build(full)
    solver.setup(pyclaw.Solution(state, domain))
    ctx.interesting()


FAMILIES = [
    Family('fill', case_st(), check, quick=3000, thorough=40000, shards=8,
           rule='random mixture of conditions on every side, 1-3D, any ghost width; non-trivial = two different conditions or more than one dimension'),
    Family('stages1d', run_st, check_run, quick=1500, thorough=15000, shards=4,
           rule='1D runs with Python kernels, ghosted arrays recorded at every Riemann solve; non-trivial = more than one stage'),
    Family('stagesnd', nd_st(), check_nd, quick=1000, thorough=10000, shards=4,
           rule='1-3D runs with compiled kernels, ghosted arrays recorded at every boundary call'),
    Family('missing', missing_st, check_missing, quick=60, thorough=500, shards=1, rule='one side has no or an unknown condition'),
]
