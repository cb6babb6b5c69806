"""C02: a classic 1D step is the wave-propagation update."""
import numpy as np

from harness import ref, zoo, claw
from harness.core import Family, Violation, require
from harness.pc import st, floats, demand_close, close, worst

ID = 'C02'
ASSUMPTIONS = ['the Riemann solvers of clawpack.riemann are trusted (the model calls the same ones)',
               'capacity values are positive; grids have at least two cells']


@st.composite
def case_st(draw):
    case = draw(claw.problem_case(1, cells=(2, 16)))
    p = zoo.BY_NAME[case['prob']]
    case['order'] = draw(st.sampled_from([1, 2, 2, 2]))
    lim = st.integers(0, 5) if p.language == 'Fortran' else \
        st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16])
    case['lims'] = draw(st.one_of(lim, st.lists(lim, min_size=p.waves, max_size=p.waves),
                                  st.lists(lim, min_size=1, max_size=1)))
    case['nu'] = draw(floats(0.05, 1.2))
    case['steps'] = draw(st.integers(1, 2))
    case['ghost'] = draw(st.sampled_from([2, 2, 3, 5]))
    return case


def lim_list(case, p):
    l = case['lims']
    if not isinstance(l, list):
        l = [l]
    return l * p.waves if len(l) == 1 else l


def model_step(case, p, params, q, aux, dx, dt):
    """Interior q -> next interior q and the Courant number."""
    g = 2
    qb = claw.ghosted(q, case['bc'], g, p.reflect)
    ab = claw.ghosted(aux, case['bc'], g) if aux is not None else None
    capa = ab[p.naux] if case['capa'] else None
    return ref.step1(qb, ab, dx, dt, ref.solver_1d(p, ab, params), case['order'], lim_list(case, p), p.fwave, capa)


def speeds(case, p, params, q, aux):
    g = 2
    qb = claw.ghosted(q, case['bc'], g, p.reflect)
    ab = claw.ghosted(aux, case['bc'], g) if aux is not None else None
    _, s, _, _ = ref.solver_1d(p, ab, params)(qb)
    return s[:, 1:]


def compare(got, want, cfl, cflw, scale, rerun, what):
    """Equality to rounding; where the model itself reacts strongly to
    perturbations of the size of rounding errors, that much is allowed.
    cflw: the Courant number, or the interval it must lie in."""
    lo, hi = cflw if isinstance(cflw, tuple) else (cflw, cflw)
    off = max(lo - cfl, cfl - hi, 0.0)
    if close(got, want, 2e-13, scale=scale) and off <= 1e-12 * max(1, hi):
        return
    slack = np.zeros_like(want)
    cslack = 0.0
    for k in range(4):
        w2, c2 = rerun(k)
        slack = np.maximum(slack, np.abs(w2 - want))
        lo2, hi2 = c2 if isinstance(c2, tuple) else (c2, c2)
        cslack = max(cslack, abs(lo2 - lo), abs(hi2 - hi))
    tol = 1e-12 * scale + 30 * slack
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        raise Violation('%s: %s' % (what, worst(got, want)))
    if off > 1e-12 * max(1, hi) + 30 * cslack:
        raise Violation('%s: Courant number %r, expected %r' % (what, cfl, cflw))


def check(case, ctx):
    p, solver, sol, params = claw.setup(case)
    solver.order = case['order']
    solver.limiters = case['lims']
    solver.dt_variable = False
    solver.cfl_max = 1e6
    state = sol.state
    ref.set_params(p, params)
    dx = case['len'][0] / case['cells'][0]
    aux = None if state.aux is None or state.num_aux == 0 else state.aux.copy()
    s = speeds(case, p, params, state.q, aux)
    smax = float(np.abs(s).max())
    kmin = float(aux[p.naux].min()) if case['capa'] else 1.0
    dt = case['nu'] * dx * kmin / smax if smax > 1e-3 else 0.1 * dx
    if p.fwave and np.any(s == 0):
        return          # the direction of a stationary f-wave is a convention
    solver.dt = dt
    t = 0.0
    for n in range(case['steps']):
        q0 = np.array(state.q)
        want, cflw = model_step(case, p, params, q0, aux, dx, dt)
        solver.evolve_to_time(sol)
        got = np.array(state.q)
        cfl = solver.cfl.get_cached_max()
        scale = max(np.abs(q0).max(), np.abs(want).max(), 1e-300)

        def rerun(k):
            rng = np.random.default_rng(k)
            return model_step(case, p, params, q0 * (1 + 1e-15 * rng.uniform(-1, 1, q0.shape))
                              + 1e-16 * scale * rng.uniform(-1, 1, q0.shape), aux, dx, dt)
        if not np.isfinite(want).all():
            break
        compare(got, want, cfl, cflw, scale, rerun, 'step %d of %s' % (n + 1, p.name))
        require(aux is None or np.array_equal(state.aux, aux), 'auxiliary data changed by a step')
        t += dt
        require(abs(sol.t - t) <= 1e-12 * max(1, t), 'time %r after %d steps of %r', sol.t, n + 1, dt)
        ctx.interesting(np.abs(want - q0).max() > 1e-8)
    ctx.label(p.name, p.language, 'order%d' % case['order'], 'capa' if case['capa'] else 'nocapa',
              'fwave' if p.fwave else 'qwave', 'bc_' + case['bc'][0])


# ---- the two kernels agree where both languages have the Riemann solver
PAIRS = [('advection_1D', 'py_advection_1D'), ('burgers_1D', 'py_burgers_1D'), ('acoustics_1D', 'py_acoustics_1D'),
         ('advection_1D', 'advection_1D_ptwise'), ('acoustics_1D', 'acoustics_1D_ptwise')]


@st.composite
def pair_st(draw):
    k = draw(st.integers(0, len(PAIRS) - 1))
    case = draw(claw.problem_case(1, pred=lambda p: p.name == PAIRS[k][0], cells=(2, 30)))
    case['pair'] = k
    case['order'] = draw(st.sampled_from([1, 2, 2]))
    lim = st.integers(0, 4)
    w = zoo.BY_NAME[case['prob']].waves
    case['lims'] = draw(st.one_of(lim, st.lists(lim, min_size=w, max_size=w)))
    case['nu'] = draw(floats(0.1, 1.0))
    case['steps'] = draw(st.integers(1, 5))
    return case


def check_pair(case, ctx):
    res = []
    for name in PAIRS[case['pair']]:
        c = dict(case, prob=name)
        p, solver, sol, params = claw.setup(c)
        solver.order = c['order']
        solver.limiters = c['lims']
        solver.cfl_max = 1e6
        solver.dt_variable = False
        amax = max(1.0, abs(params.get('u', 0)), abs(params.get('cc', 0)))
        solver.dt = c['nu'] * c['len'][0] / c['cells'][0] / amax * (0.6 if c['capa'] else 1)
        q0 = np.array(sol.state.q)
        traj = []
        for n in range(c['steps']):
            solver.evolve_to_time(sol)
            traj.append((np.array(sol.state.q), solver.cfl.get_cached_max()))
        res.append(traj)
        ctx.label('pair_' + name)
    for n, ((a, ca), (b, cb)) in enumerate(zip(*res)):
        if not (np.isfinite(a).all() and np.abs(a).max() < 1e3):
            break
        demand_close(a, b, '%s and %s after %d steps' % (PAIRS[case['pair']] + (n + 1,)), rtol=1e-10,
                     scale=max(1.0, np.abs(a).max()))
        require(abs(ca - cb) <= 1e-10 * max(1, ca), 'Courant numbers %r and %r of %r', ca, cb, PAIRS[case['pair']])
    ctx.interesting(np.abs(res[0][-1][0] - q0).max() > 1e-8)


FAMILIES = [
    Family('model', case_st(), check, quick=3000, thorough=120000, shards=6,
           rule='the step changed some cell by more than 1e-8'),
    Family('kernels', pair_st(), check_pair, quick=600, thorough=20000, shards=2,
           rule='the run changed some cell by more than 1e-8'),
]
