"""C21: solutions respect the symmetries of the equations."""
import numpy as np

from harness import runs, zoo
from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, worst

ID = 'C21'
ASSUMPTIONS = ['the Riemann solvers of clawpack.riemann that are used have the symmetry in question themselves',
               'runs are compared up to the effect of rounding, which is measured by repeating the run with data changed in the last place']

PARAMS = ['SSP33', 'SSP104', 'Euler', 'SSPLMMk2', 'SSPLMMk3']


# --------------------------------------------------------------------------
#  one run of a case on given arrays
# --------------------------------------------------------------------------
def arrays(case):
    prob, solver, sol, params = runs.build(case)
    aux = None if sol.state.num_aux == 0 else np.array(sol.state.aux)
    return np.array(sol.state.q), aux


def run(case, q, aux, params=None, dt=None, t0=0.0, lower=None):
    """Returns the final q and (t, number of steps, largest Courant number)."""
    from clawpack import pyclaw
    from harness.pc import make_domain
    prob, solver, sol, p0 = runs.build(case)
    state = sol.state
    if lower is not None:
        domain = make_domain(lower, [lower[k] + case['len'][k] for k in range(prob.nd)], case['cells'])
        s2 = pyclaw.State(domain, state.num_eqn, state.num_aux)
        s2.problem_data.update(state.problem_data)
        s2.index_capa = state.index_capa
        sol = pyclaw.Solution(s2, domain)
        state = s2
    if params:
        state.problem_data.update(params)
    state.q[...] = q
    if aux is not None:
        state.aux[...] = aux
    sol.t = t0
    if case['var']:
        solver.dt_variable = True
        solver.cfl_max, solver.cfl_desired = 0.5, 0.45
        solver.dt = 0.7 * dt
        status = solver.evolve_to_time(sol, t0 + case['steps'] * dt)
    else:
        solver.dt = dt
        for _ in range(case['steps']):
            status = solver.evolve_to_time(sol)
    require(np.isfinite(state.q).all() or not np.isfinite(q).all(), 'a run from finite data ended with NaN or Inf')
    return np.array(state.q), (sol.t, status['numsteps'], status['cflmax'])


def same(case, got, want, again, what):
    """got and want agree up to rounding; again(k) repeats `want` with data changed in the last place."""
    scale = max(np.abs(want).max(), 1e-300)
    diff = np.abs(got - want)
    if np.all(diff <= 1e-12 * scale):
        return
    spread = 1e-12 * scale
    for k in range(6):
        spread = max(spread, 30 * np.abs(again(k) - want).max())
        if np.all(diff <= spread):
            return
    raise Violation('%s of %s: %s (rounding explains %.2g)' % (what, case['prob'], worst(got, want), spread))


def jiggle(q, k, rel=4e-16):
    rng = np.random.default_rng(k)
    return q * (1 + rel * rng.choice([-1.0, 1.0], q.shape)) + 1e-17 * np.abs(q).max() * rng.uniform(-1, 1, q.shape)


def base_st(draw, nd=None, pred=lambda p: True, **kw):
    case = draw(runs.run_st(nd=nd, pred=pred, integrators=PARAMS, max_steps=4, **kw))
    # a list of different limiters treats the waves differently, which no symmetry has to respect
    case['var'] = draw(st.booleans())
    return case


def steady(p):
    return p.name != 'kpp_2D'       # its speeds are quotients of differences, mere rounding where the data are constant


def one_limiter(case):
    if isinstance(case['opt'].get('lims'), list):
        case['opt']['lims'] = case['opt']['lims'][0]
    return case


# --------------------------------------------------------------------------
#  shift of periodic data
# --------------------------------------------------------------------------
@st.composite
def shift_st(draw):
    case = base_st(draw, pred=steady, bc=['periodic'])
    case['shift'] = [draw(st.integers(0, n - 1)) for n in case['cells']]
    if case['opt'].get('mode') == 'split':
        case['var'] = False     # the Courant number of a split step counts ghost cells between its sweeps, which a shift changes
    return case


def moved(case):
    return lambda a: np.roll(a, case['shift'], axis=tuple(range(1, a.ndim)))


def shift_check(case, ctx):
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    mv = moved(case)
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(case, mv(q), None if aux is None else mv(aux), dt=dt)
    same(case, got, mv(want), lambda k: mv(run(case, jiggle(q, k), aux, dt=dt)[0]), 'shift by %s' % case['shift'])
    require(info[1] == info2[1], 'the shifted run takes %d steps instead of %d', info2[1], info[1])
    # a split step looks at the ghost cells between its sweeps, where they are of no importance
    require(case['opt'].get('mode') == 'split' or abs(info[2] - info2[2]) <= 1e-9 * info[2], 'Courant number %r of the shifted run instead of %r', info2[2], info[2])
    ctx.interesting(any(case['shift']) and np.ptp(q) > 0)
    ctx.label(*runs.labels(case), 'variable' if case['var'] else 'fixed')


# --------------------------------------------------------------------------
#  scaling of space and time, and translation of the domain: exact for powers of two
# --------------------------------------------------------------------------
@st.composite
def scale_st(draw):
    case = base_st(draw)
    case['len'] = [draw(st.sampled_from([1.0, 0.5, 2.0, 3.75])) for _ in case['cells']]
    case['e'] = draw(st.sampled_from([-20, -9, -1, 1, 3, 10, 30]))
    case['lower'] = [draw(st.sampled_from([0.0, -1.0, 3.0, -64.0, 0.25])) for _ in case['cells']]
    return case


def scale_check(case, ctx):
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    want, info = run(case, q, aux, dt=dt)
    f = 2.0 ** case['e']
    c2 = dict(case, len=[v * f for v in case['len']])
    got, info2 = run(c2, q, aux, dt=dt * f)
    if not np.array_equal(got, want):
        raise Violation('%s: the run with lengths and times multiplied by %r differs: %s' % (case['prob'], f, worst(got, want)))
    require(info2[0] == info[0] * f, 'end time %r instead of %r * %r', info2[0], info[0], f)
    require(info2[1:] == info[1:], 'steps and Courant number %r instead of %r', info2[1:], info[1:])
    got, info2 = run(case, q, aux, dt=dt, lower=case['lower'])
    if not np.array_equal(got, want):
        raise Violation('%s: the run on a domain moved to %r differs: %s' % (case['prob'], case['lower'], worst(got, want)))
    require(info2 == info, 'time, steps and Courant number %r on the moved domain instead of %r', info2, info)
    ctx.interesting(np.ptp(q) > 0 and np.abs(want - q).max() > 0)
    ctx.label(*runs.labels(case), 'variable' if case['var'] else 'fixed', 'e%d' % case['e'])


# --------------------------------------------------------------------------
#  translation in time
# --------------------------------------------------------------------------
@st.composite
def later_st(draw):
    case = base_st(draw, pred=steady)
    case['t0'] = draw(st.sampled_from([1.0, -2.0, 100.0, 0.125]))
    return case


def later_check(case, ctx):
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(case, q, aux, dt=dt, t0=case['t0'])
    eps = abs(case['t0']) * 1e-15 / dt          # relative rounding of the steps
    if eps > 1e-7:
        return
    scale = max(np.abs(want).max(), 1e-300)

    def again(k):
        return run(case, jiggle(q, k, max(4e-16, eps) if case['var'] else 4e-16), aux, dt=dt * (1 + (eps if case['var'] else 0)))[0]
    if np.all(np.abs(got - want) <= 20 * eps * scale):
        pass
    else:
        same(case, got, want, again, 'start at t=%r' % case['t0'])
    require(abs(info2[0] - info[0] - case['t0']) <= 1e-14 * (abs(case['t0']) + abs(info[0])) * 4, 'end time %r', info2[0])
    ctx.interesting(np.ptp(q) > 0)
    ctx.label(*runs.labels(case), 'variable' if case['var'] else 'fixed')


# --------------------------------------------------------------------------
#  scaling of the data of linear problems
# --------------------------------------------------------------------------
@st.composite
def linear_st(draw):
    case = base_st(draw, pred=lambda p: p.linear)
    case['e'] = draw(st.sampled_from([-12, -3, -1, 0, 1, 5, 12]))
    case['sign'] = draw(st.sampled_from([1.0, -1.0, -1.0]))
    return case


def linear_check(case, ctx):
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    f = case['sign'] * 2.0 ** case['e']
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(case, f * q, aux, dt=dt)
    if case['opt']['sharp']:
        # the smoothness indicators of WENO contain an absolute constant
        same(case, got / f, want, lambda k: run(case, jiggle(q, k), aux, dt=dt)[0], 'data multiplied by %r' % f)
    elif not np.array_equal(got, f * want):
        raise Violation('%s: the run from data multiplied by %r differs: %s' % (case['prob'], f, worst(got / f, want)))
    require(info2 == info, 'time, steps and Courant number %r instead of %r', info2, info)
    ctx.interesting(np.ptp(q) > 0 and f != 1)
    ctx.label(*runs.labels(case))


# --------------------------------------------------------------------------
#  mirror images
# --------------------------------------------------------------------------
# name -> per axis (components negated, parameters changed); the rest has no mirror image of the same form
SCALAR_MIRROR = {
    'advection_1D': [([], ['u'])], 'py_advection_1D': [([], ['u'])], 'advection_2D': [([], ['u']), ([], ['v'])],
    'burgers_1D': [([0], [])], 'py_burgers_1D': [([0], [])],
    'vc_elasticity_2D': [([2, 3], []), ([2, 4], [])],
}
NO_MIRROR = {'euler_hlle_1D', 'euler_hlle_2D', 'reactive_euler_with_efix_1D', 'shallow_roe_tracer_1D', 'euler_5wave_2D'}


def has_mirror(p):
    return (p.name in SCALAR_MIRROR or p.reflect is not None) and p.name not in NO_MIRROR and not p.fwave


@st.composite
def mirror_st(draw):
    case = one_limiter(base_st(draw, pred=has_mirror, kinds=['rand', 'smooth', 'step', 'spike', 'saw']))
    case['axes'] = draw(st.lists(st.booleans(), min_size=len(case['cells']), max_size=len(case['cells'])).filter(any))
    return case


def mirror_check(case, ctx):
    prob = zoo.BY_NAME[case['prob']]
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    params = prob.params(case['pa'], case['pb'])
    p2 = dict(params)
    sign = np.ones(prob.eqn)
    axes = [a + 1 for a, on in enumerate(case['axes']) if on]
    for a in axes:
        neg, par = SCALAR_MIRROR[prob.name][a - 1] if prob.name in SCALAR_MIRROR else ([prob.reflect[a - 1]], [])
        for m in neg:
            sign[m] *= -1
        for n in par:
            p2[n] = -p2[n]

    def mir(x):
        return np.flip(x, axes) * sign.reshape((-1,) + (1,) * prob.nd)
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(case, mir(q), None if aux is None else np.flip(aux, axes), params=p2, dt=dt)
    same(case, mir(got), want, lambda k: run(case, jiggle(q, k), aux, dt=dt)[0], 'mirror image in axes %s' % axes)
    require(info2[1] == info[1], 'the mirrored run takes %d steps instead of %d', info2[1], info[1])
    ctx.interesting(np.ptp(q) > 0)
    ctx.label(*runs.labels(case))


# --------------------------------------------------------------------------
#  exchange of axes
# --------------------------------------------------------------------------
# components by axis, auxiliary components by axis, parameters by axis
VECTOR = {
    'advection_2D': ([], [], ['u', 'v']), 'burgers_2D': ([], [], []), 'acoustics_2D': ([1, 2], [], []),
    'vc_acoustics_2D': ([1, 2], [], []), 'vc_advection_2D': ([], [0, 1], []), 'euler_4wave_2D': ([1, 2], [], []),
    'euler_5wave_2D': ([1, 2], [], []), 'shallow_roe_with_efix_2D': ([1, 2], [], []), 'shallow_hlle_2D': ([1, 2], [], []),
    'burgers_3D': ([], [], ['coeff']), 'vc_advection_3D': ([], [0, 1, 2], []), 'vc_acoustics_3D': ([1, 2, 3], [], []),
    'euler_3D': ([1, 2, 3], [], []), 'vc_elasticity_2D': ([], [], []),
}


@st.composite
def axes_st(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    case = base_st(draw, nd=nd, pred=lambda p: p.name in VECTOR, kinds=['rand', 'smooth', 'step', 'spike', 'saw'], modes=(0, 1, 2, 2))
    case['perm'] = draw(st.permutations(list(range(nd))))
    return case


def axes_check(case, ctx):
    prob = zoo.BY_NAME[case['prob']]
    nd, perm = prob.nd, case['perm']
    dt = runs.pick_dt(case)
    q, aux = arrays(case)
    params = prob.params(case['pa'], case['pb'])
    comp, auxc, par = VECTOR[prob.name]
    p2 = dict(params)
    if par == ['coeff']:
        p2['coeff'] = [params['coeff'][a] for a in perm]
    elif par:
        for a in range(nd):
            p2[par[a]] = params[par[perm[a]]]

    def take(n, groups):
        idx = list(range(n))
        for g in groups:
            for a in range(len(g)):
                idx[g[a]] = g[perm[a]]
        return idx
    qi = take(prob.eqn, [comp] if comp else [])
    if prob.name == 'vc_elasticity_2D':
        qi = take(5, [[0, 1], [3, 4]])

    def ex(x, idx):
        return np.transpose(x[idx], [0] + [1 + a for a in perm])
    ai = None if aux is None else take(aux.shape[0], [auxc] if auxc else [])
    c2 = dict(case, cells=[case['cells'][a] for a in perm], len=[case['len'][a] for a in perm], bc=[case['bc'][a] for a in perm])
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(c2, ex(q, qi), None if aux is None else ex(aux, ai), params=p2, dt=dt)
    same(case, got, ex(want, qi), lambda k: ex(run(case, jiggle(q, k), aux, dt=dt)[0], qi), 'axes in the order %s' % perm)
    require(info2[1] == info[1], 'the run with exchanged axes takes %d steps instead of %d', info2[1], info[1])
    ctx.interesting(perm != list(range(nd)) and np.ptp(q) > 0)
    ctx.label(*runs.labels(case), 'perm%s' % ''.join(map(str, perm)))


# --------------------------------------------------------------------------
#  constant extension into a further dimension
# --------------------------------------------------------------------------
# low, high: components of low in high (for the extension in the last axis), the passive components are 0
EXTEND = {
    'advection_1D': ('advection_2D', [0]), 'burgers_1D': ('burgers_2D', [0]), 'acoustics_1D': ('acoustics_2D', [0, 1]),
    'acoustics_variable_1D': ('vc_acoustics_2D', [0, 1]), 'shallow_roe_with_efix_1D': ('shallow_roe_with_efix_2D', [0, 1]),
    'vc_acoustics_2D': ('vc_acoustics_3D', [0, 1, 2]), 'vc_advection_2D': ('vc_advection_3D', [0]),
    'burgers_2D': ('burgers_3D', [0]),
}


@st.composite
def extend_st(draw):
    nd = draw(st.sampled_from([1, 1, 2]))
    case = one_limiter(base_st(draw, nd=nd, pred=lambda p: p.name in EXTEND, modes=('split', 0, 1, 2, 2)))
    case['n'] = draw(st.integers(case['opt'].get('weno', 3) // 2 + 1, 9))
    case['l'] = draw(st.sampled_from([1.0, 4.0, 0.6]))
    case['b'] = draw(st.sampled_from(['periodic', 'extrap']))
    case['mode2'] = draw(st.sampled_from(['split', 0, 1, 2]))
    case['v'] = draw(st.sampled_from([0.0, 0.4, -0.4]))
    return case


def extend_check(case, ctx):
    low = zoo.BY_NAME[case['prob']]
    name, comp = EXTEND[low.name]
    high = zoo.BY_NAME[name]
    case = dict(case, var=False)            # the extra dimension has its own bound on the step
    dt = 0.5 * runs.pick_dt(case)
    q, aux = arrays(case)
    params = low.params(case['pa'], case['pb'])
    opt = dict(case['opt'])
    if not opt['sharp']:
        opt['mode'] = case['mode2'] if low.nd == 1 else opt['mode']
        if low.nd == 2 and opt['mode'] in (1, 2):
            opt['mode'] = {1: 10, 2: 22 if opt['order'] == 2 else 11}[opt['mode']]
    c2 = dict(case, prob=name, cells=case['cells'] + [case['n']], len=case['len'] + [case['l']], bc=case['bc'] + [case['b']], opt=opt)

    def up(x):
        return np.repeat(x[..., None], case['n'], axis=-1)
    Q = np.zeros((high.eqn,) + tuple(c2['cells']))
    Q[comp] = up(q)
    A = None
    if aux is not None or high.naux or case['capa']:
        A = np.zeros((high.naux + (1 if case['capa'] else 0),) + tuple(c2['cells']))
        if low.naux:
            A[:low.naux] = up(aux[:low.naux])
        if low.name == 'acoustics_variable_1D':
            A[0] = A[0] / A[1]              # density instead of impedance
        if low.name == 'vc_acoustics_2D':
            A[0] = A[0] * A[1]              # impedance instead of density
        if 'vc_advection' in name:
            A[low.naux] = case['v']
        if case['capa']:
            A[high.naux] = up(aux[low.naux])
    p2 = {}
    if low.name == 'advection_1D':
        p2 = {'u': params['u'], 'v': case['v']}
    elif low.name == 'burgers_2D':
        p2 = {'coeff': [1.0, 1.0, case['v']]}
    else:
        p2 = params
    want, info = run(case, q, aux, dt=dt)
    got, info2 = run(c2, Q, A, params=p2, dt=dt)

    def again(k):
        return up(run(case, jiggle(q, k), aux, dt=dt)[0])
    same(case, got[comp], up(want), again, 'extension into a further dimension')
    rest = [m for m in range(high.eqn) if m not in comp]
    if rest:
        require(np.abs(got[rest]).max() <= 1e-11 * max(np.abs(want).max(), 1e-300), '%s: motion of size %.3g along the constant axis', name,
                np.abs(got[rest]).max())
    ctx.interesting(np.ptp(q) > 0)
    ctx.label(*runs.labels(c2))


# --------------------------------------------------------------------------
#  advection with Courant number one
# --------------------------------------------------------------------------
@st.composite
def exact_st(draw):
    return {'kind': draw(st.sampled_from(['fortran', 'python'])), 'cells': draw(st.integers(2, 30)), 'q': draw(data_spec()),
            'u': draw(st.sampled_from([1.0, -1.0, 0.5, -2.0])), 'order': draw(st.sampled_from([1, 2])),
            'lim': draw(st.sampled_from([0, 1, 2, 3, 4])), 'steps': draw(st.integers(1, 12)),
            'var': draw(st.booleans()), 'len': draw(st.sampled_from([1.0, 0.5, 4.0])), 'bc': draw(st.sampled_from(['periodic', 'extrap']))}


def exact_check(case, ctx):
    from clawpack import pyclaw, riemann
    from harness.pc import make_domain
    if case['kind'] == 'python':
        from clawpack.riemann.advection_1D_py import advection_1D as rp
    else:
        rp = riemann.advection_1D
    solver = pyclaw.ClawSolver1D(rp)
    if case['kind'] == 'python':
        solver.kernel_language = 'Python'
    solver.num_eqn = solver.num_waves = 1
    solver.all_bcs = getattr(pyclaw.BC, case['bc'])
    solver.order, solver.limiters = case['order'], case['lim']
    n = case['cells']
    dom = make_domain([0.0], [case['len']], [n])
    state = pyclaw.State(dom, 1)
    state.problem_data['u'] = case['u']
    q0 = expand(case['q'], (1, n))
    state.q[...] = q0
    sol = pyclaw.Solution(state, dom)
    dt = dom.grid.delta[0] / abs(case['u'])
    k = case['steps']
    if case['var']:
        solver.dt = solver.dt_max = dt
        solver.cfl_max, solver.cfl_desired = 1.01, 1.0
        solver.evolve_to_time(sol, k * dt)
    else:
        solver.dt_variable = False
        solver.cfl_max = 1.01
        solver.dt = dt
        solver.evolve_to_time(sol, k * dt)
    s = k if case['u'] > 0 else -k
    if case['bc'] == 'periodic':
        want = np.roll(q0, s, axis=1)
    else:
        idx = np.clip(np.arange(n) - s, 0, n - 1)
        want = q0[:, idx]
    d = np.abs(sol.q - want).max()
    require(d <= 1e-12 * max(1.0, np.abs(q0).max()) * k, 'advection with Courant number one over %d cells is wrong by %.3g', k, d)
    ctx.interesting(np.ptp(q0) > 0)
    ctx.label(case['kind'], 'order%d' % case['order'], 'lim%d' % case['lim'])


FAMILIES = [
    Family('shift', shift_st(), shift_check, quick=480, thorough=16000, shards=8, rule='data not constant and the shift is not zero'),
    Family('scale', scale_st(), scale_check, quick=480, thorough=16000, shards=8, rule='data not constant and the solution changed'),
    Family('later', later_st(), later_check, quick=240, thorough=8000, shards=4, rule='data not constant'),
    Family('linear', linear_st(), linear_check, quick=320, thorough=10000, shards=4, rule='data not constant, factor not one'),
    Family('mirror', mirror_st(), mirror_check, quick=640, thorough=20000, shards=8, rule='data not constant'),
    Family('axes', axes_st(), axes_check, quick=480, thorough=16000, shards=8, rule='a permutation that is not the identity, data not constant'),
    Family('extend', extend_st(), extend_check, quick=480, thorough=16000, shards=8, rule='data not constant'),
    Family('exact', exact_st(), exact_check, quick=200, thorough=4000, shards=2, rule='data not constant'),
]
