"""C01: periodic runs conserve every component exactly."""
import numpy as np

from harness import runs, zoo
from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, make_domain

ID = 'C01'
ASSUMPTIONS = ['the fluctuations of the Riemann solver sum to the flux difference (a property of clawpack.riemann; only components '
               'for which it is true are compared)',
               'data of gas dynamics are mild enough that the solution stays physical; tolerance 1e-11 of the total of |q|']


def weights(sol, case):
    w = 1.0
    if case.get('capa'):
        w = np.array(sol.state.aux[sol.state.index_capa])
    for d in range(len(case['cells'])):
        w = w * (case['len'][d] / case['cells'][d])
    return w


@st.composite
def case_st(draw, nd, sharp):
    return draw(runs.run_st(nd=nd, pred=lambda p: bool(p.conserved), bc=['periodic'], sharp=sharp))


def check(case, ctx):
    dt = runs.pick_dt(case)
    prob, solver, sol, params = runs.build(case)
    q0 = np.array(sol.state.q)
    w = weights(sol, case)
    q1 = runs.advance(solver, sol, dt, case['steps'])
    require(np.isfinite(q1).all(), 'the run of %s is not finite', prob.name)
    for m in prob.conserved:
        a, b = float((q0[m] * w).sum()), float((q1[m] * w).sum())
        scale = float((np.abs(q0) * w).sum(axis=tuple(range(1, q0.ndim))).max())
        if abs(a - b) > 1e-11 * (scale + float((np.abs(q1[m]) * w).sum())):
            raise Violation('%s: the total of component %d went from %r to %r' % (prob.name, m, a, b))
    ctx.interesting(np.abs(q1 - q0).max() > 1e-6)
    ctx.label(*runs.labels(case))


# ---- variable steps, longer runs, through the Controller ---------------------
@st.composite
def long_st(draw):
    case = draw(runs.run_st(nd=draw(st.sampled_from([1, 1, 1, 2])), pred=lambda p: bool(p.conserved) and not p.fwave, bc=['periodic'],
                            integrators=('SSP33', 'SSP104', 'SSPLMMk2', 'SSPLMMk3'), kinds=['step', 'smooth', 'spike', 'rand']))
    case['outs'] = draw(st.integers(1, 3))
    case['nsteps'] = draw(st.integers(3, 12))
    case['dt0'] = draw(st.sampled_from([0.3, 1.0, 4.0]))
    return case


def long_check(case, ctx):
    from clawpack import pyclaw
    dt = runs.pick_dt(case, 0.2)
    prob, solver, sol, params = runs.build(case, 0.2)
    if case['opt']['sharp']:
        if case['opt']['integrator'] == 'SSPLMMk2':
            solver.lmm_steps = 3
        elif case['opt']['integrator'] == 'SSPLMMk3':
            solver.lmm_steps = 4
    solver.dt_variable = True
    solver.cfl_max, solver.cfl_desired = 0.45, 0.4
    if runs.is_fluid(prob) or case['opt'].get('order') == 2:
        solver.cfl_max, solver.cfl_desired = 0.3, 0.25
    solver.dt_initial = dt * case['dt0']
    claw = pyclaw.Controller()
    claw.verbosity = 0
    claw.solver, claw.solution = solver, sol
    claw.output_format = None
    claw.keep_copy = True
    claw.num_output_times = case['outs']
    claw.tfinal = dt * case['nsteps']
    w = weights(sol, case)
    q0 = np.array(sol.state.q)
    claw.run()
    for f in claw.frames:
        q1 = np.array(f.state.q)
        require(np.isfinite(q1).all(), 'the run of %s is not finite', prob.name)
        for m in prob.conserved:
            a, b = float((q0[m] * w).sum()), float((q1[m] * w).sum())
            scale = float((np.abs(q0) * w).sum(axis=tuple(range(1, q0.ndim))).max())
            if abs(a - b) > 1e-10 * (scale + float((np.abs(q1[m]) * w).sum())):
                raise Violation('%s: the total of component %d is %r at t=%r instead of %r' % (prob.name, m, b, f.t, a))
    ctx.interesting(np.abs(q1 - q0).max() > 1e-6)
    ctx.label(*runs.labels(case))


# ---- any flux function, in Python --------------------------------------------
@st.composite
def custom_st(draw):
    return {'m': draw(st.integers(1, 3)), 'n': draw(st.integers(5, 24)), 'q': draw(data_spec()), 'seed': draw(st.integers(0, 10 ** 6)),
            'sharp': draw(st.booleans()), 'order': draw(st.sampled_from([1, 2, 2])),
            'lims': draw(st.sampled_from(runs.LIM_PY)), 'lim_type': draw(st.sampled_from([2, -1])),
            'integrator': draw(st.sampled_from(['Euler', 'SSP33', 'SSP104'])),
            'capa': draw(st.one_of(st.none(), data_spec(['rand', 'step']))), 'fwave': draw(st.booleans()),
            'nu': draw(st.sampled_from([0.1, 0.4])), 'steps': draw(st.integers(1, 4)), 'len': draw(st.sampled_from([1.0, 0.3, 5.0])),
            'src': draw(st.booleans())}


def custom_check(case, ctx):
    """A linear system with a generated matrix, solved by its eigenvectors."""
    from clawpack import pyclaw
    m, n = case['m'], case['n']
    rng = np.random.default_rng(case['seed'])
    R = rng.uniform(-1, 1, (m, m)) + 2 * np.eye(m)
    lam = np.sort(rng.uniform(-1, 1, m))
    Ri = np.linalg.inv(R)

    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        k = q_l.shape[1]
        al = Ri @ (q_r - q_l)
        wave = np.empty((m, m, k))
        for j in range(m):
            wave[:, j, :] = R[:, [j]] * al[j]
            if case['fwave']:
                wave[:, j, :] *= lam[j]
        s = np.repeat(lam[:, None], k, axis=1)
        fl = wave if case['fwave'] else wave * lam[None, :, None]
        return wave, s, fl[:, lam < 0].sum(axis=1), fl[:, lam >= 0].sum(axis=1)
    solver = (pyclaw.SharpClawSolver1D if case['sharp'] else pyclaw.ClawSolver1D)(rp)
    solver.kernel_language = 'Python'
    solver.num_eqn = solver.num_waves = m
    solver.fwave = case['fwave']
    if case['sharp']:
        solver.lim_type = case['lim_type']
        solver.time_integrator = case['integrator']
        if case['src']:
            solver.dq_src = lambda solver, state, dt: np.zeros_like(state.q)
    else:
        solver.order = case['order']
        solver.limiters = case['lims']
        if case['src']:
            solver.step_source = lambda solver, state, dt: None
    solver.all_bcs = pyclaw.BC.periodic
    solver.aux_bc_lower[0] = solver.aux_bc_upper[0] = pyclaw.BC.periodic
    domain = make_domain([0.0], [case['len']], [n])
    state = pyclaw.State(domain, m, 1 if case['capa'] else 0)
    state.q[...] = expand(case['q'], (m, n))
    w = np.full(n, case['len'] / n)
    if case['capa']:
        state.aux[0] = expand(case['capa'], (1, n), 0.5, 2)[0]
        state.index_capa = 0
        w = w * state.aux[0]
    sol = pyclaw.Solution(state, domain)
    solver.dt_variable = False
    solver.cfl_max, solver.cfl_desired = 1e6, 0.9
    solver.dt = case['nu'] * w.min() / max(np.abs(lam).max(), 1e-3)
    q0 = np.array(state.q)
    for _ in range(case['steps']):
        solver.evolve_to_time(sol)
    q1 = np.array(sol.state.q)
    a, b = (q0 * w).sum(axis=1), (q1 * w).sum(axis=1)
    scale = float((np.abs(q0) * w).sum())
    require(np.isfinite(q1).all() and np.all(np.abs(a - b) <= 1e-11 * (scale + (np.abs(q1) * w).sum())), 'totals went from %r to %r', a, b)
    ctx.interesting(np.abs(q1 - q0).max() > 1e-6)
    ctx.label('sharp' if case['sharp'] else 'classic', 'fwave' if case['fwave'] else 'qwave', 'capa' if case['capa'] else 'nocapa')


FAMILIES = [
    Family('custom', custom_st(), custom_check, quick=1600, thorough=40000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('classic1', case_st(1, False), check, quick=2000, thorough=60000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('classic2', case_st(2, False), check, quick=1600, thorough=60000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('classic3', case_st(3, False), check, quick=600, thorough=20000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('sharp1', case_st(1, True), check, quick=1600, thorough=60000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('sharp2', case_st(2, True), check, quick=800, thorough=20000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('sharp3', case_st(3, True), check, quick=200, thorough=6000, shards=2, rule='the run changed some cell by more than 1e-6'),
    Family('controller', long_st(), long_check, quick=500, thorough=16000, shards=2, rule='the run changed some cell by more than 1e-6'),
]
_ = zoo
