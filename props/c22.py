"""C22: steady states stay steady and closed boxes lose nothing."""
import numpy as np

from harness import runs, zoo, claw
from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, make_domain

ID = 'C22'
ASSUMPTIONS = ['the Riemann solution of equal states has no waves, and that of mirror images no flux of mass, energy or pressure '
               '(a property of clawpack.riemann)', 'tolerance 1e-11 of the size of the data']

# problems with variable coefficients for which a constant q is still an equilibrium
QWAVE_VC = {'acoustics_variable_1D', 'advection_color_1D', 'vc_acoustics_2D', 'vc_acoustics_3D', 'vc_elasticity_2D', 'vc_advection_2D',
            'vc_advection_3D', 'py_vc_advection_1D'}
# the Riemann solver of these never makes a state of its own, so equal states give exactly no waves
SKIP_CONST = set()


@st.composite
def const_st(draw, nd, sharp):
    case = draw(runs.run_st(nd=nd, sharp=sharp, kinds=['const'], bc=['periodic', 'extrap'], max_steps=4))
    case['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6])) if zoo.BY_NAME[case['prob']].linear else 1.0
    case['bcu'] = [draw(st.sampled_from(['extrap', case['bc'][d]])) if case['bc'][d] == 'extrap' else 'periodic' for d in range(nd)]
    return case


def const_build(case, amp=1.0):
    prob, solver, sol, params = runs.build(case, 1.0)
    st_ = sol.state
    if prob.naux and prob.name not in QWAVE_VC:
        for k in range(prob.naux):
            a = st_.aux[k]
            a[...] = a.flat[0]
    st_.q[...] = st_.q * case.get('amp', 1.0)
    return prob, solver, sol, params


def const_check(case, ctx):
    dt = runs.pick_dt(case, builder=const_build)
    prob, solver, sol, params = const_build(case)
    q0 = np.array(sol.state.q)
    require(np.ptp(q0.reshape(q0.shape[0], -1), axis=1).max() == 0, 'harness: data not constant')
    q1 = runs.advance(solver, sol, dt, case['steps'])
    scale = np.abs(q0).max()
    bad = np.abs(q1 - q0)
    if not np.all(bad <= 1e-11 * scale):
        raise Violation('%s: constant data %r changed by %.3g' % (prob.name, q0.reshape(q0.shape[0], -1)[:, 0].tolist(), np.nanmax(bad)))
    ctx.interesting()
    ctx.label(*runs.labels(case))


# ---- variable steps through the Controller ------------------------------------
@st.composite
def constvar_st(draw):
    case = draw(const_st(draw(st.sampled_from([1, 1, 2])), draw(st.booleans())))
    if case['opt']['sharp']:
        case['opt']['integrator'] = draw(st.sampled_from(['Euler', 'SSP33', 'SSP104', 'SSPLMMk2', 'SSPLMMk3']))
    case['dt0'] = draw(st.sampled_from([0.2, 1.0, 10.0]))
    case['gauge'] = draw(st.booleans())
    return case


def constvar_check(case, ctx):
    from clawpack import pyclaw
    dt = runs.pick_dt(case, builder=const_build)
    prob, solver, sol, params = const_build(case)
    if case['opt']['sharp']:
        solver.lmm_steps = {'SSPLMMk2': 3, 'SSPLMMk3': 4}.get(case['opt']['integrator'], 4)
    solver.dt_variable = True
    solver.cfl_max, solver.cfl_desired = 0.5, 0.4
    solver.dt_initial = dt * case['dt0']
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = solver, sol
    c.output_format, c.keep_copy = None, True
    c.num_output_times, c.tfinal = 2, dt * case['steps'] * 2
    q0 = np.array(sol.state.q)
    c.run()
    scale = np.abs(q0).max()
    for f in c.frames:
        if not np.all(np.abs(f.state.q - q0) <= 1e-11 * scale):
            raise Violation('%s: constant data changed by %.3g until %r' % (prob.name, np.nanmax(np.abs(f.state.q - q0)), f.t))
    ctx.interesting()
    ctx.label(*runs.labels(case))


# ---- rest in a closed box -------------------------------------------------------
BOX = {  # conserved totals besides being symmetric: density or pressure, and energy
    'acoustics_1D': [0], 'acoustics_variable_1D': [], 'euler_with_efix_1D': [0, 2],
    'shallow_roe_with_efix_1D': [0], 'shallow_hlle_1D': [0], 'py_acoustics_1D': [0], 'py_euler_roe_1D': [0, 2], 'py_euler_hllc_1D': [0, 2],
    'py_shallow_roe_1D': [0], 'py_shallow_hll_1D': [0], 'acoustics_2D': [0], 'vc_acoustics_2D': [], 'euler_4wave_2D': [0, 3],
    'shallow_roe_with_efix_2D': [0], 'shallow_hlle_2D': [0], 'vc_acoustics_3D': [], 'euler_3D': [0, 4],
    'shallow_bathymetry_fwave_1D': [0],
}


@st.composite
def rest_st(draw, nd):
    case = draw(runs.run_st(nd=nd, pred=lambda p: p.name in BOX and not p.fwave, kinds=['const'], bc=['wall'], max_steps=4))
    return case


def rest_build(case, amp=1.0):
    prob, solver, sol, params = runs.build(case, 1.0)
    q = sol.state.q
    if 'euler' in prob.name:
        ke = 0.5 * sum(np.array(q[m]) ** 2 for m in prob.reflect) / q[0]
        q[prob.nd + 1] -= ke
    for m in prob.reflect:
        q[m] = 0.0
    return prob, solver, sol, params


def rest_check(case, ctx):
    dt = runs.pick_dt(case, builder=rest_build)
    prob, solver, sol, params = rest_build(case)
    q0 = np.array(sol.state.q)
    q1 = runs.advance(solver, sol, dt, case['steps'])
    scale = np.abs(q0).max()
    if not np.all(np.abs(q1 - q0) <= 1e-11 * scale):
        raise Violation('%s: a fluid at rest in a closed box changed by %.3g' % (prob.name, np.nanmax(np.abs(q1 - q0))))
    ctx.interesting()
    ctx.label(*runs.labels(case))


# ---- closed boxes lose nothing ---------------------------------------------------
@st.composite
def box_st(draw, nd):
    case = draw(runs.run_st(nd=nd, pred=lambda p: bool(BOX.get(p.name)) and not p.fwave, bc=['wall'], max_steps=3,
                            kinds=['step', 'rand', 'smooth', 'spike', 'ints']))
    case['mix'] = [draw(st.booleans()) for _ in range(nd)]
    case['mix'][draw(st.integers(0, nd - 1))] = True
    case['bc'] = ['wall' if m else 'periodic' for m in case['mix']]
    lims = case['opt'].get('lims')
    if isinstance(lims, list):   # limiters that differ between the waves are not symmetric at the wall
        case['opt']['lims'] = lims[0]
    return case


def box_check(case, ctx):
    dt = runs.pick_dt(case, 0.3)
    prob, solver, sol, params = runs.build(case, 0.3)
    q0 = np.array(sol.state.q)
    w = np.array(sol.state.aux[sol.state.index_capa]) if case['capa'] else 1.0
    q1 = runs.advance(solver, sol, dt, case['steps'])
    for m in BOX[prob.name]:
        a, b = float((q0[m] * w).sum()), float((q1[m] * w).sum())
        if not abs(a - b) <= 1e-10 * float((np.abs(q0) * w).sum()):
            raise Violation('%s: a closed box changed the total of component %d from %r to %r' % (prob.name, m, a, b))
    ctx.interesting(np.abs(q1 - q0).max() > 1e-6)
    ctx.label(*runs.labels(case))


# ---- lake at rest over a bottom ---------------------------------------------------
@st.composite
def lake_st(draw):
    nd = draw(st.integers(1, 2))
    return {'nd': nd, 'cells': [draw(st.integers(2, 12)) for _ in range(nd)], 'b': draw(data_spec(['rand', 'step', 'smooth', 'spike'])),
            'level': draw(st.sampled_from([0.0, 0.5, 3.0])), 'order': draw(st.sampled_from([1, 2])), 'lims': draw(st.integers(0, 4)),
            'bc': [draw(st.sampled_from(['wall', 'extrap', 'periodic'])) for _ in range(nd)], 'steps': draw(st.integers(1, 4)),
            'split': draw(st.booleans()), 'grav': draw(st.sampled_from([1.0, 9.81]))}


def lake_check(case, ctx):
    from clawpack import pyclaw, riemann
    nd = case['nd']
    rp = riemann.shallow_bathymetry_fwave_1D if nd == 1 else riemann.shallow_bathymetry_fwave_2D
    solver = getattr(pyclaw, 'ClawSolver%dD' % nd)(rp)
    solver.fwave = True
    solver.num_eqn, solver.num_waves = nd + 1, (2 if nd == 1 else 3)
    solver.order = case['order']
    solver.limiters = case['lims']
    if nd == 2:
        solver.dimensional_split = case['split']
        if not case['split']:
            solver.transverse_waves = 0
    domain = make_domain([0.0] * nd, [1.0] * nd, case['cells'])
    state = pyclaw.State(domain, nd + 1, 1)
    state.problem_data.update(grav=case['grav'], dry_tolerance=1e-3, sea_level=case['level'])
    b = expand(case['b'], (1,) + tuple(case['cells']), -2.0, -0.5)[0] + case['level']
    state.aux[0] = b
    state.q[0] = case['level'] - b
    for k in range(nd):
        state.q[k + 1] = 0.0
    for d in range(nd):
        for s in (solver.bc_lower, solver.bc_upper, solver.aux_bc_lower, solver.aux_bc_upper):
            s[d] = getattr(pyclaw.BC, case['bc'][d])
    sol = pyclaw.Solution(state, domain)
    solver.dt_variable = False
    solver.cfl_max = 1e6
    solver.dt = 0.3 / max(case['cells']) / np.sqrt(case['grav'] * 5.0)
    q0 = np.array(state.q)
    for _ in range(case['steps']):
        solver.evolve_to_time(sol)
    q1 = np.array(sol.state.q)
    if not np.all(np.abs(q1 - q0) <= 1e-11 * max(1, np.abs(q0).max()) * case['grav']):
        raise Violation('a lake at rest changed by %.3g' % np.nanmax(np.abs(q1 - q0)))
    ctx.interesting(np.ptp(b) > 0.1)


RULE = 'always (every case is an equilibrium)'
FAMILIES = [
    Family('constant1', const_st(1, False), const_check, quick=600, thorough=20000, shards=1, rule=RULE),
    Family('constant2', const_st(2, False), const_check, quick=600, thorough=20000, shards=1, rule=RULE),
    Family('constant3', const_st(3, False), const_check, quick=250, thorough=8000, shards=1, rule=RULE),
    Family('constant1s', const_st(1, True), const_check, quick=500, thorough=20000, shards=1, rule=RULE),
    Family('constant2s', const_st(2, True), const_check, quick=300, thorough=8000, shards=1, rule=RULE),
    Family('constant3s', const_st(3, True), const_check, quick=100, thorough=2000, shards=1, rule=RULE),
    Family('controller', constvar_st(), constvar_check, quick=200, thorough=5000, shards=1, rule=RULE),
    Family('rest1', rest_st(1), rest_check, quick=400, thorough=10000, shards=1, rule=RULE),
    Family('rest2', rest_st(2), rest_check, quick=300, thorough=10000, shards=1, rule=RULE),
    Family('rest3', rest_st(3), rest_check, quick=150, thorough=3000, shards=1, rule=RULE),
    Family('box1', box_st(1), box_check, quick=600, thorough=20000, shards=1, rule='the run changed some cell by more than 1e-6'),
    Family('box2', box_st(2), box_check, quick=400, thorough=10000, shards=1, rule='the run changed some cell by more than 1e-6'),
    Family('box3', box_st(3), box_check, quick=150, thorough=3000, shards=1, rule='the run changed some cell by more than 1e-6'),
    Family('lake', lake_st(), lake_check, quick=300, thorough=10000, shards=1, rule='a bottom that varies by more than 0.1'),
]
_ = claw
