"""Generated runs: a problem of the zoo, a classic or SharpClaw solver with generated options,
and a fixed step that keeps the Courant number where it is asked to be."""
import numpy as np

from harness.pc import st, data_spec
from harness import claw, zoo

LIM_F = [0, 1, 2, 3, 4]
LIM_PY = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16]
FLUID = ('euler', 'shallow')


def is_fluid(prob):
    return any(f in prob.name for f in FLUID)


@st.composite
def run_st(draw, nd=None, pred=lambda p: True, bc=None, capa=True, sharp=None, kinds=None, max_steps=3, lim_type=None,
           integrators=('Euler', 'SSP33', 'SSP104'), modes=('split', 0, 1, 2),
           any_sharp=False):
    nd = nd or draw(st.sampled_from([1, 1, 2, 2, 3]))
    if sharp is None:
        sharp = draw(st.booleans())
    p0 = (lambda p: pred(p) and p.sharp) if sharp and not any_sharp else pred
    names = claw.names(nd, p0)
    name = draw(st.sampled_from(names))
    p = zoo.BY_NAME[name]
    opt = {'sharp': sharp}
    if sharp:
        py = p.language == 'Python'
        opt['lim_type'] = draw(st.sampled_from(lim_type or ([2, 2, -1] if py else [2, 2, 2, 1, 3])))
        orders = [5] if py else ([5, 7] if is_fluid(p) else [5, 7, 9, 11, 13, 15, 17])
        opt['weno'] = draw(st.sampled_from(orders))
        opt['integrator'] = draw(st.sampled_from([i for i in integrators if 'LMM' not in i or not is_fluid(p)]))
        if opt['lim_type'] in (1, 3):
            opt['weno'] = 5
            opt['lims'] = draw(st.sampled_from([1, 2, 3, 4]))
        g = (opt['weno'] + 1) // 2
        lo = g
        opt['split'] = None
    else:
        opt['order'] = draw(st.sampled_from([1, 2, 2]))
        lim = st.sampled_from(LIM_PY if p.language == 'Python' else LIM_F)
        opt['lims'] = draw(st.one_of(lim, st.lists(lim, min_size=p.waves, max_size=p.waves)))
        mode = draw(st.sampled_from(list(modes))) if nd > 1 else None
        if nd == 3 and mode in (1, 2):
            mode = draw(st.sampled_from([11, 10, 22, 21, 20])) if mode == 2 else draw(st.sampled_from([10, 11]))
        if mode not in (None, 'split', 0) and not p.trans:
            mode = 0
        if nd == 3 and mode in (20, 21, 22):
            opt['order'] = 2        # correction waves have no meaning at first order in the 3D kernel
        opt['mode'] = mode
        lo = 2
    hi = {1: 20, 2: 9, 3: 6}[nd]
    hi = max(hi, lo + 1)
    case = {
        'prob': name, 'pa': draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 1.0])), 'pb': draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])),
        'cells': [draw(st.integers(lo, hi)) for _ in range(nd)],
        'len': [draw(st.sampled_from([1.0, 0.5, 2.0, 3.7])) for _ in range(nd)],
        'q': draw(data_spec(kinds)), 'aux': draw(data_spec(['rand', 'step', 'smooth'])),
        'capa': draw(st.one_of(st.none(), data_spec(['rand', 'smooth', 'step']))) if capa else None,
        'bc': [draw(st.sampled_from(bc or claw.bc_kinds(p))) for _ in range(nd)],
        'opt': opt, 'nu': draw(st.sampled_from([0.1, 0.25, 0.4])), 'steps': draw(st.integers(1, max_steps)),
    }
    return case


def damp(prob, q, amp):
    """Data of gas dynamics nearer to a constant state, so that high order never leaves the physical states."""
    if is_fluid(prob) and amp < 1:
        m = q.mean(axis=tuple(range(1, q.ndim)), keepdims=True)
        return m + amp * (q - m)
    return q


def build(case, amp=0.4):
    opt = case['opt']
    prob, solver, sol, params = claw.setup(case, 'SharpClaw' if opt['sharp'] else 'Claw')
    if opt['sharp']:
        solver.lim_type = opt['lim_type']
        solver.weno_order = opt['weno']
        if 'lims' in opt:
            solver.limiters = opt['lims']
        solver.time_integrator = opt['integrator']
        if 'LMM' in opt['integrator']:
            solver.lmm_steps = 4
        if opt['integrator'] == 'LMM':      # Adams-Bashforth
            solver.alpha, solver.beta = np.array([0.0, 1.0]), np.array([-0.5, 1.5])
            solver.lmm_steps = 2
    else:
        solver.order = opt['order']
        solver.limiters = opt['lims']
        if prob.nd > 1:
            solver.dimensional_split = opt['mode'] == 'split'
            if opt['mode'] != 'split':
                solver.transverse_waves = opt['mode']
    solver.dt_variable = False
    solver.cfl_max, solver.cfl_desired = 1e6, 0.9
    sol.state.q[...] = damp(prob, np.array(sol.state.q), amp)
    return prob, solver, sol, params


def pick_dt(case, amp=0.4, builder=None):
    """A step with Courant number case['nu'] for the initial data."""
    prob, solver, sol, params = (builder or build)(case, amp)
    if case['opt']['sharp']:
        solver.time_integrator = 'Euler'
    d = min(case['len'][k] / case['cells'][k] for k in range(prob.nd))
    tiny = 1e-7 * d
    solver.dt = tiny
    solver.evolve_to_time(sol)
    v = solver.cfl.get_cached_max()
    if not v > 0:
        return 0.1 * d
    # the data may be such that all interface speeds vanish at first
    return case['nu'] * min(tiny / v, d)


def advance(solver, sol, dt, steps):
    solver.dt = dt
    for _ in range(steps):
        solver.evolve_to_time(sol)
    return np.array(sol.state.q)


def labels(case):
    o = case['opt']
    out = [case['prob'], 'sharp_%s_weno%d_%s' % (o['lim_type'], o['weno'], o['integrator']) if o['sharp'] else
           'classic_order%d_mode_%s' % (o['order'], o['mode'])]
    return out
