"""C03: a classic 2D step is the documented split or unsplit update."""
import numpy as np

from harness import ref, zoo, claw
from harness.core import Family, require
from harness.pc import st, floats
from props.c02 import compare, lim_list

ID = 'C03'
ASSUMPTIONS = ['the Riemann solvers of clawpack.riemann are trusted (the model calls the same ones)',
               'capacity values are positive; grids have at least two cells in each direction']


@st.composite
def case_st(draw):
    mode = draw(st.sampled_from(['split', 'split', 0, 1, 2, 2]))
    case = draw(claw.problem_case(2, pred=lambda p: p.trans or mode in ('split', 0), cells=(2, 7)))
    p = zoo.BY_NAME[case['prob']]
    case['mode'] = mode
    case['order'] = draw(st.sampled_from([1, 2, 2]))
    lim = st.integers(0, 5) if mode != 'split' else st.integers(0, 4)
    case['lims'] = draw(st.one_of(lim, st.lists(lim, min_size=p.waves, max_size=p.waves)))
    case['nu'] = draw(floats(0.05, 0.9))
    case['steps'] = draw(st.integers(1, 2))
    # the algorithm, whatever the waves mean: also with the waves taken as f-waves
    case['fwave'] = draw(st.sampled_from([p.fwave, p.fwave, True]))
    case['ptwise'] = case['prob'] == 'acoustics_2D' and draw(st.booleans())
    if case.get('mode') != 'split':
        case['ghost'] = draw(st.sampled_from([2, 2, 3, 5]))
    return case


def solvers(p):
    m = p.module()

    def solve(axis, q1, a1):
        return zoo.rpn(m.rpn2, q1, a1, p.waves, axis + 1)

    def tsolve(axis, imp, q1, auxs, asdq):
        return zoo.rpt2(m.rpt2, axis + 1, imp, q1, auxs[0], auxs[1], auxs[2], asdq, p.waves)
    return solve, tsolve


def model_step(case, p, q, aux, d, dt):
    g = 2
    qb = claw.ghosted(q, case['bc'], g, p.reflect)
    ab = claw.ghosted(aux, case['bc'], g) if aux is not None else None
    capa = ab[p.naux] if case['capa'] else None
    solve, tsolve = solvers(p)
    lims = lim_list(case, p)
    if case['mode'] == 'split':
        return ref.split2(qb, ab, d, dt, solve, case['order'], lims, case['fwave'], capa)
    return ref.unsplit2(qb, ab, d, dt, solve, case['mode'], tsolve, case['order'], lims, case['fwave'], capa)


def max_speed(p, q, aux, d, dx_weight=True):
    """Largest |s|/dx over all lines of the ghosted data."""
    m = p.module()
    v = 0.0
    zero = False
    for axis in (0, 1):
        for line in range(q.shape[2 - axis]):
            _, s, _, _ = zoo.rpn(m.rpn2, ref.take(q, axis, line), ref.take(aux, axis, line), p.waves, axis + 1)
            v = max(v, float(np.abs(s[:, 1:]).max()) / d[axis])
            zero = zero or bool(np.any(s[:, 1:] == 0))
    return v, zero


def check(case, ctx):
    p, solver, sol, params = claw.setup(dict(case, prob=case['prob'] + '_ptwise') if case.get('ptwise') else case)
    p = zoo.BY_NAME[case['prob']]
    solver.fwave = case['fwave']
    solver.order = case['order']
    solver.limiters = case['lims']
    solver.dimensional_split = case['mode'] == 'split'
    if case['mode'] != 'split':
        solver.transverse_waves = case['mode']
    solver.dt_variable = False
    solver.cfl_max = 1e6
    state = sol.state
    ref.set_params(p, params)
    d = [case['len'][k] / case['cells'][k] for k in range(2)]
    aux = None if state.num_aux == 0 else state.aux.copy()
    qb = claw.ghosted(np.array(state.q), case['bc'], 2, p.reflect)
    ab = claw.ghosted(aux, case['bc'], 2) if aux is not None else None
    v, zero = max_speed(p, qb, ab, d)
    kmin = float(aux[p.naux].min()) if case['capa'] else 1.0
    dt = case['nu'] * kmin / v if v > 1e-3 else 0.1 * min(d)
    if case['fwave'] and zero:
        return
    solver.dt = dt
    for n in range(case['steps']):
        q0 = np.array(state.q)
        want, cflw = model_step(case, p, q0, aux, d, dt)
        if not np.isfinite(want).all():
            break
        solver.evolve_to_time(sol)
        got = np.array(state.q)
        scale = max(np.abs(q0).max(), np.abs(want).max(), 1e-300)

        def rerun(k):
            rng = np.random.default_rng(k)
            return model_step(case, p, q0 * (1 + 1e-15 * rng.uniform(-1, 1, q0.shape))
                              + 1e-16 * scale * rng.uniform(-1, 1, q0.shape), aux, d, dt)
        compare(got, want, solver.cfl.get_cached_max(), cflw, scale, rerun, 'step %d of %s' % (n + 1, p.name))
        require(aux is None or np.array_equal(state.aux, aux), 'auxiliary data changed by a step')
        ctx.interesting(np.abs(want - q0).max() > 1e-8 and case['cells'][0] != case['cells'][1])
    ctx.label(p.name + ('_ptwise' if case.get('ptwise') else ''), 'mode_%s' % case['mode'], 'order%d' % case['order'], 'capa' if case['capa'] else 'nocapa',
              *['bc_' + b for b in case['bc']])


FAMILIES = [
    Family('model', case_st(), check, quick=4500, thorough=80000, shards=8,
           rule='non-square grid and the step changed some cell by more than 1e-8'),
]
