"""C04: a classic 3D step is the documented split or unsplit update."""
import numpy as np

from harness import ref, zoo, claw
from harness.core import Family, require
from harness.pc import st, floats
from props.c02 import compare, lim_list

ID = 'C04'
ASSUMPTIONS = ['the Riemann solvers of clawpack.riemann are trusted (the model calls the same ones)',
               'capacity values are positive; grids have at least two cells in each direction']


@st.composite
def case_st(draw):
    mode = draw(st.sampled_from(['split', 'split', 0, 10, 11, 20, 21, 22, 22]))
    case = draw(claw.problem_case(3, cells=(2, 4)))
    p = zoo.BY_NAME[case['prob']]
    case['mode'] = mode
    case['order'] = 2 if mode in (20, 21, 22) else draw(st.sampled_from([1, 2, 2]))
    lim = st.integers(0, 4)
    case['lims'] = draw(st.one_of(lim, st.lists(lim, min_size=p.waves, max_size=p.waves)))
    case['nu'] = draw(floats(0.05, 0.9))
    case['steps'] = draw(st.sampled_from([1, 1, 2]))
    # the algorithm, whatever the waves mean: also with the waves taken as f-waves
    case['fwave'] = draw(st.sampled_from([False, False, True]))
    if case.get('mode') != 'split':
        case['ghost'] = draw(st.sampled_from([2, 2, 3, 5]))
    return case


def solvers(p):
    m = p.module()

    def solve(axis, q1, a1):
        return zoo.rpn(m.rpn3, q1, a1, p.waves, axis + 1)

    def tsolve(axis, dr, imp, q1, auxs, asdq):
        return zoo.rpt3(m.rpt3, axis + 1, dr, imp, q1, auxs[0], auxs[1], auxs[2], asdq, p.waves)

    def ttsolve(axis, dr, imp, impt, q1, auxs, w):
        return zoo.rptt3(m.rptt3, axis + 1, dr, imp, impt, q1, auxs[0], auxs[1], auxs[2], w, p.waves)
    return solve, tsolve, ttsolve


def model_step(case, p, q, aux, d, dt):
    qb = claw.ghosted(q, case['bc'], 2, p.reflect)
    ab = claw.ghosted(aux, case['bc'], 2) if aux is not None else None
    capa = ab[p.naux] if case['capa'] else None
    solve, tsolve, ttsolve = solvers(p)
    lims = lim_list(case, p)
    if case['mode'] == 'split':
        return ref.split3(qb, ab, d, dt, solve, case['order'], lims, case['fwave'], capa)
    return ref.unsplit3(qb, ab, d, dt, solve, case['mode'], tsolve, ttsolve, case['order'], lims, case['fwave'], capa)


def max_speed(p, q, aux, d):
    m = p.module()
    v = 0.0
    zero = False
    for axis in range(3):
        b, c = (axis + 1) % 3, (axis + 2) % 3
        for ib in range(q.shape[1 + b]):
            for ic in range(q.shape[1 + c]):
                a1 = None if aux is None else ref.line3(aux, axis, b, c, ib, ic)
                _, s, _, _ = zoo.rpn(m.rpn3, ref.line3(q, axis, b, c, ib, ic), a1, p.waves, axis + 1)
                v = max(v, float(np.abs(s[:, 1:]).max()) / d[axis])
                zero = zero or bool(np.any(s[:, 1:] == 0))
    return v, zero


def check(case, ctx):
    p, solver, sol, params = claw.setup(case)
    solver.fwave = case['fwave']
    solver.order = case['order']
    solver.limiters = case['lims']
    solver.dimensional_split = case['mode'] == 'split'
    if case['mode'] != 'split':
        solver.transverse_waves = case['mode']
    solver.dt_variable = False
    solver.cfl_max = 1e6
    state = sol.state
    ref.set_params(p, params)
    d = [case['len'][k] / case['cells'][k] for k in range(3)]
    aux = None if state.num_aux == 0 else state.aux.copy()
    qb = claw.ghosted(np.array(state.q), case['bc'], 2, p.reflect)
    ab = claw.ghosted(aux, case['bc'], 2) if aux is not None else None
    v, zero = max_speed(p, qb, ab, d)
    if case['fwave'] and zero:
        return
    kmin = float(aux[p.naux].min()) if case['capa'] else 1.0
    dt = case['nu'] * kmin / v if v > 1e-3 else 0.1 * min(d)
    solver.dt = dt
    for n in range(case['steps']):
        q0 = np.array(state.q)
        want, cflw = model_step(case, p, q0, aux, d, dt)
        if not np.isfinite(want).all():
            break
        solver.evolve_to_time(sol)
        got = np.array(state.q)
        scale = max(np.abs(q0).max(), np.abs(want).max(), 1e-300)

        def rerun(k):
            rng = np.random.default_rng(k)
            return model_step(case, p, q0 * (1 + 1e-15 * rng.uniform(-1, 1, q0.shape))
                              + 1e-16 * scale * rng.uniform(-1, 1, q0.shape), aux, d, dt)
        compare(got, want, solver.cfl.get_cached_max(), cflw, scale, rerun, 'step %d of %s' % (n + 1, p.name))
        require(aux is None or np.array_equal(state.aux, aux), 'auxiliary data changed by a step')
        ctx.interesting(np.abs(want - q0).max() > 1e-8 and len(set(case['cells'])) > 1)
    ctx.label(p.name, 'mode_%s' % case['mode'], 'order%d' % case['order'], 'capa' if case['capa'] else 'nocapa',
              *['bc_' + b for b in case['bc']])


FAMILIES = [
    Family('model', case_st(), check, quick=900, thorough=12000, shards=8,
           rule='grid not cubic and the step changed some cell by more than 1e-8'),
]
