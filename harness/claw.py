"""Set up problems of the zoo with the classic and SharpClaw solvers."""
import numpy as np

from harness.pc import st, data_spec, make_domain, floats
from harness import zoo

SIDES = ['extrap', 'periodic', 'wall']


def names(nd, pred=lambda p: True):
    return [p.name for p in zoo.PROBLEMS if p.nd == nd and pred(p)]


def setup(case, cls_prefix='Claw', lower=None, upper=None):
    """case: prob, pa, pb, cells, len, q, aux, capa (None or spec), bc (per dim).
    Returns solver, solution, params (of pyclaw)."""
    from clawpack import pyclaw
    prob = zoo.BY_NAME[case['prob']]
    nd = prob.nd
    params = prob.params(case['pa'], case['pb'])
    if case.get('off'):
        params.update(zoo.OFF[case['prob']])
    solver = getattr(pyclaw, '%sSolver%dD' % (cls_prefix, nd))(prob.module())
    solver.kernel_language = prob.language
    solver.num_eqn = prob.eqn
    solver.num_waves = prob.waves
    solver.fwave = prob.fwave
    low = lower or [0.0] * nd
    up = upper or list(case['len'])
    domain = make_domain(low, up, case['cells'])
    naux = prob.naux + (1 if case.get('capa') else 0)
    state = pyclaw.State(domain, prob.eqn, naux)
    state.problem_data.update(params)
    state.q[...] = prob.q(case['q'], case['cells'], params)
    if prob.naux:
        state.aux[:prob.naux] = prob.aux(case['aux'], case['cells'], params)
    if case.get('capa'):
        if not case.get('nocapa'):        # otherwise an auxiliary value that nothing refers to
            state.index_capa = prob.naux
        state.aux[prob.naux] = capacity(case['capa'], case['cells'])
    for d in range(nd):
        kind = case['bc'][d]
        solver.bc_lower[d] = solver.bc_upper[d] = getattr(pyclaw.BC, kind)
        solver.aux_bc_lower[d] = solver.aux_bc_upper[d] = getattr(pyclaw.BC, kind)
    if prob.reflect:
        solver.reflect_index = list(prob.reflect)
    if case.get('ghost') and cls_prefix == 'Claw':      # two layers are needed, more make no difference
        solver.num_ghost = max(2, min(case['ghost'], *case['cells'], 9))
    return prob, solver, pyclaw.Solution(state, domain), params


def capacity(spec, cells):
    from harness.pc import expand
    return expand(spec, (1,) + tuple(cells), 0.6, 1.8)[0]


def bc_kinds(prob):
    return SIDES if prob.reflect else ['extrap', 'periodic']


@st.composite
def problem_case(draw, nd, pred=lambda p: True, cells=(2, 12), kinds=None, capa=True, bc=None):
    name = draw(st.sampled_from(names(nd, pred)))
    p = zoo.BY_NAME[name]
    case = {
        'prob': name, 'pa': draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 1.0])),
        'pb': draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])),
        'cells': [draw(st.integers(*cells)) for _ in range(nd)],
        'len': [draw(st.sampled_from([1.0, 0.5, 2.0, 3.7])) for _ in range(nd)],
        'q': draw(data_spec(kinds)), 'aux': draw(data_spec(['rand', 'step', 'smooth'])),
        'capa': draw(st.one_of(st.none(), data_spec(['rand', 'smooth', 'step']))) if capa else None,
        'bc': [draw(st.sampled_from(bc or bc_kinds(p))) for _ in range(nd)],
    }
    return case


def ghosted(interior, bc, g, reflect=None):
    """Ghost cells of a model grid: same kind on both sides of a dimension."""
    nd = interior.ndim - 1
    full = np.zeros((interior.shape[0],) + tuple(n + 2 * g for n in interior.shape[1:]))
    full[(slice(None),) + (slice(g, -g),) * nd] = interior
    for d in range(nd):
        a = np.moveaxis(full, d + 1, 1)
        n = interior.shape[d + 1]
        for k in range(g):
            for ghost, ext, per, mir in ((g - 1 - k, g, g - 1 - k + n, g + k),
                                         (g + n + k, g + n - 1, k + g, g + n - 1 - k)):
                src = {'extrap': ext, 'periodic': per, 'wall': mir}[bc[d]]
                a[:, ghost] = a[:, src]
                if bc[d] == 'wall' and reflect is not None:
                    a[reflect[d], ghost] = -a[reflect[d], src]
    return full
