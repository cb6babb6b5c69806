"""C12: states and solutions are faithful, independent containers."""
import copy

import numpy as np

from harness import claw, zoo
from harness.core import Family, require
from harness.pc import st, data_spec, expand, make_domain

ID = 'C12'
ASSUMPTIONS = ['copies are made with copy.deepcopy; gauges (open files) are not part of a copy']

# ---- a solution of one or several patches -------------------------------------


@st.composite
def sol_st(draw):
    nd = draw(st.integers(1, 3))
    npatch = draw(st.integers(1, 3))
    return {
        'nd': nd, 'eqn': draw(st.integers(1, 4)), 'aux': draw(st.integers(0, 3)),
        'patches': [{'cells': [draw(st.integers(1, 5)) for _ in range(nd)],
                     'lower': [draw(st.sampled_from([-1.5, 0.0, 2.25])) for _ in range(nd)],
                     'len': [draw(st.sampled_from([0.5, 1.0, 3.0])) for _ in range(nd)],
                     'level': draw(st.integers(1, 4)), 'index': draw(st.integers(0, 9))} for _ in range(npatch)],
        'q': draw(data_spec()), 't': draw(st.sampled_from([0.0, 1.5, -2.0, 1e-3])),
        'params': draw(st.dictionaries(st.sampled_from(['u', 'rho', 'list', 'deep']), st.integers(-3, 3), max_size=3)),
        'capa': draw(st.integers(-1, 2)), 'mp': draw(st.integers(0, 2)), 'mF': draw(st.integers(0, 2)),
        'units': draw(st.sampled_from([None, 'km'])), 'map': draw(st.booleans()), 'keep': draw(st.booleans()),
        'muts': draw(st.lists(st.tuples(st.sampled_from(MUTS), st.integers(0, 1), st.integers(0, 2)), max_size=5)),
    }


MUTS = ['q', 'qcell', 'aux', 't', 'sol_t', 'param', 'nested', 'capa', 'lower', 'cells', 'level', 'p', 'F', 'gauge',
        'map', 'newq']


def twist(x, *rest):
    return [2 * v + 1 for v in (x, *rest)]


def twist_list(coords):
    return [2 * v + 1 for v in coords]


def build(case):
    from clawpack import pyclaw
    states = []
    for k, p in enumerate(case['patches']):
        dims = [pyclaw.Dimension(p['lower'][d], p['lower'][d] + p['len'][d], p['cells'][d], name='xyz'[d], units=case['units'])
                for d in range(case['nd'])]
        patch = pyclaw.Patch(dims)
        patch.level = p['level']
        patch.patch_index = p['index']
        s = pyclaw.State(patch, case['eqn'], case['aux'])
        s.q[...] = expand(dict(case['q'], seed=case['q']['seed'] + k), s.q.shape)
        if case['aux']:
            s.aux[...] = expand(dict(case['q'], seed=case['q']['seed'] + 77 + k), s.aux.shape)
        s.t = case['t']
        for key, v in case['params'].items():
            s.problem_data[key] = v if key in ('u', 'rho') else [v, {'inner': [v]}]
        if case['capa'] < case['aux']:
            s.index_capa = case['capa']
        if case['mp']:
            s.mp = case['mp']
            s.p[...] = 3.0 * k + 1
        if case['mF']:
            s.mF = case['mF']
            s.F[...] = 5.0 * k + 1
        s.keep_gauges = case['keep']
        s.gauge_data = [np.array([1.0, 2.0]), np.array([k, 4.0])] if case['keep'] else []
        if case['map']:
            s.grid.mapc2p = twist
        states.append(s)
    domain = pyclaw.Domain([s.patch for s in states])
    return pyclaw.Solution(states, domain)


def arr(a):
    return None if a is None else [list(a.shape), np.asarray(a).tolist()]


def grid_view(g):
    out = {'dims': [(d.name, d.lower, d.upper, d.num_cells, d.delta, d.units) for d in g.dimensions],
           'num_dim': g.num_dim, 'lower': list(g.lower), 'upper': list(g.upper), 'n': list(g.num_cells),
           'delta': list(g.delta), 'map': g.mapc2p.__name__,
           'c': [np.asarray(c).tolist() for c in g.c_centers], 'e': [np.asarray(c).tolist() for c in g.c_nodes]}
    return out


def view(sol):
    """Everything observable of a solution, as plain data."""
    out = []
    for s in sol.states:
        out.append({'q': arr(s.q), 'aux': arr(s.aux), 't': s.t, 'pd': repr(sorted(s.problem_data.items())),
                    'capa': s.index_capa, 'p': arr(s.p), 'F': arr(s.F), 'keep': s.keep_gauges,
                    'gauge': [arr(g) for g in s.gauge_data], 'num': [s.num_eqn, s.num_aux, s.mp, s.mF],
                    'level': s.patch.level, 'index': s.patch.patch_index, 'grid': grid_view(s.patch.grid),
                    'order': [s.q.flags['F_CONTIGUOUS'], s.aux is None or s.aux.flags['F_CONTIGUOUS']]})
    doms = [{'level': p.level, 'index': p.patch_index, 'grid': grid_view(p.grid)} for p in sol.domain.patches]
    return {'states': out, 'domain': doms}


def differ(a, b, path=''):
    """Path of the first difference of two views, or None."""
    if isinstance(a, dict):
        for k in a:
            r = differ(a[k], b[k], path + '/' + str(k))
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ' (length)'
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, path + '/%d' % i)
            if r:
                return r
        return None
    return None if (a == b and type(a) == type(b)) or (a != a and b != b) else '%s: %r is not %r' % (path, b, a)


def mutate(sol, what, k):
    s = sol.states[k % len(sol.states)]
    if what == 'q':
        s.q[...] = s.q * 2 + 1
    elif what == 'qcell':
        s.q[(0,) * s.q.ndim] = 12345.0
    elif what == 'aux' and s.aux is not None:
        s.aux[...] += 1
    elif what == 't':
        s.t = s.t + 1
    elif what == 'sol_t':
        sol.t = 99.5
    elif what == 'param':
        s.problem_data['new'] = 1
    elif what == 'nested':
        for v in s.problem_data.values():
            if isinstance(v, list):
                v[1]['inner'].append(7)
    elif what == 'capa':
        s.index_capa = 0
    elif what == 'lower':
        s.patch.grid.dimensions[0].lower = -20.0
    elif what == 'cells':
        s.patch.grid.dimensions[-1].num_cells = 11
    elif what == 'level':
        s.patch.level += 1
        s.patch.patch_index += 3
    elif what == 'p' and s.p is not None:
        s.p[...] = -1
    elif what == 'F' and s.F is not None:
        s.F[...] = -1
    elif what == 'gauge':
        s.gauge_data.append(np.zeros(2))
        if len(s.gauge_data) > 1:
            s.gauge_data[0][...] = 8
    elif what == 'map':
        s.grid.mapc2p = twist_list
    elif what == 'newq':
        s.q = np.asfortranarray(np.zeros_like(s.q))


def check_copy(case, ctx):
    sol = build(case)
    before = view(sol)
    dup = copy.deepcopy(sol)
    r = differ(before, view(sol))
    require(r is None, 'copying changed the original: %s', r)
    r = differ(before, view(dup))
    require(r is None, 'the copy differs from the original: %s', r)
    for k, (a, b) in enumerate(zip(sol.states, dup.states)):
        require(a is not b and not np.shares_memory(a.q, b.q), 'state %d of the copy shares its q', k)
        require(a.aux is None or not np.shares_memory(a.aux, b.aux), 'state %d of the copy shares its aux', k)
        require(b.patch is dup.domain.patches[k], 'patch %d of the copied domain is not the patch of its state', k)
    views = [before, copy.deepcopy(before)]
    both = [sol, dup]
    for what, who, k in case['muts']:
        mutate(both[who], what, k)
        r = differ(views[1 - who], view(both[1 - who]))
        require(r is None, 'changing %s of %s changed the other: %s', what, ['the original', 'the copy'][who], r)
        views[who] = view(both[who])
    # a copied state alone
    one = copy.deepcopy(sol.states[0])
    r = differ(view(sol)['states'][0], view_state(one))
    require(r is None, 'copy of a state differs: %s', r)
    ctx.interesting(len(case['muts']) > 0)
    ctx.label('%dD' % case['nd'], '%d patches' % len(case['patches']), *['mut_' + m[0] for m in case['muts']])


def view_state(s):
    class One:
        pass
    o = One()
    o.states = [s]
    o.domain = One()
    o.domain.patches = []
    return view(o)['states'][0]


def differ_simple(a, b):
    try:
        return len(np.shape(a)) == len(np.shape(b)) and np.array_equal(np.asarray(a), np.asarray(b))
    except ValueError:
        return False


# ---- views of the same data ---------------------------------------------------
@st.composite
def views_st(draw):
    case = draw(sol_st())
    case['ghost'] = draw(st.integers(1, 4))
    case['ctor'] = draw(st.integers(0, 5))
    return case


def check_views(case, ctx):
    from clawpack import pyclaw
    sol = build(case)
    s0 = sol.states[0]
    require(sol.state is s0, 'solution.state is not the first state')
    require(sol.q is s0.q and sol.aux is s0.aux and sol.problem_data is s0.problem_data, 'solution attributes are not those of the state')
    require(sol.t == s0.t and sol.num_eqn == case['eqn'] and sol.num_aux == case['aux'], 'counts or time of the solution')
    require(sol.mp == case['mp'] and sol.mF == case['mF'], 'numbers of derived quantities')
    require(list(sol.num_cells) == case['patches'][0]['cells'] and sol.num_dim == case['nd'], 'cells of the solution')
    require(list(s0.num_cells) == list(s0.q.shape[1:]), 'cells of the state')
    owner = pyclaw.Controller()
    owner.solution = sol
    for key, want in (('t', s0.t), ('num_eqn', case['eqn']), ('num_aux', case['aux']), ('mp', case['mp']), ('mF', case['mF']),
                      ('q', s0.q), ('aux', s0.aux), ('p', s0.p), ('F', s0.F), ('problem_data', s0.problem_data),
                      ('grid', s0.grid), ('gauges', s0.grid.gauges), ('num_dim', case['nd']),
                      ('num_cells', case['patches'][0]['cells']), ('lower', s0.grid.lower), ('upper', s0.grid.upper),
                      ('delta', s0.grid.delta), ('p_centers', s0.grid.p_centers), ('c_centers', s0.grid.c_centers)):
        for who, obj in (('state', s0), ('solution', sol), ('controller', owner)):
            got = getattr(obj, key)
            require(got is want or differ_simple(got, want), 'attribute %s of the %s: %r, not %r', key, who, got, want)
    require(sol.patch is s0.patch and sol.domain.patch is s0.patch, 'base patch of the solution')
    require(sol.start_frame == 0, 'a solution not read from file starts at frame %r', sol.start_frame)
    late = pyclaw.Solution([pyclaw.State(pyclaw.Patch(s.patch.dimensions), case['eqn'], 0) for s in sol.states],
                           pyclaw.Domain([s.patch for s in sol.states]))
    late.mp, late.mF = 2, 3
    require(all(s.mp == 2 and s.mF == 3 and s.p.shape == (2,) + s.q.shape[1:] and s.F.shape == (3,) + s.q.shape[1:]
                for s in late.states), 'setting the numbers of derived quantities on the solution')
    late.set_all_states('t', 2.5)
    require(all(s.t == 2.5 for s in late.states), 'set_all_states')
    late.set_all_states('t', 3.5, overwrite=False)
    require(all(s.t == 2.5 for s in late.states), 'set_all_states replaced a value it was told to keep')
    sol.t = 17.25
    require(all(s.t == 17.25 for s in sol.states) and sol.t == 17.25, 'setting the time of a solution sets that of every state')
    g = case['ghost']
    for s in sol.states:
        full = [n + 2 * g for n in s.num_cells]
        inner = (slice(None),) + (slice(g, -g),) * case['nd']
        for get, setr, name, num in (('get_qbc_from_q', 'set_q_from_qbc', 'q', s.num_eqn),
                                     ('get_auxbc_from_aux', 'set_aux_from_auxbc', 'aux', s.num_aux)):
            if not num:
                continue
            want = np.array(getattr(s, name))
            box = np.full([num] + full, -77.0, order='F')
            got = getattr(s, get)(g, box)
            require(np.array_equal(got[inner], want), '%s: interior of the ghosted array', get)
            mask = np.ones(got.shape, bool)
            mask[inner] = False
            require((got[mask] == -77.0).all(), '%s wrote into ghost cells', get)
            require(np.array_equal(getattr(s, name), want), '%s changed %s', get, name)
            new = np.arange(box.size, dtype=float).reshape(box.shape)
            box2 = np.array(new, order='F')
            getattr(s, setr)(g, box2)
            require(np.array_equal(getattr(s, name), new[inner]), '%s', setr)
            require(np.array_equal(box2, new), '%s changed the ghosted array', setr)
            box2[...] = -5.0
            require(np.array_equal(getattr(s, name), new[inner]), 'after %s the state shares memory with the ghosted array', setr)
            require(getattr(s, name).flags['F_CONTIGUOUS'], 'after %s the array is not contiguous', setr)
        q = s.get_q_global()
        require(np.array_equal(q, s.q) and not np.shares_memory(q, s.q), 'get_q_global')
        if s.num_aux:
            a = s.get_aux_global()
            require(np.array_equal(a, s.aux) and not np.shares_memory(a, s.aux), 'get_aux_global')
    # every documented way to build a solution
    p = case['patches'][0]
    dims = [pyclaw.Dimension(p['lower'][d], p['lower'][d] + p['len'][d], p['cells'][d], name='xyz'[d])
            for d in range(case['nd'])]
    geom = [dims, tuple(dims), pyclaw.Patch(dims), [pyclaw.Patch(dims)], pyclaw.Domain(dims),
            dims[0] if case['nd'] == 1 else dims][case['ctor']]
    for first in (case['eqn'], (case['eqn'], case['aux'])):
        made = pyclaw.Solution(first, geom)
        require(made.q.shape == (case['eqn'],) + tuple(p['cells']), 'shape %r of a new solution', made.q.shape)
        require(made.num_aux == (case['aux'] if isinstance(first, tuple) else 0), 'aux of a new solution')
        require(len(made.states) == 1 and made.domain.patches[0] is made.state.patch, 'patch of a new solution')
        require(made.t == 0.0 and made.state.index_capa == -1 and made.problem_data == {}, 'defaults of a new solution')
        require(list(made.state.grid.lower) == p['lower'], 'bounds of a new solution')
    ctx.interesting(len(case['patches']) > 1 or case['aux'] > 0)
    ctx.label('%dD' % case['nd'], 'ghost%d' % g, 'ctor%d' % case['ctor'])


# ---- a copy evolves like the original -----------------------------------------
@st.composite
def evolve_st(draw):
    nd = draw(st.sampled_from([1, 1, 2, 3]))
    case = draw(claw.problem_case(nd, cells=(3, 8 if nd == 1 else 5)))   # at least num_ghost (3 for SharpClaw)
    case['cls'] = draw(st.sampled_from(['Claw', 'Claw', 'SharpClaw'])) if zoo.BY_NAME[case['prob']].sharp and nd < 3 else 'Claw'
    case['steps'] = draw(st.integers(1, 3))
    case['pre'] = draw(st.integers(0, 2))
    return case


def check_evolve(case, ctx):
    def solver_for():
        p, solver, sol, params = claw.setup(case, case['cls'])
        solver.cfl_max = 1e6
        solver.cfl_desired = 0.9
        solver.dt_variable = False
        solver.dt = 0.02 * min(l / n for l, n in zip(case['len'], case['cells']))
        if nd > 1 and case['cls'] == 'Claw':
            solver.dimensional_split = True
        return solver, sol
    nd = len(case['cells'])
    solver, sol = solver_for()
    for _ in range(case['pre']):
        solver.evolve_to_time(sol)
    dup = copy.deepcopy(sol)
    q0, a0 = np.array(dup.q), None if dup.aux is None else np.array(dup.aux)
    for _ in range(case['steps']):
        solver.evolve_to_time(sol)
    require(np.array_equal(dup.q, q0) and (a0 is None or np.array_equal(dup.aux, a0)),
            'evolving the original changed the copy')
    final = np.array(sol.q)
    del solver
    solver2, _ = solver_for()
    for _ in range(case['steps']):
        solver2.evolve_to_time(dup)
    require(np.array_equal(np.array(dup.q), final, equal_nan=True), 'the copy evolved differently from the original (%s)', case['prob'])
    require(dup.t == sol.t or abs(dup.t - sol.t) < 1e-14, 'times %r and %r', dup.t, sol.t)
    require(np.array_equal(np.array(sol.q), final, equal_nan=True), 'evolving the copy changed the original')
    ctx.interesting(not np.array_equal(final, q0))
    ctx.label(case['cls'], case['prob'], 'capa' if case['capa'] else 'nocapa')


FAMILIES = [
    Family('copies', sol_st(), check_copy, quick=2000, thorough=60000, shards=3,
           rule='at least one change was made after copying'),
    Family('views', views_st(), check_views, quick=1200, thorough=40000, shards=2,
           rule='several patches or auxiliary fields'),
    Family('evolve', evolve_st(), check_evolve, quick=800, thorough=20000, shards=3,
           rule='the run changed the solution'),
]
