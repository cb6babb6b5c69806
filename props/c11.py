"""C11: grid coordinates always describe the current dimensions (stateful)."""
import numpy as np

from harness.core import Family, Violation, require
from harness.pc import st, floats, demand_close, NAMES

ID = 'C11'
ASSUMPTIONS = ['coordinates are compared to 1e-12 of the extent; mappings are pure functions']

MAPS = {
    'affine': lambda *xs: [2.0 * x + 1.0 for x in xs],
    'shear': lambda *xs: [sum(xs)] + list(xs[1:]),
    'square': lambda *xs: [x * x for x in xs],
}

dim_st = st.tuples(floats(-1e3, 1e3), floats(1e-3, 1e3), st.integers(1, 7)).map(list)

QUERIES = ['dim_centers', 'dim_nodes', 'dim_centers_g', 'dim_nodes_g', 'c_centers', 'c_nodes', 'p_centers', 'p_nodes',
           'c_centers_g', 'c_nodes_g', 'p_centers_g', 'p_nodes_g', 'c_center', 'p_center', 'centers', 'nodes', 'counts', 'edges']
op_st = st.one_of(
    st.tuples(st.just('lower'), st.integers(0, 2), floats(1e-3, 1e3)),
    st.tuples(st.just('upper'), st.integers(0, 2), floats(1e-3, 1e3)),
    st.tuples(st.just('cells'), st.integers(0, 2), st.integers(1, 9)),
    st.tuples(st.just('map'), st.sampled_from(sorted(MAPS)), st.just(0)),
    st.tuples(st.just('add'), dim_st, st.just(0)),
    st.tuples(st.just('dup'), st.just(0), st.just(0)),
    st.tuples(st.just('q'), st.sampled_from(QUERIES), st.integers(0, 1000)),
    st.tuples(st.just('q'), st.sampled_from(QUERIES), st.integers(0, 1000)),
    st.tuples(st.just('q'), st.sampled_from(QUERIES), st.integers(0, 1000)),
).map(list)

case_st = st.fixed_dictionaries({
    'via': st.sampled_from(['grid', 'domain_dims', 'domain_lists', 'patch']),
    'dims': st.lists(dim_st, min_size=1, max_size=3),
    'ops': st.lists(op_st, min_size=1, max_size=14)})


class Model:
    def __init__(self, dims):
        self.d = [list(d) for d in dims]  # lower, upper, n
        self.map = None

    def delta(self, i):
        lo, up, n = self.d[i]
        return (up - lo) / n

    def centers(self, i, g=0):
        lo, up, n = self.d[i]
        return lo + (np.arange(-g, n + g) + 0.5) * ((up - lo) / n)

    def nodes(self, i, g=0):
        lo, up, n = self.d[i]
        return lo + np.arange(-g, n + g + 1) * ((up - lo) / n)

    def mesh(self, what, g=0):
        return np.meshgrid(*[getattr(self, what)(i, g) for i in range(len(self.d))], indexing='ij')

    def mapped(self, arrs):
        return arrs if self.map is None else MAPS[self.map](*arrs)


def scale_of(m):
    return max(max(abs(d[0]), abs(d[1]), (d[1] - d[0]) / d[2] * 20) for d in m.d)


def cmp_list(got, want, what, m, mapped=False):
    require(len(got) == len(want), '%s: %d arrays for %d dimensions', what, len(got), len(want))
    s = scale_of(m)
    if mapped:
        s = max([s] + [np.abs(w).max() for w in want])
    for i, (a, b) in enumerate(zip(got, want)):
        demand_close(a, b, '%s[%d]' % (what, i), rtol=1e-12, scale=s)


def query(grid, m, q, arg):
    g = arg % 4 if arg % 3 else arg % 11
    nd = len(m.d)
    i = arg % nd
    dim = grid.dimensions[i]
    if q == 'dim_centers':
        demand_close(dim.centers, m.centers(i), q, scale=scale_of(m))
    elif q == 'dim_nodes':
        demand_close(dim.nodes, m.nodes(i), q, scale=scale_of(m))
    elif q == 'dim_centers_g':
        demand_close(dim.centers_with_ghost(g), m.centers(i, g), q, scale=scale_of(m))
    elif q == 'dim_nodes_g':
        demand_close(dim.nodes_with_ghost(g), m.nodes(i, g), q, scale=scale_of(m))
    elif q == 'c_centers':
        cmp_list(grid.c_centers, m.mesh('centers'), q, m)
    elif q == 'c_nodes':
        cmp_list(grid.c_nodes, m.mesh('nodes'), q, m)
    elif q == 'p_centers':
        cmp_list(grid.p_centers, m.mapped(m.mesh('centers')), q, m, True)
    elif q == 'p_nodes':
        cmp_list(grid.p_nodes, m.mapped(m.mesh('nodes')), q, m, True)
    elif q == 'c_centers_g':
        cmp_list(grid.c_centers_with_ghost(g), m.mesh('centers', g), q, m)
    elif q == 'c_nodes_g':
        cmp_list(grid.c_nodes_with_ghost(g), m.mesh('nodes', g), q, m)
    elif q == 'p_centers_g':
        cmp_list(grid.p_centers_with_ghost(g), m.mapped(m.mesh('centers', g)), q, m, True)
    elif q == 'p_nodes_g':
        cmp_list(grid.p_nodes_with_ghost(g), m.mapped(m.mesh('nodes', g)), q, m, True)
    elif q in ('c_center', 'p_center'):
        ind = [(arg * (k + 3) + k) % m.d[k][2] for k in range(nd)]
        want = [m.centers(k)[ind[k]] for k in range(nd)]
        s = scale_of(m)
        if q == 'p_center':
            want = m.mapped([np.asarray(w) for w in want])
            s = max([s] + [abs(float(w)) for w in want])
        got = getattr(grid, q)(ind)
        demand_close(np.asarray(got, dtype=float), np.asarray(want, dtype=float), '%s(%s)' % (q, ind), scale=s)
    elif q == 'centers':
        cmp_list(grid.centers, [m.centers(k) for k in range(nd)], q, m)
    elif q == 'nodes':
        cmp_list(grid.nodes, [m.nodes(k) for k in range(nd)], q, m)
    elif q == 'counts':
        counts(grid, m)
    elif q == 'edges':
        # the former names of nodes
        demand_close(dim.edges, m.nodes(i), q, scale=scale_of(m))
        demand_close(dim.edges_with_ghost(g), m.nodes(i, g), q, scale=scale_of(m))
        cmp_list(grid.c_edges, m.mesh('nodes'), q, m)
        cmp_list(grid.p_edges, m.mapped(m.mesh('nodes')), q, m, True)
        cmp_list(grid.c_edges_with_ghost(g), m.mesh('nodes', g), q, m)
        cmp_list(grid.p_edges_with_ghost(g), m.mapped(m.mesh('nodes', g)), q, m, True)


def counts(grid, m):
    nd = len(m.d)
    require(grid.num_dim == nd, 'num_dim %s, expected %d', grid.num_dim, nd)
    require(list(grid.num_cells) == [d[2] for d in m.d], 'num_cells %s, expected %s', grid.num_cells, [d[2] for d in m.d])
    require(list(grid.lower) == [d[0] for d in m.d], 'lower %s', grid.lower)
    require(list(grid.upper) == [d[1] for d in m.d], 'upper %s', grid.upper)
    demand_close(grid.delta, [m.delta(i) for i in range(nd)], 'delta', scale=max(m.delta(i) for i in range(nd)))
    require([d.name for d in grid.dimensions] == list(NAMES[:nd]), 'names %s', [d.name for d in grid.dimensions])
    require([len(d) for d in grid.dimensions] == [d[2] for d in m.d], 'len(dimension)')


def check(case, ctx):
    from clawpack import pyclaw
    dims = [[lo, lo + w, n] for lo, w, n in case['dims']]
    if any(not d[1] > d[0] for d in dims):
        return
    m = Model(dims)
    patch = domain = None

    def mk(d, i):
        return pyclaw.Dimension(d[0], d[1], d[2], name=NAMES[i])
    objs = [mk(d, i) for i, d in enumerate(dims)]
    if case['via'] == 'grid':
        grid = pyclaw.geometry.Grid(objs if len(objs) > 1 else objs[0])
    elif case['via'] == 'patch':
        patch = pyclaw.Patch(objs if len(objs) > 1 else objs[0])
        grid = patch.grid
    elif case['via'] == 'domain_dims':
        domain = pyclaw.Domain(objs)
        patch, grid = domain.patch, domain.grid
    else:
        domain = pyclaw.Domain([d[0] for d in dims], [d[1] for d in dims], [d[2] for d in dims])
        patch, grid = domain.patch, domain.grid
    require(domain is None or (domain.num_dim == len(dims) and len(domain.patches) == 1), 'domain shape')
    seen_q = changed_after_q = False
    for op, a, b in case['ops']:
        nd = len(m.d)
        if op in ('lower', 'upper', 'cells'):
            i = a % nd
            tgt = grid.dimensions[i] if b != int(b) or patch is None else getattr(patch, NAMES[i])
            if op == 'lower':
                v = m.d[i][1] - b
                if not v < m.d[i][1]:
                    continue
                tgt.lower = v
                m.d[i][0] = v
            elif op == 'upper':
                v = m.d[i][0] + b
                if not v > m.d[i][0]:
                    continue
                tgt.upper = v
                m.d[i][1] = v
            else:
                tgt.num_cells = b
                m.d[i][2] = b
            changed_after_q |= seen_q
            ctx.label('mutate_' + op)
        elif op == 'map':
            grid.mapc2p = MAPS[a]
            m.map = a
            changed_after_q |= seen_q
            ctx.label('map')
        elif op == 'add':
            if nd >= 3 or case['via'] != 'grid':
                continue
            d = [a[0], a[0] + a[1], a[2]]
            if not d[1] > d[0]:
                continue
            grid.add_dimension(mk(d, nd))
            m.d.append(d)
            m.map = None
            changed_after_q |= seen_q
            ctx.label('add_dimension')
        elif op == 'dup':
            try:
                grid.add_dimension(pyclaw.Dimension(0., 1., 3, name='x'))
            except Exception:
                pass
            else:
                raise Violation('a second dimension named x was accepted')
        else:
            seen_q = True
            ctx.label('after_change' if changed_after_q else 'before_change')
            query(grid, m, a, b)
        counts(grid, m)
        if patch is not None:
            require(list(patch.num_cells_global) == [d[2] for d in m.d] and list(patch.lower_global) == [d[0] for d in m.d]
                    and list(patch.upper_global) == [d[1] for d in m.d] and list(patch.name) == list(NAMES[:len(m.d)])
                    and list(patch.delta) == list(grid.delta) and patch.num_dim == len(m.d),
                    'patch disagrees with its grid')
    for q in QUERIES:
        query(grid, m, q, case['ops'][0][2] if isinstance(case['ops'][0][2], int) else 1)
    ctx.interesting(changed_after_q)


FAMILIES = [
    Family('history', case_st, check, quick=6000, thorough=60000, shards=8,
           rule='mutation/query history of a 1-3D grid; non-trivial = a dimension, mapping or dimension list is changed '
                'after some coordinate was queried',
           explicit=[
               {'via': 'grid', 'dims': [[0.0, 1.0, 5]], 'ops': [['q', 'c_centers', 0], ['upper', 0, 2.0], ['q', 'dim_centers', 0], ['q', 'c_centers', 0]]},
               {'via': 'grid', 'dims': [[0.0, 1.0, 5]], 'ops': [['q', 'p_nodes', 0], ['upper', 0, 2.0], ['q', 'c_nodes', 0], ['q', 'p_nodes', 0]]},
               {'via': 'grid', 'dims': [[0.0, 1.0, 5], [0.0, 1.0, 4]], 'ops': [['q', 'c_center', 7]]},
           ]),
]
