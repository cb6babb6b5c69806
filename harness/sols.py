"""Generated multi-patch solutions for the input/output checks."""
import numpy as np

from harness.pc import st, expand, KINDS

EXTREME = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 5e-324, 2.5e-310, 1.7976931348623157e308, -1e300, 123456789.123456789,
           0.1, -1.0 / 3.0, 9.9999999999, 1e-5, 99999.99999999, -2.0 ** 0.5, 1e16 + 2]


def values(spec, shape):
    """An array of finite floats: generated shapes of data, or a mix of extreme magnitudes."""
    if spec['kind'] == 'extreme':
        rng = np.random.default_rng(spec['seed'])
        a = rng.choice(EXTREME, size=shape)
        m = rng.uniform(-1, 1, size=shape) * 10.0 ** rng.integers(-300, 300, size=shape)
        return np.where(rng.uniform(size=shape) < 0.4, a, m)
    if spec['kind'] == 'zero':          # nothing, or nothing but one component
        a = np.zeros(shape)
        if spec['seed'] % 2:
            a[spec['seed'] % shape[0]] = 1.0 + spec['seed'] % 5
        return a
    if spec['kind'] == 'count':
        return np.arange(1, 1 + int(np.prod(shape)), dtype=float).reshape(shape) * (1 + spec['seed'] % 3)
    return expand(spec, shape, -3.0, 7.0)


def value_spec():
    return st.fixed_dictionaries({'kind': st.sampled_from(KINDS + ['extreme', 'extreme', 'count', 'count', 'zero']),
                                  'seed': st.integers(0, 10 ** 6)})


def fortran_map(x, y=None, z=None):
    return [2 * v for v in (x, y, z) if v is not None]


@st.composite
def spec_st(draw, nd=None, max_patches=4, max_cells=6, max_eqn=9, max_aux=6):
    nd = nd or draw(st.integers(1, 3))
    npatch = draw(st.integers(1, max_patches))
    if nd == 3:
        max_cells = min(max_cells, 4)
    idx = draw(st.lists(st.integers(0, 130), min_size=npatch, max_size=npatch, unique=True))
    order = draw(st.sampled_from(['asc', 'any', 'seq']))
    if order == 'asc':
        idx = sorted(idx)
    elif order == 'seq':
        idx = list(range(1, npatch + 1))
    num = st.one_of(st.sampled_from([0.0, 1.0, -1.5, 2.25, 1e-3, 1e6, -123.456, 1.0 / 3]),
                    st.floats(-1e4, 1e4, allow_nan=False))
    cells = st.one_of(*[st.integers(1, max_cells)] * 12, st.sampled_from([10, 51, 101] if nd < 3 else [5, 11]))
    if draw(st.integers(0, 9)) == 0:
        idx = [i * 997 + (i > 60) * 100000 for i in idx]
    length = st.one_of(st.sampled_from([0.5, 1.0, 3.0, 1.0 / 7, 1e-3]), st.floats(1e-2, 1e3))
    return {
        'nd': nd, 'eqn': draw(st.one_of(st.integers(1, min(4, max_eqn)), st.integers(1, min(4, max_eqn)), st.integers(1, max_eqn))),
        'aux': draw(st.one_of(st.integers(0, min(3, max_aux)), st.integers(0, min(3, max_aux)), st.integers(0, max_aux))),
        'patches': [{'cells': [draw(cells) for _ in range(nd)],
                     'lower': [draw(num) for _ in range(nd)], 'len': [draw(length) for _ in range(nd)],
                     'level': draw(st.integers(1, 12)), 'index': idx[k]} for k in range(npatch)],
        'q': draw(value_spec()), 'auxv': draw(value_spec()),
        't': draw(st.one_of(st.sampled_from([0.0, 1.5, 1e-12, 0.1, 1e9, 123456.789, -2.5]), st.floats(-1e6, 1e6))),
        'params': draw(st.dictionaries(st.sampled_from(['u', 'rho', 'list', 'efix']), st.integers(-3, 3), max_size=3)),
        'map': draw(st.booleans()),
    }


def param_value(key, v):
    return {'u': v + 0.25, 'rho': v, 'list': [v, {'a': v}], 'efix': v > 0}[key]


def build(spec):
    from clawpack import pyclaw
    states = []
    for k, p in enumerate(spec['patches']):
        dims = [pyclaw.Dimension(p['lower'][d], p['lower'][d] + p['len'][d], p['cells'][d], name=spec.get('names', 'xyz')[d])
                for d in range(spec['nd'])]
        patch = pyclaw.Patch(dims)
        patch.level = p['level']
        patch.patch_index = p['index']
        s = pyclaw.State(patch, spec['eqn'], spec['aux'])
        s.q[...] = values(dict(spec['q'], seed=spec['q']['seed'] + k), s.q.shape)
        if spec['aux']:
            s.aux[...] = values(dict(spec['auxv'], seed=spec['auxv']['seed'] + 17 + k), s.aux.shape)
        s.t = spec['t']
        for key, v in spec['params'].items():
            s.problem_data[key] = param_value(key, v)
        if spec['map']:
            s.grid.mapc2p = fortran_map
        states.append(s)
    return pyclaw.Solution(states, pyclaw.Domain([s.patch for s in states]))


def bits(a):
    return None if a is None else np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes()


def snapshot(sol):
    """Everything observable of a solution and its identity structure, exactly."""
    out = []
    for s in sol.states:
        g = s.patch.grid
        out.append((id(s), id(s.q), id(s.aux), id(s.patch), s.q.shape, s.q.dtype.str, bits(s.q), bits(s.aux), bits(s.p), bits(s.F), s.t,
                    repr(s.problem_data), s.index_capa, s.patch.level, s.patch.patch_index, s.num_eqn, s.num_aux,
                    [(d.name, d.lower, d.upper, d.num_cells, d.delta, d.units) for d in s.patch.dimensions],
                    [(d.name, d.lower, d.upper, d.num_cells, d.delta) for d in g.dimensions], g.mapc2p,
                    s.q.flags['F_CONTIGUOUS'], list(map(repr, s.gauge_data)), s.keep_gauges))
    return (id(sol.domain), [id(p) for p in sol.domain.patches], out, sol.start_frame)
