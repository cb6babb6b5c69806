"""C10: limiters obey their definitions; scalar solutions stay bounded."""
import numpy as np

from harness import ref, zoo, claw
from harness.core import Family, Violation, require
from harness.pc import st, floats, data_spec, expand, demand_close

ID = 'C10'
ASSUMPTIONS = ['limiters that depend on the Courant number are called with local Courant numbers between 0.02 and 0.98',
               'total variation: linear advection with the four TVD limiters or first order, and any scalar law at first '
               'order, Courant number at most one']

RS = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 1.0 / 3, 3.0, 1e-8, 1e6, -1e6, 1 + 1e-7, 1 + 1e-3, 1 - 1e-4]),
               floats(-5, 5), floats(0, 1.5), floats(-1e3, 1e3))
CS = floats(0.02, 0.98)


@st.composite
def fun_st(draw):
    if draw(st.integers(0, 19)) == 0:        # as many as a long line of cells has
        return {'meth': draw(st.integers(1, 23)), 'many': draw(st.integers(9, 600)), 'seed': draw(st.integers(0, 10 ** 6))}
    n = draw(st.integers(1, 8))
    return {'meth': draw(st.integers(1, 23)), 'r': [draw(RS) for _ in range(n)], 'c': [draw(CS) for _ in range(n)]}


def check_fun(case, ctx):
    from clawpack.pyclaw.limiters import tvd
    m = case['meth']
    f = tvd.limiter_functions[m]
    if 'many' in case:
        rng = np.random.default_rng(case['seed'])
        r = rng.uniform(-3, 5, case['many']) * 10.0 ** rng.integers(-3, 4, case['many'])
        c = rng.uniform(0.02, 0.98, case['many'])
    else:
        r, c = np.array(case['r']), np.array(case['c'])
    if m in (21, 22):
        keep = r != 0
        r, c = r[keep], c[keep]
        if len(r) == 0:
            return
    r0, c0 = r.copy(), c.copy()
    got = np.asarray(f(r, c))
    require(got.shape == r.shape, 'limiter %d returns shape %s for %d ratios', m, got.shape, len(r))
    require(np.array_equal(r, r0) and np.array_equal(c, c0), 'limiter %d changes its arguments', m)
    want = ref.phi(m, r, c)
    # hyperbee cancels badly next to r = 1
    tol = 1e-12 * (1 + np.abs(want))
    if m == 19:
        with np.errstate(divide='ignore'):
            tol = tol + 1e-13 * np.where(np.abs(r - 1) < 1e-6, 0, (1 + np.abs(r)) / (r - 1) ** 2)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('limiter %d at r=%r, Courant number %r: %r instead of %r' % (m, r[i], c[i], got[i], want[i]))
    # one at a time: no influence of the other elements
    for i in range(min(len(r), 8)):
        one = np.asarray(f(r[i:i + 1].copy(), c[i:i + 1].copy()))
        require(abs(float(one[0]) - float(got[i])) <= tol[i], 'limiter %d at r=%r gives %r alone and %r among others',
                m, r[i], one[0], got[i])
    ctx.label('limiter%d' % m)
    ctx.interesting(len(r) > 1)


@st.composite
def waves_st(draw):
    nw = draw(st.integers(1, 3))
    return {'eqn': draw(st.integers(1, 7)), 'waves': nw, 'n': draw(st.one_of(st.integers(4, 14), st.integers(4, 200))),
            'spread': draw(st.sampled_from([0, 0, 3, 8])),
            'lims': [draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23]))
                     for _ in range(nw)],
            'seed': draw(st.integers(0, 10 ** 6)), 'zeros': draw(st.booleans()), 'ints': draw(st.booleans())}


def check_waves(case, ctx):
    from clawpack.pyclaw.limiters import tvd
    rng = np.random.default_rng(case['seed'])
    n = case['n']          # cells; n-1 interfaces
    shape = (case['eqn'], case['waves'], n - 1)
    wave = rng.integers(-2, 3, shape).astype(float) if case['ints'] else rng.uniform(-1, 1, shape)
    if case['spread']:      # neighbouring waves, and speeds, of very different size
        wave *= 10.0 ** rng.uniform(-case['spread'], case['spread'], (1, 1, n - 1))
    if case['zeros']:
        wave[:, :, rng.integers(0, n - 1)] = 0.0
    s = rng.uniform(0.1, 0.9, (case['waves'], n - 1)) * rng.choice([-1.0, 1.0], (case['waves'], n - 1))
    if case['spread']:
        tiny = 10.0 ** rng.choice([0, 0, -3, -9], (case['waves'], n - 1))
        s *= np.where(np.array(case['lims'])[:, None] < 11, tiny, 1.0)     # the others have the Courant number in a denominator
    dtdx = rng.uniform(0.5, 1.0, n)
    # the model has interface i between cells i-1 and i; here entry k is between k and k+1
    pad = lambda a: np.concatenate([np.zeros(a.shape[:-1] + (1,)), a], axis=-1)
    want = ref.limit_waves(pad(wave), pad(s), case['lims'], 2, n - 2, dtdx)[:, :, 1:]
    got = tvd.limit(case['eqn'], wave.copy(), s.copy(), case['lims'], dtdx.copy())
    if case['spread']:      # each wave to its own size (or what limiting makes of it)
        big = np.abs(wave).max(axis=0)
        size = 1e-10 * np.maximum(np.abs(want).max(axis=0), big)
        size[:, 1:-1] += 1e-13 * np.maximum(big[:, 2:], big[:, :-2])
        bad = np.abs(got - want)[:, :, 1:-1] > size[None, :, 1:-1]
        if bad.any():
            m, k, i = (int(x[0]) for x in np.nonzero(bad))
            raise Violation('limited wave %d (limiter %d) at interface %d: %r instead of %r'
                            % (k, case['lims'][k], i + 1, got[m, k, i + 1], want[m, k, i + 1]))
    else:
        demand_close(got[:, :, 1:-1], want[:, :, 1:-1], 'limited waves', rtol=1e-11, scale=max(1.0, np.abs(want).max()))
    ctx.interesting(any(case['lims']))
    ctx.label(*['limiter%d' % l for l in case['lims']])


# ---- total variation and range
@st.composite
def tvd_st(draw):
    prob = draw(st.sampled_from(['advection_1D', 'py_advection_1D', 'burgers_1D', 'cubic_1D', 'traffic_1D', 'py_burgers_1D']))
    case = draw(claw.problem_case(1, pred=lambda p: p.name == prob, cells=(3, 40), capa=False))
    lin = zoo.BY_NAME[prob].linear
    case['order'] = draw(st.sampled_from([1, 2, 2, 2])) if lin else 1
    case['lim'] = draw(st.integers(1, 4))
    case['nu'] = draw(st.one_of(floats(0.05, 1.0), st.just(1.0)))
    case['steps'] = draw(st.integers(1, 12))
    return case


def tv(q, periodic):
    d = np.abs(np.diff(q))
    return float(d.sum() + (abs(q[0] - q[-1]) if periodic else 0.0))


def check_tvd(case, ctx):
    p, solver, sol, params = claw.setup(case)
    solver.order = case['order']
    solver.limiters = case['lim']
    solver.dt_variable = False
    solver.cfl_max = 1 + 1e-9
    # bound of the characteristic speed on the range of the data
    q = sol.state.q[0]
    a, b = q.min(), q.max()
    m = max(abs(a), abs(b))
    speed = {'advection_1D': abs(params.get('u', 0)), 'py_advection_1D': abs(params.get('u', 0)),
             'burgers_1D': m, 'py_burgers_1D': m, 'cubic_1D': 3 * m * m,
             'traffic_1D': params.get('umax', 0) * max(abs(1 - 2 * a), abs(1 - 2 * b))}[p.name]
    if speed < 1e-3:
        return
    solver.dt = case['nu'] * case['len'][0] / case['cells'][0] / speed
    per = case['bc'][0] == 'periodic'
    last = tv(q, per)
    first = last
    lo, hi = a, b
    for n in range(case['steps']):
        solver.evolve_to_time(sol)
        q = np.array(sol.state.q[0])
        now = tv(q, per)
        eps = 1e-12 * max(1.0, first, m)
        require(now <= last + eps, 'total variation grew from %r to %r in step %d', last, now, n + 1)
        require(q.min() >= lo - eps and q.max() <= hi + eps, 'values [%r, %r] outside the range [%r, %r] of the data',
                q.min(), q.max(), lo, hi)
        last = now
    ctx.interesting(first > 0.01)
    ctx.label(p.name, 'order%d' % case['order'], 'limiter%d' % case['lim'] if case['order'] == 2 else 'first')


FAMILIES = [
    Family('functions', fun_st(), check_fun, quick=4000, thorough=100000, shards=3,
           rule='more than one ratio in the call'),
    Family('waves', waves_st(), check_waves, quick=1500, thorough=50000, shards=2,
           rule='some wave family is limited'),
    Family('tvd', tvd_st(), check_tvd, quick=2000, thorough=60000, shards=3,
           rule='the data have a total variation above 0.01'),
]
