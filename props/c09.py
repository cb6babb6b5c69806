"""C09: SharpClaw evaluates the documented semi-discretisation."""
import numpy as np

from harness import weno, zoo, claw, runs, ref
from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, floats, worst

ID = 'C09'
ASSUMPTIONS = ['the Riemann solvers of clawpack.riemann are trusted (the model calls the same ones)',
               'the weights of a WENO reconstruction are compared up to the rounding of the smoothness indicators, whose effect is '
               'measured with the model']


# --------------------------------------------------------------------------
#  model of dt * dq/dt on one line
# --------------------------------------------------------------------------
def riemann(p, params, axis, left, right, auxl, auxr, mbc):
    """Waves, speeds, fluctuations of the problems (left[:, i], right[:, i])."""
    if p.language == 'Python':
        w, s, am, ap = p.module()(left, right, auxl, auxr, params)
        return w, s, am, ap
    m = p.module()
    f = m.rp1 if p.nd == 1 else (m.rpn2 if p.nd == 2 else m.rpn3)
    # entry i of the arrays of the compiled solver is (qr[i-1], ql[i])
    n = left.shape[1] + 1
    pad = lambda a, first: np.concatenate([a[:, :1], a], axis=1) if first else np.concatenate([a, a[:, -1:]], axis=1)
    ql, qr = pad(right, True), pad(left, False)
    al = ar = None
    if auxl is not None:
        al, ar = pad(auxr, True), pad(auxl, False)
    w, s, am, ap = zoo.rpn(f, ql, al, p.waves, None if p.nd == 1 else axis + 1, mbc=mbc, qr=qr, auxr=ar)
    return w[..., 1:], s[:, 1:], am[:, 1:], ap[:, 1:]


def limiter(kind, r):
    c = (1 + r) / 2
    if kind == 1:
        return np.maximum(0, np.minimum(1, r))
    if kind == 2:
        return np.maximum(0, np.maximum(np.minimum(1, 2 * r), np.minimum(2, r)))
    if kind == 3:
        return (r + np.abs(r)) / (1 + np.abs(r))
    if kind == 4:
        return np.maximum(0, np.minimum(c, np.minimum(2, 2 * r)))
    raise ValueError(kind)


def slopes(a, b, kind):
    """Limited difference in a cell with differences a to the left and b to the right."""
    with np.errstate(all='ignore'):
        r = np.where(a != 0, b / np.where(a == 0, 1.0, a), 0.0)
        return np.where(a != 0, limiter(kind, r) * a, 0.0)


def pick(lims, m):
    return lims[m] if isinstance(lims, list) else lims


def reconstruct(opt, p, params, axis, q, aux, mbc, noise):
    kind = opt['lim_type']
    if opt.get('char', 0) == 1:
        return by_waves(opt, p, params, axis, q, aux, mbc, noise)
    if kind == -1:
        return q.copy(), q.copy()
    if kind == 1:
        ql, qr = q.copy(), q.copy()
        d = np.diff(q, axis=1)
        for m in range(q.shape[0]):
            half = 0.5 * slopes(d[m, :-1], d[m, 1:], pick(opt['lims'], m))
            ql[m, 1:-1] -= half
            qr[m, 1:-1] += half
        return ql, qr
    k = (opt['weno'] + 1) // 2 if kind == 2 else 3
    return weno.edges(q, k, noise)


def by_waves(opt, p, params, axis, q, aux, mbc, noise):
    """Reconstruction of the waves (whose sum is the jump) instead of the components; waves of one family are projected onto
    the one at the interface."""
    al = None if aux is None else aux[:, :-1]
    ar = None if aux is None else aux[:, 1:]
    w, s, _, _ = riemann(p, params, axis, q[:, :-1], q[:, 1:], al, ar, mbc)
    n = w.shape[2]                          # interface i is between cells i and i+1
    ql, qr = q.copy(), q.copy()
    # the compiled routine takes the central part of the reconstruction from the components
    central = p.language != 'Python' and opt['lim_type'] == 2 and not p.fwave
    if p.fwave:
        w = w / s
    norm = np.einsum('mpi,mpi->pi', w, w)
    for i in range(2, n - 2):
        if central:
            qr[:, i] = ql[:, i + 1] = (7 * (q[:, i] + q[:, i + 1]) - q[:, i - 1] - q[:, i + 2]) / 12
        for fam in range(p.waves):
            wi = w[:, fam, i]
            if norm[fam, i] <= (1e-14 if opt['lim_type'] == 2 else 0.0):    # no direction to project onto
                continue
            t = {k: float(w[:, fam, i + k] @ wi) / norm[fam, i] for k in (-2, -1, 1, 2)}
            if opt['lim_type'] == 1:
                r = t[-1] if s[fam, i] > 0 else t[1]
                phi = limiter(pick(opt['lims'], fam), np.float64(r))
                qr[:, i] += 0.5 * phi * wi
                ql[:, i + 1] -= 0.5 * phi * wi
            else:
                up = weno.offset([np.float64(t[-2]), np.float64(t[-1]), np.float64(1.0), np.float64(t[1])], noise)
                dn = weno.offset([np.float64(-t[2]), np.float64(-t[1]), np.float64(-1.0), np.float64(-t[-1])], noise)
                mid = (t[-1] + 6 - t[1]) / 12, (t[1] + 6 - t[-1]) / 12
                qr[:, i] += (up - mid[0] * central) * wi
                ql[:, i + 1] += (dn + mid[1] * central) * wi
    return ql, qr


def line(opt, p, params, axis, q, aux, capa, dt, dx, g, noise):
    """dt*dq/dt of the cells inside, and the largest Courant number."""
    n = q.shape[1] - 2 * g
    ql, qr = reconstruct(opt, p, params, axis, q, aux, g, noise)
    # cells g-1 .. g+n
    sl = slice(g - 1, g + n + 1)
    L, R = ql[:, sl], qr[:, sl]
    a = None if aux is None else aux[:, sl]
    lam = dt / (dx * (capa[sl] if capa is not None else np.ones(n + 2)))
    cut = lambda x, a_, b_: None if x is None else x[:, a_:b_]
    _, s, am, ap = riemann(p, params, axis, R[:, :-1], L[:, 1:], cut(a, 0, -1), cut(a, 1, None), 1)
    cfl = max(float((lam[1:] * s).max()), float((-lam[:-1] * s).max()), 0.0)
    _, _, am2, ap2 = riemann(p, params, axis, L[:, 1:-1], R[:, 1:-1], cut(a, 1, -1), cut(a, 1, -1), 1)
    return -lam[1:-1] * (ap[:, :-1] + am[:, 1:] + am2 + ap2), cfl


def operator(case, p, params, q, aux, dt, d, noise=None):
    opt = case['opt']
    g = (opt['weno'] + 1) // 2 if opt['lim_type'] == 2 else case.get('ghost', 3)
    g = max(g, 3)
    qb = claw.ghosted(q, case['bc'], g, p.reflect)
    ab = claw.ghosted(aux, case['bc'], g) if aux is not None else None
    total = np.zeros_like(q)
    cfl = 0.0
    nd = p.nd
    for axis in range(nd):
        others = [a for a in range(nd) if a != axis]
        for idx in np.ndindex(*[q.shape[1 + a] for a in others]):
            full = [slice(None)] * (nd + 1)
            inner = [slice(None)] * (nd + 1)
            for a, i in zip(others, idx):
                full[1 + a] = i + g
                inner[1 + a] = i
            q1 = qb[tuple(full)]
            a1 = ab[tuple(full)] if ab is not None else None
            capa = a1[p.naux] if case['capa'] else None
            dq, c = line(opt, p, params, axis, q1, a1, capa, dt, d[axis], g, noise)
            total[tuple(inner)] += dq
            cfl = max(cfl, c)
    return total, cfl


# --------------------------------------------------------------------------
@st.composite
def case_st(draw, nd, char=False):
    # the speeds of kpp_2D are quotients of differences, mere rounding where the data are constant
    pred = (lambda p: p.linear and p.sharp) if char else (lambda p: p.sharp and p.name != 'kpp_2D')
    if char:
        names = [n for n in claw.names(nd, pred) if zoo.BY_NAME[n].naux == 0 or zoo.BY_NAME[n].language == 'Python']
        py = [n for n in claw.names(nd, lambda p: p.sharp and p.language == 'Python')]
        fw = ['nonlinear_elasticity_fwave_1D'] * 2
        name = draw(st.sampled_from(names + py + fw))
        case = draw(runs.run_st(nd=nd, pred=lambda p: p.name == name, sharp=True, any_sharp=True, integrators=('Euler',), max_steps=1))
        case['opt']['char'] = 1
        case['opt']['lim_type'] = 2 if zoo.BY_NAME[name].language == 'Python' or name in fw else draw(st.sampled_from([1, 2]))
        case['opt']['weno'] = 5
        case['opt']['lims'] = draw(st.sampled_from([1, 2, 3, 4]))
    else:
        case = draw(runs.run_st(nd=nd, pred=pred, sharp=True, integrators=('Euler',), max_steps=1))
    if case['opt']['lim_type'] == 1 and draw(st.booleans()):
        # a limiter for every component, or every wave
        p = zoo.BY_NAME[case['prob']]
        n = p.waves if char else p.eqn
        case['opt']['lims'] = [draw(st.sampled_from([1, 2, 3, 4])) for _ in range(n)]
    case['rate'] = draw(st.integers(0, 3)) == 0
    return case


@st.composite
def tfluct_st(draw):
    """A solver for the total fluctuation in each cell, instead of another Riemann problem, makes no difference."""
    case = draw(runs.run_st(nd=1, pred=lambda p: p.name == 'euler_with_efix_1D', sharp=True, integrators=('Euler',), max_steps=1))
    case['tfluct'] = True
    return case


def check(case, ctx):
    p = zoo.BY_NAME[case['prob']]
    dt = runs.pick_dt(case, builder=build)
    prob, solver, sol, params = build(case)
    state = sol.state
    if p.language != 'Python':
        ref.set_params(p, params)
    q = np.array(state.q)
    aux = None if state.num_aux == 0 else np.array(state.aux)
    d = [case['len'][k] / case['cells'][k] for k in range(p.nd)]
    solver.dt = dt
    if case.get('rate'):
        # the same operator as a rate of change, in one vector (for time integrators from elsewhere)
        solver.setup(sol)
        solver.cfl.set_global_max(0.0)
        rate = solver.dqdt(state)
        require(np.array_equal(np.array(state.q), q), 'dqdt changes the solution')
        require(rate.shape == (q.size,), 'dqdt has shape %s', rate.shape)
        got = q + dt * rate.reshape(q.shape, order='F')
        # a source term is part of it
        src, calls = np.random.default_rng(7).uniform(-1, 1, q.shape), []

        def dq_src(solver_, state_, dt_):
            calls.append((solver_ is solver, np.array_equal(state_.q, q)))
            return dt_ * src
        solver.dq_src = dq_src
        both = solver.dqdt(state).reshape(q.shape, order='F')
        require(calls == [(True, True)], 'dqdt calls the source term with %r', calls)
        demand = 1e-12 * (1 + np.abs(got - q).max() / dt)
        require(np.all(np.abs(both - rate.reshape(q.shape, order='F') - src) <= demand) or not np.isfinite(both).all(),
                'dqdt with a source term is not the sum of both')
        solver.dq_src = None
        solver.cfl.set_global_max(dt * solver.cfl.get_cached_max())
    else:
        solver.evolve_to_time(sol)
        got = np.array(state.q)
    if p.language != 'Python':
        ref.set_params(p, params)
    want, cflw = operator(case, p, params, q, aux, dt, d)
    want = q + want
    if not np.isfinite(want).all():
        return
    scale = max(np.abs(q).max(), np.abs(want).max(), 1e-300)
    cfl = solver.cfl.get_cached_max()
    tol, ctol = 1e-12 * scale * p.nd, 1e-12 * max(cflw, 1e-300)
    if case['opt'].get('char') and small_waves(case, p, params, q, aux):
        return
    n = 0
    while not (np.all(np.abs(got - want) <= tol) and abs(cfl - cflw) <= ctol):
        if n == 6:
            raise Violation('%s: q + dt*dq/dt %s (allowed %.2g); Courant number %r, model %r (allowed %.2g)'
                            % (p.name, worst(got, want), tol, cfl, cflw, ctol))
        rng = np.random.default_rng(n)
        q2 = q * (1 + 3e-16 * rng.choice([-1.0, 1.0], q.shape))
        w2, c2 = operator(case, p, params, q2, aux, dt, d, rng)
        if np.isfinite(w2).all():
            tol = max(tol, 20 * np.abs(q2 + w2 - want).max())
            ctol = max(ctol, 20 * abs(c2 - cflw))
        n += 1
    ctx.interesting(np.abs(want - q).max() > 1e-6 * scale)
    ctx.label(*runs.labels(case), 'capa' if case['capa'] else 'nocapa', *['bc_' + b for b in case['bc']])


def small_waves(case, p, params, q, aux):
    """Waves with a square norm below 1e-14 are dropped by the wave-based WENO reconstructions: are there any so close to that
    (or, for TVD, to zero) that rounding decides?"""
    lo, hi = (0.5e-14, 2e-14) if case['opt']['lim_type'] == 2 else (0.0, 1e-28)
    qb = claw.ghosted(q, case['bc'], 3, p.reflect)
    ab = claw.ghosted(aux, case['bc'], 3) if aux is not None else None
    for axis in range(p.nd):
        lines = np.moveaxis(qb, axis + 1, -1).reshape(q.shape[0], -1, qb.shape[axis + 1])
        al = None if ab is None else np.moveaxis(ab, axis + 1, -1).reshape(ab.shape[0], -1, ab.shape[axis + 1])
        for k in range(lines.shape[1]):
            l = lines[:, k]
            w, s, _, _ = riemann(p, params, axis, l[:, :-1], l[:, 1:], None if al is None else al[:, k, :-1],
                                 None if al is None else al[:, k, 1:], 3)
            if p.fwave:
                w = w / s
            n2 = np.einsum('mpi,mpi->pi', w, w)
            if np.any((n2 > lo) & (n2 < hi)):
                return True
    return False


def build(case, amp=0.4):
    prob, solver, sol, params = runs.build(case, amp)
    if case['opt'].get('char'):
        solver.char_decomp = 1
    if case.get('tfluct'):
        from clawpack.pyclaw.sharpclaw import euler_tfluct1
        solver.tfluct_solver = True
        solver.tfluct = euler_tfluct1
    return prob, solver, sol, params


# --------------------------------------------------------------------------
#  exactness for polynomials: the design order
# --------------------------------------------------------------------------
@st.composite
def poly_st(draw):
    k = draw(st.integers(3, 9))
    return {'k': k, 'n': draw(st.integers(2 * k + 1, 2 * k + 8)), 'seed': draw(st.integers(0, 10 ** 6)), 'deg': k - 1 - draw(st.integers(0, k - 1)),
            'u': draw(st.sampled_from([1.0, -1.0])), 'axis': draw(st.sampled_from([None, 0, 1]))}


def poly_check(case, ctx):
    """Averages of a polynomial of degree < k are reconstructed exactly whatever the weights are: for advection, dq/dt of the
    cells away from the boundary is the exact difference of the point values at the edges."""
    from clawpack import pyclaw, riemann as rm
    from harness.pc import make_domain
    k, n, deg = case['k'], case['n'], case['deg']
    rng = np.random.default_rng(case['seed'])
    co = rng.uniform(-1, 1, deg + 1)
    P = np.polynomial.polynomial
    edges = np.linspace(-1, 1, n + 1)
    I = P.polyval(edges, P.polyint(co))
    dx = 2.0 / n
    avg = np.diff(I) / dx
    pt = P.polyval(edges, co)
    want = -case['u'] * np.diff(pt) / dx
    ax = case['axis']
    if ax is None:
        solver = pyclaw.SharpClawSolver1D(rm.advection_1D)
        dom = make_domain([-1.0], [1.0], [n])
        data = avg[None]
    else:
        solver = pyclaw.SharpClawSolver2D(rm.advection_2D)
        cells = [k + 1, k + 1]
        cells[ax] = n
        low, up = [0.0, 0.0], [1.0, 1.0]
        low[ax], up[ax] = -1.0, 1.0
        dom = make_domain(low, up, cells)
        data = np.empty([1] + cells)
        data[0] = avg[:, None] if ax == 0 else avg[None, :]
    solver.num_eqn = solver.num_waves = 1
    solver.all_bcs = pyclaw.BC.extrap
    solver.weno_order = 2 * k - 1
    solver.time_integrator = 'Euler'
    solver.dt_variable, solver.cfl_max, solver.cfl_desired = False, 1e6, 0.9
    state = pyclaw.State(dom, 1)
    state.problem_data.update(u=case['u'], v=0.0)
    if ax == 1:
        state.problem_data.update(u=0.0, v=case['u'])
    state.q[...] = data
    sol = pyclaw.Solution(state, dom)
    dt = 0.25 * dx
    solver.dt = dt
    solver.evolve_to_time(sol)
    rate = (np.array(state.q) - data) / dt
    r = rate[0] if ax is None else (rate[0][:, 0] if ax == 0 else rate[0][0, :])
    if ax is not None:
        require(np.abs(rate[0] - (r[:, None] if ax == 0 else r[None, :])).max() <= 1e-9 * (1 + np.abs(r).max()),
                'advection along one axis depends on the position along the other')
    inner = slice(k, n - k)
    if n - 2 * k < 1:
        return
    err = np.abs(r[inner] - want[inner]).max()
    big = np.abs(avg).max() / dx * 2.0 ** (2 * k) * 1e-16 * 50
    require(err <= big + 1e-11, 'order %d: the derivative of a polynomial of degree %d is wrong by %.3g', 2 * k - 1, deg, err)
    ctx.interesting(deg >= 2)
    ctx.label('k%d' % k, 'deg%d' % deg, 'axis%s' % ax)


# --------------------------------------------------------------------------
#  the reconstruction functions themselves
# --------------------------------------------------------------------------
@st.composite
def recon_st(draw):
    which = draw(st.sampled_from(['recon', 'recon', 'pyweno']))
    k = 3 if which == 'recon' else draw(st.integers(3, 9))
    return {'which': which, 'k': k, 'n': draw(st.integers(4 * k, 4 * k + 10)), 'm': draw(st.integers(1, 3)), 'q': draw(data_spec()),
            'scale': draw(st.sampled_from([1.0, 1e-3, 100.0]))}


def pyweno(q, k):
    """The compiled functions of limiters.weno.reconstruct."""
    from clawpack.pyclaw.limiters.weno import reconstruct as r
    out = []
    for side in ('left', 'right'):
        res = np.zeros(q.shape)
        for m in range(q.shape[0]):
            sigma, w = np.zeros((q.shape[1], k)), np.zeros((q.shape[1], k))
            getattr(r, 'smoothness_k%d' % k)(q[m], sigma)
            getattr(r, 'weights_%s_k%d' % (side, k))(sigma, w)
            getattr(r, 'reconstruct_%s_k%d' % (side, k))(q[m], w, res[m])
        out.append(res)
    return out


def recon_check(case, ctx):
    k, n = case['k'], case['n']
    q = case['scale'] * expand(case['q'], (case['m'], n))
    keep = q.copy()
    if case['which'] == 'recon':
        from clawpack.pyclaw.limiters import recon
        ql, qr = recon.weno(5, q)
        lo, hi = 3, n - 3
    else:
        ql, qr = pyweno(q, k)
        lo, hi = k, n - k
    require(np.array_equal(q, keep), 'the reconstruction changes its argument')
    wl, wr = weno.edges(q, k)
    tol = 1e-12 * np.abs(q).max()
    for j in range(6):
        if all(np.all(np.abs(a - b)[:, lo:hi] <= tol) for a, b in ((ql, wl), (qr, wr))):
            break
        rng = np.random.default_rng(j)
        l2, r2 = weno.edges(q * (1 + 3e-16 * rng.choice([-1.0, 1.0], q.shape)), k, rng)
        tol = max(tol, 20 * np.abs(l2 - wl).max(), 20 * np.abs(r2 - wr).max())
    for name, a, b in (('left', ql, wl), ('right', qr, wr)):
        if not np.all(np.abs(a - b)[:, lo:hi] <= tol):
            raise Violation('%s WENO%d, %s edges: %s' % (case['which'], 2 * k - 1, name, worst(a[:, lo:hi], b[:, lo:hi])))
    ctx.interesting(np.ptp(q) > 0)
    ctx.label(case['which'], 'k%d' % k)


FAMILIES = [
    Family('line', case_st(1), check, quick=1600, thorough=40000, shards=8, rule='some cell changes by more than 1e-6 of the data'),
    Family('plane', case_st(2), check, quick=640, thorough=16000, shards=8, rule='some cell changes by more than 1e-6 of the data'),
    Family('space', case_st(3), check, quick=160, thorough=4000, shards=8, rule='some cell changes by more than 1e-6 of the data'),
    Family('waves', case_st(1, char=True), check, quick=640, thorough=16000, shards=8, rule='some cell changes by more than 1e-6 of the data'),
    Family('tfluct', tfluct_st(), check, quick=80, thorough=2000, shards=2, rule='some cell changes by more than 1e-6 of the data'),
    Family('poly', poly_st(), poly_check, quick=200, thorough=6000, shards=2, rule='degree at least two'),
    Family('recon', recon_st(), recon_check, quick=200, thorough=6000, shards=2, rule='data not constant'),
]
