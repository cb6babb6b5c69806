"""C20: misconfiguration is refused instead of computed."""
import os

import numpy as np

from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand, make_domain

ID = 'C20'
ASSUMPTIONS = ['the refusal may be any Python exception; what is required is that no result is computed',
               'settings that the documentation allows but a model cannot judge (e.g. a Courant limit above one) are not generated']

RP = {1: 'acoustics_1D', 2: 'acoustics_2D', 3: 'vc_acoustics_3D'}
EQN = {1: 2, 2: 3, 3: 4}
WAVES = {1: 2, 2: 2, 3: 2}

# (name, applies to which set-ups); the verdict is computed by `verdict`
FAULTS = ['none', 'none', 'none', 'bc_none', 'bc_unknown', 'aux_bc_none', 'custom_q', 'custom_aux', 'num_waves', 'num_eqn', 'fwave',
          'limiters', 'limiters', 'language', 'integrator', 'lmm', 'ssplmm', 'weno', 'style', 'cfl', 'cfl', 'divide', 'divide', 'too_fast',
          'capa', 'capa', 'order', 'params', 'typo', 'no_solver', 'no_solution', 'not_a_solver', 'format', 'tfluct', 'max_steps']


@st.composite
def run_st(draw):
    nd = draw(st.sampled_from([1, 1, 2, 3]))
    return {'nd': nd, 'sharp': draw(st.booleans()), 'python': nd == 1 and draw(st.booleans()),
            'controller': draw(st.booleans()), 'aux': draw(st.sampled_from([0, 0, 1, 2])),
            'fault': draw(st.sampled_from(FAULTS)), 'k': draw(st.integers(0, 1000)), 'side': draw(st.integers(0, 1)),
            'after': draw(st.booleans()), 'dim': draw(st.integers(0, nd - 1)), 'fixed': draw(st.booleans()), 'q': draw(data_spec(['rand', 'step', 'smooth'])),
            'cells': [draw(st.integers(5, 8)) for _ in range(nd)]}


TYPOS = ['limiter', 'cfl_maxx', 'dt_varible', 'weno_ordr', 'dimensional_splitting', 'source', 'bc', 'numghost', 'transverse', 'Order',
         'kernel', 'ghost', 'time_integrater', 'num_equations', 'dtmax', 'step_src', 'before', 'user_bc', 'lim', 'rk_stages']


def build(case):
    from clawpack import pyclaw, riemann
    nd = case['nd']
    cls = '%sSolver%dD' % ('SharpClaw' if case['sharp'] else 'Claw', nd)
    if case['python']:
        from clawpack.riemann.acoustics_1D_py import acoustics_1D as rp
        solver = getattr(pyclaw, cls)(rp)
        solver.kernel_language = 'Python'
    else:
        solver = getattr(pyclaw, cls)(getattr(riemann, RP[nd]))
    domain = make_domain([0.0] * nd, [1.0] * nd, case['cells'])
    naux = 2 if nd == 3 else case['aux']
    state = pyclaw.State(domain, EQN[nd], naux)
    state.problem_data.update(rho=1.0, bulk=1.0, zz=1.0, cc=1.0)
    state.q[...] = expand(case['q'], state.q.shape)
    if naux:
        state.aux[...] = 1.0
    for d in range(nd):
        for b in (solver.bc_lower, solver.bc_upper, solver.aux_bc_lower, solver.aux_bc_upper):
            b[d] = pyclaw.BC.periodic
    if not case['sharp'] and nd > 1:
        solver.dimensional_split = True
    solver.cfl_max, solver.cfl_desired = 0.5, 0.4
    if case['fixed']:
        solver.dt_variable = False
        solver.dt = solver.dt_initial = 0.02
    else:
        solver.dt_initial = 0.01
        solver.dt = 0.01
    claw = pyclaw.Controller()
    claw.verbosity = 0
    claw.solver = solver
    claw.solution = pyclaw.Solution(state, domain)
    claw.tfinal = 0.04
    claw.num_output_times = 1
    claw.keep_copy = True
    claw.output_format = None
    return solver, claw, state, naux


def idle_bc(state, dim, t, qbc, auxbc, num_ghost):
    pass


def apply(case, solver, claw, state, naux):
    """Plant the fault. Returns (expected refused?, undo) or None where it does not apply."""
    from clawpack import pyclaw
    f, k, d, nd = case['fault'], case['k'], case['dim'], case['nd']
    low, up = (solver.bc_lower, solver.bc_upper)[case['side']], (solver.aux_bc_lower, solver.aux_bc_upper)[case['side']]
    ctl = case['controller']

    def attr(obj, **kw):
        old = {a: getattr(obj, a) for a in kw}
        for a, v in kw.items():
            setattr(obj, a, v)

        def undo():
            for a, v in old.items():
                setattr(obj, a, v)
        return undo

    def item(lst, i, v):
        old = lst[i]
        lst[i] = v
        return lambda: lst.__setitem__(i, old)

    if f == 'none':
        return False, lambda: None
    if f == 'bc_none':
        return True, item(low, d, None)
    if f == 'bc_unknown':
        return True, item(low, d, [4, 7, -1, 99][k % 4])
    if f == 'aux_bc_none':
        return naux > 0, item(up, d, None)
    if f in ('custom_q', 'custom_aux'):
        # the functions of the other side and of the other array do not help
        names = ['user_bc_lower', 'user_bc_upper', 'user_aux_bc_lower', 'user_aux_bc_upper']
        names.remove(('user_bc_' if f == 'custom_q' else 'user_aux_bc_') + ('lower', 'upper')[case['side']])
        u1 = attr(solver, **{n: idle_bc for i, n in enumerate(names) if k >> i & 1})
        u2 = item(low if f == 'custom_q' else up, d, pyclaw.BC.custom)
        return f == 'custom_q' or naux > 0, lambda: (u1(), u2())
    if f in ('num_waves', 'num_eqn', 'fwave'):
        if not ctl:
            return None
        return True, attr(solver, **{f: None})
    if f == 'limiters':
        want = EQN[nd] if case['sharp'] else WAVES[nd]     # SharpClaw limits by component unless told otherwise
        bad = k % 3 != 0
        if case['sharp'] and bad and k % 2:     # told otherwise
            n = [x for x in range(2, EQN[nd] + 4) if x != WAVES[nd]][(k // 6) % (EQN[nd] + 1)]
            return True, attr(solver, char_decomp=1, limiters=[[4, 3, 1][i % 3] for i in range(n)])
        if not bad:
            return False, attr(solver, limiters=[4, [3], [1] * want, [4] * want][k % 4])
        n = [0, want + 1, want + 2, want + 3][(k // 3) % 4] if want <= 2 else [0, 2, want + 1, want + 2][(k // 3) % 4]
        return True, attr(solver, limiters=[[4, 3, 0, 1, 0, 4, 4, 2, 0][(k + i * (k % 2)) % 9] for i in range(n)])
    if f == 'language':
        lang = ['python', 'C', 'CUDA', 'Fortran90', ''][k % 5]
        if nd > 1 and k % 2:
            lang = 'Python'
        return True, attr(solver, kernel_language=lang)
    if f == 'integrator':
        if not case['sharp']:
            return None
        u = attr(solver, time_integrator=['RK4', 'ssp33', 'SSP3', 'Heun', 'SSP105'][k % 5])
        if k % 2:
            u2 = attr(solver, cfl_max=None)
            return True, lambda: (u(), u2())
        return True, u
    if f == 'lmm':
        if not case['sharp']:
            return None
        u = attr(solver, time_integrator='LMM', alpha=np.array([0.0, 1.0]), beta=np.array([-0.5, 1.5]), lmm_steps=2)
        return (not case['fixed']), u
    if f == 'ssplmm':
        if not case['sharp']:
            return None
        name, steps = [('SSPLMMk2', 2), ('SSPLMMk2', 1), ('SSPLMMk3', 3), ('SSPLMMk3', 6), ('SSPLMMk3', 2), ('SSPLMMk2', 3),
                       ('SSPLMMk3', 4), ('SSPLMMk3', 5), ('SSPLMMk2', 7)][k % 9]
        ok = (name == 'SSPLMMk2' and steps >= 3) or (name == 'SSPLMMk3' and steps in (4, 5))
        return (not ok), attr(solver, time_integrator=name, lmm_steps=steps)
    if f == 'weno':
        if not (case['sharp'] and case['python']):
            return None
        order = [7, 9, 3, 11, 5, 17][k % 6]
        return order != 5, attr(solver, weno_order=order)
    if f == 'style':
        if not ctl:
            return None
        return True, attr(claw, output_style=[0, 4, -1, 17, 5][k % 5])
    if f == 'cfl':
        cmax, cdes = [(0.5, 0.6), (0.5, 0.5000001), (0.4, 5.0), (0.5, 0.45), (0.5, 0.1), (0.3, 0.9)][k % 6]
        return (not case['fixed']) and cdes > cmax, attr(solver, cfl_max=cmax, cfl_desired=cdes)
    if f == 'divide':
        if not case['fixed']:
            return None
        dt = [0.03, 0.015, 0.0399, 0.04 / 3, 0.04 / 7, 0.02 * (1 + 1e-7), 0.01, 0.04, 0.013, 0.02 * 1.001][k % 10]
        n = round(0.04 / dt)
        off = abs(n * dt - 0.04) / 0.04
        bad = off > 1e-4 or n == 0
        return bad, attr(solver, dt=dt, dt_initial=dt)
    if f == 'too_fast':
        if not case['fixed']:
            return None
        return True, attr(solver, cfl_max=1e-3, cfl_desired=5e-4)
    if f == 'capa':
        if not ctl or nd == 3:
            return None
        # a mapping needs the capacity function
        mapped = [lambda x: [2 * x], lambda x, y: [2 * x, 3 * y]][nd - 1]
        choices = list(range(naux)) + [-1, naux, naux + 1, -2]
        idx = choices[k % len(choices)]
        if naux:
            u1 = attr(state, index_capa=idx)
            ok = 0 <= idx < naux
        else:
            u1 = lambda: None
            ok = False
        u2 = attr(state.grid, mapc2p=mapped)
        return (not ok), lambda: (u1(), u2())
    if f == 'order':
        if not ctl or nd == 1:
            return None
        return True, attr(state, q=np.ascontiguousarray(state.q))
    if f == 'params':
        if case['python'] or nd == 3:
            return None
        old = dict(state.problem_data)
        key = ['rho', 'bulk', 'zz', 'cc'][k % 4]
        del state.problem_data[key]
        from clawpack import riemann
        mod = getattr(riemann, RP[nd])
        needed = [p for p in mod.cparam.__dir__() if '__' not in p] if hasattr(mod, 'cparam') else []
        return key in needed, lambda: state.problem_data.update(old)
    if f == 'no_solver':
        if not ctl:
            return None
        return True, attr(claw, solver=None)
    if f == 'no_solution':
        if not ctl:
            return None
        return True, attr(claw, solution=None)
    if f == 'not_a_solver':
        if not ctl:
            return None

        class Fake:
            _is_set_up = True
            dt = dt_initial = 0.1

            def is_valid(self):
                return True, None
        return True, attr(claw, solver=Fake())
    if f == 'format':
        if not ctl:
            return None
        return True, attr(claw, output_format=['fortran', 'asci', 'HDF', 'xml'][k % 4], outdir=case['dir'])
    if f == 'tfluct':
        if not case['sharp'] or case['python']:
            return None
        return True, attr(solver, tfluct_solver=True)
    if f == 'max_steps':
        if case['fixed']:
            return None
        n = [1, 2, 3][k % 3]
        dtm = 0.04 / (n + 2)
        return True, attr(solver, max_steps=n, dt_max=dtm, dt_initial=dtm, dt=dtm)
    if f == 'typo':
        names = [t for t in TYPOS if not hasattr(solver, t)]
        name = names[k % len(names)]
        try:
            setattr(solver, name, 1)
        except Exception:
            return False, lambda: None
        raise Violation('setting solver.%s, which does not exist, was accepted' % name)
    raise ValueError(f)


# faults that are also refused when they are planted after a successful run
AFTER = ('none', 'bc_none', 'bc_unknown', 'custom_q', 'num_waves', 'num_eqn', 'fwave', 'style', 'cfl', 'divide', 'too_fast', 'capa', 'order',
         'no_solver', 'no_solution', 'not_a_solver', 'format', 'max_steps')


def execute(case, solver, claw, tend=None):
    tend = tend or case.get('tend', 0.04)
    if case['controller']:
        claw.tfinal = tend
        claw.run()
        return claw.solution
    solver.evolve_to_time(claw.solution, tend)
    return claw.solution


def run_check(case, ctx):
    case['dir'] = os.path.join(ctx.tmpdir(), 'out')
    solver, claw, state, naux = build(case)
    case['tend'] = 0.04
    after = case.get('after') and case['fault'] in AFTER
    if after:
        execute(case, solver, claw)
        ctx.label('after a run')
        case['tend'] = 0.08
    r = apply(case, solver, claw, state, naux)
    if r is None:
        return
    refused, undo = r
    sol = claw.solution if claw.solution is not None else None
    q0, t0 = state.q.copy(), state.t
    try:
        execute(case, solver, claw)
        err = None
    except Exception as e:
        err = e
    ctx.label(case['fault'] + ('/refused' if refused else '/accepted'))
    ctx.interesting(case['fault'] != 'none')
    if not refused:
        require(err is None, 'a valid configuration (%s) was refused: %r', case['fault'], err)
        require(abs(claw.solution.t - case['tend']) < 1e-6, 'a valid run ended at %r', claw.solution.t)
        require(np.isfinite(claw.solution.q).all(), 'a valid run computed %r', claw.solution.q)
        name = [t for t in TYPOS if not hasattr(solver, t)][case['k'] % 3]
        try:
            setattr(solver, name, 1)
        except Exception:
            require(not hasattr(solver, name), 'the refused attribute %s exists', name)
            return
        raise Violation('after a run, setting solver.%s, which does not exist, was accepted' % name)
    require(err is not None, 'the fault %s (%r) was not refused', case['fault'], case)
    if case['fault'] in ('max_steps', 'too_fast'):
        return
    st_ = state if sol is None else sol.states[0]
    require(st_.t == t0 and np.array_equal(st_.q, q0), 'the refused run (%s) changed the solution', case['fault'])
    require(not os.path.exists(os.path.join(case['dir'], 'fort.q0001')), 'output of a refused run')
    # corrected, the same objects run like fresh ones
    if case['fault'] in ('num_waves', 'num_eqn', 'fwave', 'capa', 'order', 'tfluct', 'integrator', 'format', 'language'):
        return
    undo()
    claw.frames = []
    try:
        got = execute(case, solver, claw)
    except Exception as e:
        raise Violation('after correcting %s the run is refused: %r' % (case['fault'], e))
    good = dict(case, fault='none')
    s2, c2, _, _ = build(good)
    if after:
        execute(good, s2, c2, 0.04)
    want = execute(good, s2, c2)
    require(np.array_equal(got.q, want.q) and got.t == want.t, 'after correcting %s the run gives another result', case['fault'])


# ------------------------------------------------------------ attributes of solvers
@st.composite
def attr_st(draw):
    return {'nd': draw(st.integers(1, 3)), 'sharp': draw(st.booleans()), 'rp': draw(st.booleans()), 'other': draw(st.integers(0, 1000)),
            'names': draw(st.lists(st.one_of(st.text('abcdefgimnorstux_', min_size=2, max_size=10), st.sampled_from(TYPOS)), max_size=6)),
            'real': draw(st.lists(st.integers(0, 200), max_size=6)), 'setup': draw(st.booleans())}


def riemann_names(nd):
    from clawpack import riemann
    return sorted(n for n in dir(riemann) if (n.endswith('_%dD' % nd) or n.endswith('_%dD_ptwise' % nd)) and not n.startswith('rp_'))


def attr_check(case, ctx):
    from clawpack import pyclaw, riemann
    cls = '%sSolver%dD' % ('SharpClaw' if case['sharp'] else 'Claw', case['nd'])
    solver = getattr(pyclaw, cls)(getattr(riemann, RP[case['nd']])) if case['rp'] else getattr(pyclaw, cls)()
    if case['rp']:
        require((solver.num_eqn, solver.num_waves, solver.fwave) == (EQN[case['nd']], WAVES[case['nd']], False),
                'the solver does not know its Riemann solver: %r', (solver.num_eqn, solver.num_waves, solver.fwave))
        # every Riemann solver comes with its numbers of equations and waves
        names = riemann_names(case['nd'])
        name = names[case['other'] % len(names)]
        other = getattr(pyclaw, cls)(getattr(riemann, name))
        key = name.replace('_ptwise', '')
        want = tuple(getattr(riemann.static, a).get(key) for a in ('num_eqn', 'num_waves', 'fwave'))
        require((other.num_eqn, other.num_waves, other.fwave) == want, 'a solver with %s has num_eqn, num_waves, fwave = %r instead of %r',
                name, (other.num_eqn, other.num_waves, other.fwave), want)
        require(other.rp is getattr(riemann, name), 'a solver with %s has the Riemann solver %r', name, other.rp)
        ctx.label('rp-' + name)
    else:
        require(solver.is_valid()[0] is False, 'a solver without Riemann solver is valid')
    for n in case['names']:
        if hasattr(solver, n):
            continue
        try:
            setattr(solver, n, 3)
        except Exception:
            require(not hasattr(solver, n), 'the refused attribute %s exists', n)
            ctx.interesting()
            continue
        raise Violation('solver.%s = 3 was accepted, there is no such attribute' % n)
    known = ['limiters', 'order', 'cfl_max', 'cfl_desired', 'dt_initial', 'dt_max', 'max_steps', 'dt_variable', 'num_waves', 'num_eqn',
             'before_step', 'bc_lower', 'user_bc_lower', 'fwave', 'compute_gauge_values', 'verbosity', 'kernel_language']
    known += ['lim_type', 'weno_order', 'char_decomp', 'time_integrator', 'lmm_steps', 'dq_src', 'tfluct_solver', 'aux_time_dep',
              'call_before_step_each_stage'] if case['sharp'] else ['step_source', 'source_split']
    if not case['sharp'] and case['nd'] > 1:
        known += ['dimensional_split', 'transverse_waves']
    if case['sharp']:
        known.remove('order')
        known.remove('verbosity')
    for k in case['real']:
        name = known[k % len(known)]
        token = object()
        try:
            setattr(solver, name, token)
        except Exception as e:
            raise Violation('solver.%s cannot be set: %r' % (name, e))
        require(getattr(solver, name) is token, 'solver.%s was not set', name)
        if name == 'kernel_language':
            solver.kernel_language = 'Fortran'


# ------------------------------------------------------------ validity of a solver
@st.composite
def valid_st(draw):
    nd = draw(st.integers(1, 3))
    opts = ['periodic', 'extrap', 'wall', 'custom', 'none']
    w = ['periodic', 'extrap', 'wall', 'custom', 'custom', 'periodic', 'none']
    return {'nd': nd, 'sharp': draw(st.booleans()), 'lower': [draw(st.sampled_from(w)) for _ in range(nd)],
            'upper': [draw(st.sampled_from(w)) for _ in range(nd)], 'ul': draw(st.booleans()), 'uu': draw(st.booleans()),
            'unset': draw(st.sampled_from(['', '', '', 'num_eqn', 'num_waves', 'fwave'])), 'n': len(opts)}


def valid_check(case, ctx):
    from clawpack import pyclaw, riemann
    cls = '%sSolver%dD' % ('SharpClaw' if case['sharp'] else 'Claw', case['nd'])
    solver = getattr(pyclaw, cls)(getattr(riemann, RP[case['nd']]))
    conv = lambda n: None if n == 'none' else getattr(pyclaw.BC, n)
    solver.bc_lower = [conv(n) for n in case['lower']]
    solver.bc_upper = [conv(n) for n in case['upper']]
    fun = lambda state, dim, t, qbc, auxbc, num_ghost: None
    solver.user_bc_lower = fun if case['ul'] else None
    solver.user_bc_upper = fun if case['uu'] else None
    if case['unset']:
        setattr(solver, case['unset'], None)
    want = not ('none' in case['lower'] + case['upper'] or case['unset']
                or ('custom' in case['lower'] and not case['ul']) or ('custom' in case['upper'] and not case['uu']))
    ok, reason = solver.is_valid()
    require(bool(ok) == want, 'is_valid gives %r (%r) for %r', ok, reason, case)
    require((reason is None) == want, 'reason %r for a solver that is %s', reason, 'valid' if want else 'not valid')
    ctx.interesting(not want)
    ctx.label('valid' if want else 'invalid')


# ------------------------------------------------------------ validity of states and solutions
@st.composite
def vstate_st(draw):
    nd = draw(st.integers(1, 3))
    naux = draw(st.integers(0, 3))
    return {'nd': nd, 'naux': naux, 'patches': draw(st.integers(1, 3)), 'which': draw(st.integers(0, 2)), 'q': draw(st.booleans()),
            'aux': draw(st.booleans()), 'map': draw(st.booleans()), 'capa': draw(st.integers(-2, naux + 1)), 'eqn': draw(st.integers(2, 4))}


def vstate_check(case, ctx):
    from clawpack import pyclaw
    nd, naux = case['nd'], case['naux']
    patches = [pyclaw.Patch([pyclaw.Dimension(float(k), k + 1.0, 3 + d, name='xyz'[d]) for d in range(nd)]) for k in range(case['patches'])]
    domain = pyclaw.Domain(patches)
    states = [pyclaw.State(p, case['eqn'], naux) for p in patches]
    sol = pyclaw.Solution(states, domain)
    require(all(s.is_valid() for s in states) and sol.is_valid(), 'a new solution is not valid')
    bad = states[case['which'] % len(states)]
    if case['q']:
        bad.q = np.ascontiguousarray(bad.q)
    if case['aux'] and naux:
        bad.aux = np.zeros((naux + 1,) + tuple(bad.grid.num_cells), order='F')[:naux]   # a piece of something larger
    if not naux and case['aux']:
        bad.aux = None
    want = bad.q.flags['F_CONTIGUOUS'] and (bad.aux is None or bad.aux.flags['F_CONTIGUOUS'])
    refused = False
    if case['map']:
        bad.grid.mapc2p = [lambda x: [2 * x], lambda x, y: [2 * x, y], lambda x, y, z: [x, y, z + 1]][nd - 1]
        if naux:
            bad.index_capa = case['capa']
            refused = not 0 <= case['capa'] < naux
        else:
            refused = True
    for what, f in (('state', bad.is_valid), ('solution', sol.is_valid)):
        try:
            got = bool(f())
        except Exception:
            got = 'raises'
        if refused:
            require(got is not True, 'a %s with a mapping and capacity index %r of %d is valid', what, case['capa'], naux)
        else:
            require(got == want, 'is_valid of a %s gives %r for %r', what, got, case)
    require(all(s.is_valid() for s in states if s is not bad), 'another state is not valid')
    ctx.interesting(refused or not want)
    ctx.label('refused' if refused else 'valid' if want else 'invalid')


# ------------------------------------------------------------ geometry, states, solutions
NUM = st.one_of(st.integers(-5, 5), st.sampled_from([-2.5, 0.0, 0.5, 1e-3, 1e6]))


@st.composite
def cons_st(draw):
    return {'lower': draw(NUM), 'upper': draw(NUM), 'n': draw(st.integers(-2, 6)), 'names': draw(st.lists(st.sampled_from('xyzab'), min_size=1, max_size=3)),
            'set': [[draw(st.sampled_from(['lower', 'upper', 'num_cells'])), draw(NUM)] for _ in range(draw(st.integers(0, 3)))],
            'geom': draw(st.integers(0, 5)), 'arg': draw(st.integers(0, 11)), 'mp': draw(st.integers(1, 3)),
            'frame': draw(st.integers(0, 20)), 'fmt': draw(st.sampled_from(['ascii', 'hdf5', 'binary', 'nope', 'asci'])), 'trunc': draw(st.integers(0, 8))}


def refuses(fun, what, *exc):
    try:
        r = fun()
    except Exception as e:
        if exc:
            require(isinstance(e, exc), '%s raised %r', what, e)
        return
    raise Violation('%s was accepted: %r' % (what, r))


def cons_check(case, ctx):
    from clawpack import pyclaw
    lo, up, n = case['lower'], case['upper'], case['n']
    good = up > lo and n > 0
    make = lambda: pyclaw.Dimension(lo, up, n, name='x')
    if not good:
        refuses(make, 'Dimension(%r,%r,%r)' % (lo, up, n))
        ctx.label('bad dimension')
    else:
        dim = make()
        cur = {'lower': float(lo), 'upper': float(up), 'num_cells': n}
        for a, v in case['set']:
            new = dict(cur, **{a: int(v) if a == 'num_cells' else float(v)})
            if new['upper'] > new['lower'] and new['num_cells'] > 0:
                setattr(dim, a, v)
                cur = new
            else:
                refuses(lambda: setattr(dim, a, v), 'dimension.%s = %r' % (a, v))
                ctx.label('bad change')
                break
    refuses(lambda: pyclaw.Dimension('x', 0.0, 1.0, 5), 'Dimension with its name first')
    # dimensions of the same name
    dims = [pyclaw.Dimension(0.0, 1.0, 4, name=c) for c in case['names']]
    dup = len(set(case['names'])) < len(dims)
    for cls in (pyclaw.Patch, pyclaw.geometry.Grid, pyclaw.Domain):
        if dup:
            refuses(lambda: cls([pyclaw.Dimension(0.0, 1.0, 4, name=c) for c in case['names']]), '%s with two dimensions of one name' % cls.__name__)
        else:
            g = cls([pyclaw.Dimension(0.0, 1.0, 4, name=c) for c in case['names']])
            if cls is pyclaw.geometry.Grid:
                refuses(lambda: g.add_dimension(pyclaw.Dimension(0.0, 1.0, 4, name=case['names'][0])), 'a second dimension %s' % case['names'][0])
    domain = pyclaw.Domain([pyclaw.Dimension(0.0, 1.0, 4, name='x')])
    bad_geom = [None, 3, 'x', [1, 2], np.zeros(3), {}][case['geom']]
    refuses(lambda: pyclaw.State(bad_geom, 1), 'State(%r)' % (bad_geom,))
    state = pyclaw.State(domain, 2, 1)
    state.mp = case['mp']
    refuses(lambda: setattr(state, 'mp', case['mp'] + 1), 'changing mp')
    state.mF = case['mp']
    refuses(lambda: setattr(state, 'mF', case['mp'] + 1), 'changing mF')
    require(state.mp == state.mF == case['mp'] and state.p.shape == state.F.shape == (case['mp'], 4), 'mp, mF')
    require(state.q.shape == (2, 4) and state.aux.shape == (1, 4), 'shapes')
    refuses(lambda: state.no_such_thing, 'state.no_such_thing', AttributeError)
    refuses(lambda: domain.patch.grid.no_such_thing, 'grid.no_such_thing', AttributeError)
    sol = pyclaw.Solution(state, domain)
    refuses(lambda: sol.no_such_thing, 'solution.no_such_thing', AttributeError)
    claw = pyclaw.Controller()
    refuses(lambda: claw.no_such_thing, 'controller.no_such_thing', AttributeError)
    bad = [lambda: pyclaw.Solution('a', domain), lambda: pyclaw.Solution(state, None), lambda: pyclaw.Solution(state, domain, 1),
           lambda: pyclaw.Solution(state, 'x'), lambda: pyclaw.Solution([], domain), lambda: pyclaw.Solution(['a'], domain),
           lambda: pyclaw.Solution(state, [1, 2]), lambda: pyclaw.Solution(None, domain), lambda: pyclaw.Solution(bogus=1),
           lambda: pyclaw.Solution(2.5, domain), lambda: pyclaw.Solution({}, domain), lambda: pyclaw.Solution(state, [])]
    refuses(bad[case['arg']], 'invalid arguments number %d of Solution' % case['arg'])
    # files that are not there
    d = ctx.tmpdir()
    refuses(lambda: pyclaw.Solution(case['frame'], path=d, file_format=case['fmt']), 'reading a frame that does not exist')
    if case['fmt'] in ('nope', 'asci'):
        refuses(lambda: sol.write(case['frame'], path=d, file_format=case['fmt']), 'writing in format %s' % case['fmt'], ValueError)
        require(os.listdir(d) == [], 'a refused write left %r', os.listdir(d))
    before = sol.state.q.copy()
    refuses(lambda: sol.read(case['frame'], path=d, file_format=case['fmt']), 'reading a frame that does not exist')
    require(len(sol.states) == 1 and np.array_equal(sol.state.q, before), 'a refused read changed the solution')
    ctx.interesting(not good or dup or len(case['set']) > 0)


FAMILIES = [
    Family('runs', run_st(), run_check, quick=1200, thorough=16000, shards=6, rule='a setting other than the default valid one'),
    Family('attributes', attr_st(), attr_check, quick=200, thorough=4000, shards=1, rule='an attribute that does not exist was set'),
    Family('is_valid', valid_st(), valid_check, quick=300, thorough=8000, shards=1, rule='the solver is not valid'),
    Family('states', vstate_st(), vstate_check, quick=500, thorough=10000, shards=1, rule='not valid'),
    Family('constructors', cons_st(), cons_check, quick=300, thorough=6000, shards=2, rule='an invalid dimension, change or duplicate name'),
]
