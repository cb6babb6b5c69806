"""C07: source terms and step hooks are applied exactly as configured."""
import copy

import numpy as np

from harness import claw, ode, runs, zoo
from harness.core import Family, require
from harness.pc import st, data_spec, expand, demand_close
from props import c08

ID = 'C07'
ASSUMPTIONS = ['the homogeneous step itself is taken by a second solver without hooks (its correctness is the subject of C02-C04)',
               'SharpClaw stages are checked with spatially constant data, against the stages of the integrator model',
               'before_step functions may set auxiliary data from the time, and change the solution']


# ---- classic ------------------------------------------------------------------
@st.composite
def classic_st(draw):
    nd = draw(st.sampled_from([1, 1, 2, 2, 3]))
    case = draw(claw.problem_case(nd, cells=(2, 8 if nd == 1 else 4), kinds=['smooth', 'rand', 'step', 'const'],
                                  pred=lambda p: p.language == 'Fortran' or nd == 1))
    case.update(split=draw(st.sampled_from([1, 2])), src=draw(st.sampled_from(['grow', 'time', 'aux', 'none'])),
                before=draw(st.sampled_from(['none', 'log', 'scale', 'aux'])),
                t0=draw(st.sampled_from([0.0, 0.75, -3.0])), steps=draw(st.integers(1, 3)),
                mode=draw(st.sampled_from(['fixed', 'fixed', 'variable', 'edge', 'edge'])),
                order=draw(st.sampled_from([1, 2])), big=draw(st.booleans()), to=draw(st.booleans()))
    return case


def check_classic(case, ctx):
    prob = zoo.BY_NAME[case['prob']]
    nd = prob.nd
    log = []

    def amount(state, dt):
        if case['src'] == 'grow':
            return 1.0 + 0.1 * dt
        if case['src'] == 'time':
            return 1.0 + 0.1 * dt * np.cos(state.t)
        return 1.0 + 0.05 * dt * (state.aux[0] if state.num_aux else 1.0)

    def src(solver, state, dt):
        log.append(('S', state.t, dt, np.array(state.q), state))
        state.q *= amount(state, dt)

    def before(solver, state):
        log.append(('B', state.t, None, np.array(state.q), state))
        tweak(state)

    def tweak(state):
        if case['before'] == 'scale':
            state.q *= 1.0 + 1e-3 * (1 + np.sin(state.t))
        if case['before'] == 'aux' and state.num_aux and state.index_capa >= 0:
            state.aux[state.index_capa] = capa0 * (1 + 0.1 * np.sin(3 * state.t))

    def configure(solver):
        solver.order = case['order']
        if nd > 1:
            solver.dimensional_split = True
        solver.cfl_max, solver.cfl_desired = 1e6, 0.9
    _, solver, sol, params = claw.setup(case)
    configure(solver)
    capa0 = None if not case['capa'] else np.array(sol.aux[sol.state.index_capa])
    sol.t = case['t0']
    solver.source_split = case['split']
    if case['src'] != 'none':
        solver.step_source = src
    if case['before'] != 'none':
        solver.before_step = before
    # the hooks-free twin, for the homogeneous step
    _, twin, twin_sol, _ = claw.setup(case)
    configure(twin)
    twin.dt_variable = False

    def homogeneous(q, aux, dt):
        twin_sol.q[...] = q
        if aux is not None:
            twin_sol.aux[...] = aux
        twin.dt = dt
        twin.evolve_to_time(twin_sol)
        return np.array(twin_sol.q), twin.cfl.get_cached_max()

    dx = [l / n for l, n in zip(case['len'], case['cells'])]
    dt0 = 0.02 * min(dx)
    if case['big'] and case['mode'] != 'variable' and (prob.linear or (prob.scalar and case['steps'] == 1)):
        dt0 = 1.5 * min(dx)     # nothing stops a user from Courant numbers above one
    solver.dt = dt0
    aux = None if sol.aux is None else np.array(sol.aux)
    _, c0 = homogeneous(np.array(sol.q), aux, dt0)
    if case['mode'] == 'fixed':
        solver.dt_variable = False
    elif case['mode'] == 'edge':
        # the Courant number of the step is exactly the allowed maximum
        solver.dt_variable = False
    else:
        solver.cfl_max, solver.cfl_desired = 0.5, 0.4
        solver.dt = dt0 * (40 if case['big'] and (prob.linear or prob.scalar) else 1)   # gas dynamics stops on unphysical states
    rejected = 0
    for n in range(case['steps']):
        q, t = np.array(sol.q), sol.t
        aux = None if sol.aux is None else np.array(sol.aux)
        del log[:]
        if case['mode'] == 'edge':
            # what the hooks do before the homogeneous step, to know its Courant number beforehand
            probe = copy.deepcopy(sol.state)
            if case['before'] != 'none':
                tweak(probe)
            if case['split'] == 2 and case['src'] != 'none':
                probe.q *= amount(probe, dt0 / 2)
            _, c = homogeneous(np.array(probe.q), None if probe.aux is None else np.array(probe.aux), dt0)
            solver.cfl_max = c
        if case['to'] and not (case['mode'] == 'variable' and case['big']):
            # the same single step, asked for by its end time
            solver.evolve_to_time(sol, t + dt0 * (1.0 if case['mode'] != 'variable' else 0.5))
        else:
            solver.evolve_to_time(sol)
        dt = solver.dt
        calls = list(log)
        require(all(c[4] is sol.state for c in calls), 'a hook got another state than the one being evolved')
        # rejected attempts first
        body = calls
        start = [i for i, c in enumerate(calls) if c[0] == 'B']
        if case['before'] != 'none':
            require(start and start[0] == 0, 'before_step was not called first: %s', [c[0] for c in calls])
            for i in start:
                require(calls[i][1] == t and np.array_equal(calls[i][3], q),
                        'before_step got other data than the solution at t=%r', t)
            rejected += len(start) - 1
            for i, j in zip(start, start[1:]):
                require(len(calls[i + 1:j]) <= (1 if case['split'] == 2 else 0),
                        'sources in a rejected attempt: %s', [c[0] for c in calls])
            body = calls[start[-1] + 1:]
            if case['mode'] != 'variable':
                require(len(start) == 1, 'before_step was called %d times in a step', len(start))
        # the kept attempt
        state = copy.deepcopy(sol.state)
        state.t = t
        state.q[...] = q
        if aux is not None:
            state.aux[...] = aux
        if case['before'] != 'none':
            tweak(state)
        if case['src'] == 'none':
            want_calls = []
        else:
            want_calls = [dt] if case['split'] == 1 else [dt / 2, dt / 2]
            if case['mode'] == 'variable' and case['before'] == 'none' and case['split'] == 2:
                body = body[-2:]       # half steps of rejected attempts come before
        got = [c[2] for c in body]
        require(len(got) == len(want_calls) and np.allclose(got, want_calls, rtol=1e-13, atol=0),
                'the source was called with %s instead of %s (Courant number %r, maximum %r)', got, want_calls,
                solver.cfl.get_cached_max(), solver.cfl_max)
        for c in body:
            require(c[1] == t, 'the source got time %r in the step from %r', c[1], t)
        if case['src'] != 'none' and case['split'] == 2:
            require(np.array_equal(body[0][3], state.q), 'the first half source step got other data')
            state.q *= amount(state, dt / 2)
        a = None if state.aux is None else np.array(state.aux)
        h, c = homogeneous(np.array(state.q), a, dt)
        if case['src'] != 'none':
            demand_close(body[-1][3], h, 'data given to the source after the homogeneous step', rtol=1e-12)
            state.q[...] = h
            state.q *= amount(state, want_calls[-1])
            h = np.array(state.q)
        demand_close(np.array(sol.q), h, 'result of the step from t=%r' % t, rtol=1e-12)
        require(abs(sol.t - t - dt) <= 1e-12 * (abs(t) + dt), 'time %r', sol.t)
    ctx.interesting(case['src'] != 'none' or case['before'] in ('scale', 'aux'))
    ctx.label('%dD' % nd, case['mode'], 'split%d' % case['split'], case['src'], 'before-' + case['before'],
              'rejected' if rejected else 'first-time')


# ---- SharpClaw ----------------------------------------------------------------
@st.composite
def sharp_st(draw):
    case = draw(c08.run_st())
    case['each'] = draw(st.booleans())
    case['tweak'] = draw(st.sampled_from([0.0, 0.0, 0.02]))
    case['nosrc'] = draw(st.integers(0, 7)) == 0
    return case


def check_sharp(case, ctx):
    solver, sol, f, log, m, nd = c08.build(case)
    kind = case['kind']
    calls = []
    inner = solver.dq_src
    if case['nosrc']:
        solver.dq_src = None
        f = lambda t, y: 0 * y      # noqa: E731
    else:
        def src(solver, state, dt):
            calls.append(('S', state.t, np.array(state.q).reshape(m, -1)[:, 0], dt, id(state)))
            return inner(solver, state, dt)
        solver.dq_src = src

    def g(t, y):
        return y * (1 + case['tweak'] * np.cos(t))

    def before(solver, state):
        y = np.array(state.q).reshape(m, -1)[:, 0]
        if not log['hist'] or log['hist'][-1][0] != state.t:
            log['hist'].append((state.t, y))
        calls.append(('B', state.t, y, None, id(state)))
        state.q *= 1 + case['tweak'] * np.cos(state.t)
    solver.before_step = before
    solver.call_before_step_each_stage = case['each']
    solver.cfl_max, solver.cfl_desired = 0.5, 0.45
    if kind == 'RK':
        solver.a, solver.b, solver.c = (np.array(case[k]) for k in 'abc')
        method = ode.rk(case['a'], case['b'], case['c'])
    elif kind == 'LMM':
        solver.alpha, solver.beta = np.array(case['alpha']), np.array(case['beta'])
        solver.lmm_steps = len(case['alpha'])
    elif 'k' in case:
        solver.lmm_steps = case['k']
    else:
        method = ode.FIXED[kind]
    lmm = 'LMM' in kind
    k = solver.lmm_steps if lmm else 0
    ys, fs = [], []             # of the multistep methods: values at the start of the steps, after before_step
    solver.dt_variable = False
    solver.dt = 0.02
    for n in range(min(sum(case['calls']), k + 4 if lmm else 4)):
        del calls[:]
        t, y = sol.t, np.array(sol.q).reshape(m, -1)[:, 0]
        if not np.abs(y).max() < 1e3:
            break
        solver.evolve_to_time(sol)
        dt = 0.02
        y1 = g(t, y)
        hooked = []

        def hook(s, v):
            hooked.append((s, v))
            return g(s, v) if case['each'] else v
        if lmm:
            ys.append(y1)
            fs.append(f(t, y1))
            if n + 1 < k:
                want, stages = (ode.ssp104 if kind == 'LMM' else ode.ssp22)(f, t, y1, dt, hook)
            else:
                want = (ode.lmm(case['alpha'], case['beta'], ys[-k:], fs[-k:], dt) if kind == 'LMM' else
                        (ode.ssplmm2 if kind[-1] == '2' else ode.ssplmm3)(ys[-k:], fs[-k:], [dt] * (k - 1), dt))
                stages = [(t, y1)]
        else:
            want, stages = method(f, t, y1, dt, hook)
        expect = [('B', t, y)]
        for i, (s, v) in enumerate(stages):
            if i and case['each']:
                expect.append(('B',) + hooked[i - 1])
            if not case['nosrc']:
                expect.append(('S', s, v))
        require([c[0] for c in calls] == [e[0] for e in expect], '%s: calls %s instead of %s', kind,
                ''.join(c[0] for c in calls), ''.join(e[0] for e in expect))
        scale = 1 + max(np.abs(e[2]).max() for e in expect)
        for i, (c, e) in enumerate(zip(calls, expect)):
            require(abs(c[1] - e[1]) <= 1e-12 * (1 + abs(t)), '%s call %d (%s) got t=%r instead of %r', kind, i, c[0], c[1], e[1])
            demand_close(c[2], e[2], '%s: data of call %d (%s)' % (kind, i, c[0]), rtol=1e-11, scale=scale)
            if c[0] == 'S':
                require(abs(c[3] - dt) <= 1e-14, 'the source got dt=%r', c[3])
        demand_close(np.array(sol.q).reshape(m, -1)[:, 0], want, '%s: result' % kind, rtol=1e-10 if lmm else 1e-11, scale=max([scale] + [np.abs(v).max() for v in ys[-k:]]))
    ctx.interesting(True)
    ctx.label(kind, case['kernel'], 'each' if case['each'] else 'once')


# ---- SharpClaw: auxiliary values and parameters that a before_step function changes ------
@st.composite
def sharpaux_st(draw):
    case = draw(runs.run_st(sharp=True, capa=True, pred=lambda p: not runs.is_fluid(p)))
    case['change'] = draw(st.lists(st.sampled_from(['aux', 'aux', 'param', 'none']), min_size=1, max_size=4))
    case['set'] = draw(st.sampled_from(['function', 'user']))
    case['grow'] = draw(st.sampled_from([0.7, 1.1, 1.5]))
    return case


def check_sharpaux(case, ctx):
    prob, solver, sol, params = runs.build(case)
    dt = 0.5 * runs.pick_dt(case)
    todo = []

    def change(state):
        what = todo[0] if todo else 'none'
        if what == 'aux' and state.num_aux:
            state.aux *= case['grow']
        elif what == 'param' and prob.language == 'Python':     # (Fortran solvers get parameters at the start of a call)
            for k in params:
                if isinstance(params[k], float) and k != 'gamma':
                    state.problem_data[k] *= case['grow']
    if case['set'] == 'function':
        solver.before_step = lambda solver, state: change(state)
    solver.dt = dt
    changed = False
    for n, what in enumerate(case['change']):
        todo[:] = [what]
        _, fresh, twin, _ = runs.build(case)
        twin.state.q[...] = sol.state.q
        if sol.state.num_aux:
            twin.state.aux[...] = sol.state.aux
        twin.state.problem_data.update(sol.state.problem_data)
        twin.t = sol.t
        change(twin.state)
        if case['set'] == 'user':       # between two calls
            change(sol.state)
        fresh.dt = dt
        fresh.evolve_to_time(twin)
        solver.evolve_to_time(sol)
        require(np.array_equal(sol.state.q, twin.state.q, equal_nan=True),
                'step %d after a change of %s differs from the step of a new solver by %r', n, what,
                float(np.abs(np.array(sol.state.q) - twin.state.q).max()))
        if not np.isfinite(sol.state.q).all() or np.abs(sol.state.q).max() > 1e6:
            break
        changed = changed or (what == 'aux' and sol.state.num_aux > 0) or (what == 'param' and prob.language == 'Python')
    ctx.label(*runs.labels(case))
    ctx.label(*case['change'])
    ctx.interesting(changed)


FAMILIES = [
    Family('sharpaux', sharpaux_st(), check_sharpaux, quick=600, thorough=10000, shards=2,
           rule='auxiliary values or parameters change between steps'),
    Family('classic', classic_st(), check_classic, quick=5000, thorough=80000, shards=4,
           rule='there is a source, or a before_step function that changes something'),
    Family('sharp', sharp_st(), check_sharp, quick=5000, thorough=80000, shards=3, rule='always'),
]
