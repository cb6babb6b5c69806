"""C19: a run's result is a function of its own inputs: not of what else happened in the process."""
import json
import os
import pickle
import shutil
import signal

import numpy as np

from harness.core import Family, Violation
from harness.pc import st
from harness import runs

ID = 'C19'
ASSUMPTIONS = ['every history and every reference run is executed in its own forked child of a process that imported '
               'clawpack.pyclaw and clawpack.riemann but never used them',
               'histories are sequential; live solvers are interleaved between steps, not inside one']

TIMEOUT = 60
INTEGRATORS = ('Euler', 'SSP33', 'SSP104', 'LMM', 'LMM', 'SSPLMMk2', 'SSPLMMk3')


def in_child(fn, *args):
    """Value of fn(*args), computed in a forked child of this (unused) process."""
    import clawpack.pyclaw  # noqa
    import clawpack.riemann  # noqa
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        try:
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            except Exception:
                pass
            signal.alarm(TIMEOUT)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:   # noqa
                import traceback
                out = ('raised', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        buf += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not buf:
        return ('died', 'wait status %d' % status)
    return pickle.loads(buf)


# ---- jobs -------------------------------------------------------------------
class Live:
    """One run that is taken step by step; kind: fixed, variable or controller."""

    def __init__(self, job, solver=None):
        self.job = job
        case = job['case']
        self.dt = 2.0 ** np.floor(np.log2(runs.pick_dt(case)))   # a power of two: sums of steps are exact
        self.prob, own, self.sol, _ = runs.build(case)
        self.solver = solver or own
        self.out = []
        self.done = 0

    def step(self, n):
        kind = self.job['kind']
        if kind == 'fixed':
            self.solver.dt = self.dt
            if n > 1 and self.job['tend']:
                self.solver.evolve_to_time(self.sol, self.sol.t + n * self.dt)
            else:
                for _ in range(n):
                    self.solver.evolve_to_time(self.sol)
        else:
            for _ in range(n):
                self.solver.dt_variable = True
                if self.done == 0:
                    self.solver.dt_initial = self.solver.dt = self.dt
                    self.solver.cfl_desired, self.solver.cfl_max = 0.3, 0.35
                self.solver.evolve_to_time(self.sol, self.sol.t + 2.5 * self.dt)
                self.done += 1

    def result(self):
        st_ = self.sol.state
        return (np.array(st_.q).tobytes(), np.array(st_.q).shape, float(self.sol.t),
                None if st_.aux is None else np.array(st_.aux).tobytes(), float(self.solver.cfl.get_cached_max()))


def controller_job(job, where):
    from clawpack import pyclaw
    case = job['case']
    dt = runs.pick_dt(case)
    prob, solver, sol, _ = runs.build(case)
    solver.dt_variable = True
    solver.dt_initial = solver.dt = dt
    solver.cfl_desired, solver.cfl_max = 0.3, 0.35
    c = pyclaw.Controller()
    c.solver, c.solution = solver, sol
    c.tfinal = 4 * dt
    c.num_output_times = job['frames']
    c.keep_copy = True
    c.output_format = job['format']
    c.verbosity = 0
    c.outdir = where
    c.run()
    out = []
    for f in c.frames:
        out.append((np.array(f.state.q).tobytes(), f.state.q.shape, float(f.t)))
    if job['format']:
        for n in sorted(os.listdir(where)):
            if not n.endswith('pkl') and not n.endswith('.hdf') and not n.endswith('.h5'):
                out.append((n, open(os.path.join(where, n), 'rb').read()))
    return out


def fresh(job, n):
    """Reference: the run alone in a process, in one go."""
    if job['kind'] == 'controller':
        d = os.path.abspath('fresh_%d' % os.getpid())
        try:
            return controller_job(job, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    live = Live(job)
    live.step(n)
    return live.result()


def simple(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    if isinstance(v, np.ndarray):
        return repr((v.shape, v.tolist()))
    if depth < 3 and isinstance(v, (list, tuple)):
        return [simple(x, depth + 1) for x in v]
    if depth < 3 and isinstance(v, dict):
        return {str(k): simple(x, depth + 1) for k, x in v.items()}
    return type(v).__name__


def defaults():
    """What newly made objects look like."""
    from clawpack import pyclaw
    out = {}
    rp = lambda *a: None   # noqa
    for nd in (1, 2, 3):
        for pre in ('Claw', 'SharpClaw'):
            s = getattr(pyclaw, '%sSolver%dD' % (pre, nd))(rp)
            out['%sSolver%dD' % (pre, nd)] = {k: simple(v) for k, v in vars(s).items()}
        dims = [pyclaw.Dimension(0.0, 1.0, 3, name='xyz'[i]) for i in range(nd)]
        dom = pyclaw.Domain(dims)
        state = pyclaw.State(dom, 2, 1)
        out['Dimension%d' % nd] = {k: simple(v) for k, v in vars(dims[-1]).items()}
        out['Grid%d' % nd] = {k: simple(v) for k, v in vars(dom.grid).items()}
        out['Patch%d' % nd] = {k: simple(v) for k, v in vars(dom.patch).items()}
        sv = {k: simple(v) for k, v in vars(state).items() if k not in ('q', 'aux', '_q', '_aux')}
        out['State%d' % nd] = sv
        sol = pyclaw.Solution(state, dom)
        out['Solution%d' % nd] = {k: simple(v) for k, v in vars(sol).items()}
    cv = {k: simple(v) for k, v in vars(pyclaw.Controller()).items()}
    out['Controller'] = cv
    out['errors'] = simple(np.geterr())
    out['cwd'] = os.getcwd()
    return out


# ---- histories --------------------------------------------------------------
def play(ops, jobs):
    """Executes a history. Result: list of (job index, steps, result) and the defaults at the end."""
    slots = {}
    got = []
    for op in ops:
        what = op[0]
        if what == 'new':
            _, k, j = op
            slots[k] = [Live(jobs[j]), j, 0]
        elif what == 'step':
            _, k, n = op
            if k in slots:
                slots[k][0].step(n)
                slots[k][2] += n
                got.append((slots[k][1], slots[k][2], slots[k][0].result()))
        elif what == 'drop':
            if op[1] in slots:
                live, j, n = slots.pop(op[1])
                del live
                import gc
                gc.collect()
        elif what == 'reuse':
            # the solver of a slot continues with a new solution, of the same job or of one that differs in the
            # solution only: extents, data, auxiliary values, parameters, whether there is a capacity function
            _, k, n, v = op
            if k in slots and jobs[slots[k][1]]['reusable']:
                root = jobs[slots[k][1]].get('of', slots[k][1])
                j = jobs[root]['variant'] if v else root
                live = Live(jobs[j], solver=slots[k][0].solver)
                live.step(n)
                slots[k] = [live, j, n]
                got.append((j, n, live.result()))
        elif what == 'controller':
            _, j = op
            d = os.path.abspath('hist_%d_%d' % (os.getpid(), len(got)))
            got.append((j, 0, controller_job(jobs[j], d)))
            shutil.rmtree(d, ignore_errors=True)
    return got, defaults()


@st.composite
def history_st(draw):
    nj = draw(st.integers(1, 3))
    jobs = []
    family = draw(st.sampled_from(['any', 'sharp', 'classic', 'same', 'same', 'off']))
    base = None
    for i in range(nj):
        sharp = {'sharp': True, 'classic': False}.get(family)
        case = draw(runs.run_st(sharp=sharp, max_steps=1, integrators=INTEGRATORS,
                                pred=(lambda p: p.name in runs.zoo.OFF) if family == 'off' else (lambda p: True)))
        if family in ('same', 'off') and base is not None and draw(st.booleans()):
            # the same Riemann solver with other parameters, data and sizes
            keep = dict(case)
            case = json.loads(json.dumps(base))
            for k in ('pa', 'pb', 'q', 'nu', 'aux'):
                case[k] = keep[k]
            if draw(st.booleans()):
                case['cells'] = [c + draw(st.integers(0, 3)) for c in case['cells']]
        base = base or case
        if case['prob'] in runs.zoo.OFF:      # some parameter is zero or false
            case = dict(case, off=draw(st.booleans()))
        kind = draw(st.sampled_from(['fixed', 'fixed', 'variable', 'controller']))
        o = case['opt']
        if o.get('integrator') == 'LMM':
            kind = 'fixed'      # as the solver demands
        reusable = kind == 'fixed' and 'LMM' not in o.get('integrator', '')      # a multistep method carries on from the steps before
        jobs.append({'case': case, 'kind': kind, 'tend': draw(st.booleans()), 'reusable': reusable,
                     'frames': draw(st.integers(1, 3)), 'format': draw(st.sampled_from([None, 'ascii', 'hdf5']))})
    for i in range(nj):
        if jobs[i]['reusable']:
            v = json.loads(json.dumps(jobs[i]))
            other = draw(runs.run_st(nd=len(v['case']['cells'])))
            for key in draw(st.sets(st.sampled_from(['len', 'q', 'aux', 'pa', 'pb', 'capa']))):
                if key != 'capa' or v['case']['capa'] and other['capa']:
                    v['case'][key] = other[key]
            v['case']['nocapa'] = draw(st.booleans())
            v['of'] = i
            jobs[i]['variant'] = len(jobs)
            jobs.append(v)
    ops = []
    steppers = [i for i in range(nj) if jobs[i]['kind'] != 'controller']
    ctrls = [i for i in range(nj) if jobs[i]['kind'] == 'controller']
    live = set()
    for _ in range(draw(st.integers(2, 10))):
        c = draw(st.integers(0, 9))
        if c >= 8 and ctrls:
            ops.append(['controller', draw(st.sampled_from(ctrls))])
        elif (c <= 2 or not live) and steppers:
            k = draw(st.integers(0, 2))
            ops.append(['new', k, draw(st.sampled_from(steppers))])
            live.add(k)
        elif c == 3 and live:
            k = draw(st.sampled_from(sorted(live)))
            ops.append(['drop', k])
            live.discard(k)
        elif c == 4 and live:
            ops.append(['reuse', draw(st.sampled_from(sorted(live))), draw(st.integers(1, 3)), draw(st.booleans())])
        elif live:
            ops.append(['step', draw(st.sampled_from(sorted(live))), draw(st.integers(1, 3))])
        else:
            ops.append(['controller', draw(st.sampled_from(ctrls))])
    for k in sorted(live):
        ops.append(['step', k, 1])
    return {'jobs': jobs, 'ops': ops}


_CACHE = {}


def history_check(case, ctx):
    kind, val = in_child(play, case['ops'], case['jobs'])
    if kind != 'ok':
        raise Violation('the history ends with: %s %s' % (kind, val))
    got, dflt = val
    for pos, (j, n, res) in enumerate(got):
        key = (json.dumps(case['jobs'][j], sort_keys=True), n)
        if key not in _CACHE:
            if len(_CACHE) > 300:
                _CACHE.clear()
            _CACHE[key] = in_child(fresh, case['jobs'][j], n)
        k2, ref = _CACHE[key]
        if k2 != 'ok':
            raise Violation('the same run alone in a process ends with: %s %s' % (k2, ref))
        if res != ref:
            raise Violation('result %d of the history (job %d, %d steps) differs from the same run in a fresh process: %s'
                            % (pos, j, n, describe(res, ref)))
    if 'dflt' not in _CACHE:
        _CACHE['dflt'] = in_child(defaults)[1]
    d0 = _CACHE['dflt']
    for name in d0:
        if name == 'cwd':
            continue
        if dflt[name] != d0[name]:
            diff = [k for k in d0[name] if dflt[name].get(k) != d0[name][k]] if isinstance(d0[name], dict) else ''
            raise Violation('after the history a new %s differs from one in a fresh process: %s' % (
                name, [(k, d0[name][k], dflt[name].get(k)) for k in diff]))
    ctx.interesting(len(got) >= 2)
    for j in case['jobs']:
        ctx.label(j['kind'], *runs.labels(j['case']))
    for op in case['ops']:
        ctx.label(op[0])


def describe(res, ref):
    if isinstance(res, tuple):
        if res[1] == ref[1]:
            a, b = np.frombuffer(res[0]), np.frombuffer(ref[0])
            return 'q by %r, t %r vs %r, aux equal %s, cfl %r vs %r' % (float(np.abs(a - b).max()), res[2], ref[2],
                                                                         res[3] == ref[3], res[4], ref[4])
        return 'shapes %s %s' % (res[1], ref[1])
    return 'frames or files %s' % [i for i, (a, b) in enumerate(zip(res, ref)) if a != b]


FAMILIES = [
    Family('histories', history_st(), history_check, quick=800, thorough=12000, shards=8, thorough_shards=8,
           rule='at least two results of the history were compared with fresh processes'),
]
