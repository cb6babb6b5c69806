"""C18: gauges record the cell that contains them at every step."""
import contextlib
import os
from fractions import Fraction

import numpy as np

from harness import claw
from harness.core import Family, require
from harness.pc import st
from props import c17

ID = 'C18'
ASSUMPTIONS = ['gauge positions are distinct; a gauge on a cell edge (to rounding) may take either neighbour',
               'a gauge file holds the records of the latest run, the memory those of all runs',
               'Lagrangian gauges exist in two dimensions only']


# ---- gauges of a run ------------------------------------------------------------

@st.composite
def run_st(draw):
    nd = draw(st.sampled_from([1, 1, 2, 2, 3]))
    case = draw(claw.problem_case(nd, lambda p: (p.linear or p.scalar) and p.sharp and not p.fwave,
                                  cells=(4, 8) if nd < 3 else (4, 5), kinds=['smooth', 'step', 'rand']))
    case['solver'] = draw(st.sampled_from(['Claw', 'SharpClaw']))
    case['fixed'] = draw(st.booleans())
    case['low'] = [draw(st.sampled_from([0.0, -1.0, 0.3])) for _ in range(nd)]
    pos = []
    for _ in range(draw(st.integers(1, 4))):
        p = []
        for d in range(nd):
            kind = draw(st.sampled_from(['in', 'in', 'in', 'edge', 'center', 'low', 'up', 'near', 'out', 'by', 'by']))
            n, lo, L = case['cells'][d], case['low'][d], case['len'][d]
            if kind == 'in':
                x = lo + L * draw(st.floats(0, 1, exclude_max=True))
            elif kind == 'edge':
                x = lo + draw(st.integers(0, n - 1)) * (L / n)
            elif kind == 'by':      # beside an edge, by more than rounding
                x = lo + (draw(st.integers(1, n)) + draw(st.sampled_from([-1, 1])) * 10.0 ** -draw(st.integers(2, 9))) * (L / n)
            elif kind == 'center':
                x = lo + (draw(st.integers(0, n - 1)) + 0.5) * (L / n)
            elif kind == 'low':
                x = lo
            elif kind == 'up':
                x = lo + L
            elif kind == 'near':
                x = float(np.nextafter(lo + L, -10))
            else:
                x = lo + L * draw(st.sampled_from([-0.5, 1.5, -1e-6]))
            p.append(x)
        pos.append(p)
    case['pos'] = pos
    case['func'] = draw(st.sampled_from(['default', 'two', 'scalar', 'aux']))
    case['keep'] = draw(st.booleans())
    case['fmt'] = draw(st.sampled_from(['ascii', None]))
    case['runs'] = draw(st.lists(st.fixed_dictionaries({'n': st.integers(1, 3), 'steps': st.integers(1, 3)}), min_size=1,
                                 max_size=2))
    case['cfl'] = draw(st.sampled_from([[0.4, 1e6], [0.5, 0.6], [0.5, 0.6]]))
    case['dt0'] = draw(st.sampled_from([0.5, 4.0, 40.0]))
    case['split'] = draw(st.booleans())
    return case


def cell(x, lo, up, n):
    """Indices of the cells that contain x, two of them for x on an edge to rounding."""
    r = (Fraction(x) - Fraction(lo)) * n / (Fraction(up) - Fraction(lo))
    out = set()
    eps = Fraction(1, 10 ** 12) * (1 + abs(Fraction(lo)) + abs(Fraction(up))) * n / (Fraction(up) - Fraction(lo))
    for s in (-eps, Fraction(0), eps):
        i = (r + s).__floor__()
        if 0 <= i < n:
            out.add(int(i))
    return out


def gauge_func(kind):
    if kind == 'two':
        return lambda q, aux: [2 * q[0], q[-1] - 1]
    if kind == 'scalar':
        return lambda q, aux: 3 * q[0]
    if kind == 'aux':
        return lambda q, aux: np.array([q[0], -1.0 if aux is None else aux.sum()])
    return None


def run_check(case, ctx):
    from clawpack import pyclaw
    d = ctx.tmpdir()
    up = [a + b for a, b in zip(case['low'], case['len'])]
    prob, solver, sol, params = claw.setup(case, case['solver'], case['low'], up)
    solver.cfl_desired, solver.cfl_max = case['cfl']
    solver.dt_variable = not case['fixed']
    if case['fixed']:
        solver.cfl_max = 1e6
    solver.dt_initial = c17.DT * (1 if case['fixed'] else case['dt0'])
    solver.dt_max = 0.2
    grid = sol.state.grid
    pos = [p for k, p in enumerate(case['pos']) if p not in case['pos'][:k]]
    if case['split']:
        for p in pos:
            grid.add_gauges([p])
    else:
        grid.add_gauges([tuple(p) for p in pos])
    inside = [p for p in pos if all(l <= x < u for x, l, u in zip(p, grid.lower, grid.upper))]
    require(len(grid.gauges) == len(inside), '%d gauges of %r are inside %r, %d were taken', len(inside), pos,
            [grid.lower, grid.upper], len(grid.gauges))
    cells = []
    for p, g in zip(inside, grid.gauges):
        for e in range(prob.nd):
            ok = cell(p[e], grid.lower[e], grid.upper[e], case['cells'][e])
            require(int(g[e]) in ok, 'gauge at %r got cell %r in direction %d, not %r', p, g, e, sorted(ok))
        cells.append(tuple(int(x) for x in g))
    f = gauge_func(case['func'])
    if f is not None:
        solver.compute_gauge_values = f
    sol.state.keep_gauges = case['keep']
    history = []

    def before(solver_, state):
        if not history or history[-1][0] != state.t:
            history.append((state.t, np.array(state.q, copy=True)))
    solver.before_step = before
    ctrl = pyclaw.Controller()
    ctrl.verbosity = 0
    ctrl.solution, ctrl.solver = sol, solver
    ctrl.outdir = d
    ctrl.output_format = case['fmt']
    memory = [[] for _ in inside]
    aux = sol.state.aux
    aux = None if aux is None else np.array(aux, copy=True)
    steps = 0
    for r in case['runs']:
        del history[:]
        ctrl.num_output_times = r['n']
        ctrl.tfinal = sol.t + r['n'] * r['steps'] * (c17.DT if case['fixed'] else 0.013)
        status = ctrl.run()
        rows = list(history)
        if rows[-1][0] != sol.t:
            rows.append((sol.t, np.array(sol.q, copy=True)))
        require(len(rows) - 1 == status['numsteps'] - steps, 'recorded %d steps, the status says %d', len(rows) - 1,
                status['numsteps'] - steps)
        steps = status['numsteps']
        for k, (p, c) in enumerate(zip(inside, cells)):
            want = []
            for t, q in rows:
                qc = q[(slice(None),) + c]
                v = qc if f is None else f(qc, None if aux is None else aux[(slice(None),) + c])
                want.append([t] + [float(x) for x in np.atleast_1d(v)])
            memory[k] += want
            name = 'gauge' + '_'.join(str(x) for x in p) + '.txt'
            got = [[float(x) for x in line.split()] for line in open(os.path.join(d, '_gauges', name))]
            require(len(got) == len(want), 'gauge at %r has %d records on file instead of %d', p, len(got), len(want))
            require(got == want, 'gauge at %r recorded %r instead of %r', p,
                    *next((a, b) for a, b in zip(got, want) if a != b) if got != want else (0, 0))
            if case['keep']:
                data = np.atleast_2d(sol.state.gauge_data[k])
                require(data.tolist() == memory[k], 'gauge at %r in memory: %d records, wanted %d; or values differ', p,
                        len(data), len(memory[k]))
    if not case['keep']:
        require(len(sol.state.gauge_data) == 0, 'gauge data were kept unasked')
    files = os.listdir(os.path.join(d, '_gauges')) if os.path.isdir(os.path.join(d, '_gauges')) else []
    require(len(files) == len(inside), '%d gauge files for %d gauges', len(files), len(inside))
    ctx.label('%dD' % prob.nd, case['solver'], case['func'], 'gauges%d' % min(len(inside), 3), 'runs%d' % len(case['runs']))
    ctx.label('outside' if len(inside) < len(pos) else 'all-inside')
    ctx.interesting(len(inside) > 0 and steps > 2)


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


# ---- gauge files --------------------------------------------------------------------

@st.composite
def file_st(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 40)))
    nd = draw(st.integers(1, 3))
    return {'nd': nd, 'n': n, 'eqn': draw(st.integers(1, 5)), 'id': draw(st.sampled_from([0, 1, 42, 99999, 123456])),
            'loc': [draw(st.one_of(st.sampled_from([0.0, -1.5, 1e-8, 1e7, 0.1]), st.floats(-1e6, 1e6))) for _ in range(nd)],
            'seed': draw(st.integers(0, 9999)), 'scale': draw(st.sampled_from([1.0, 1e-20, 1e20])),
            'kind': draw(st.sampled_from(['own', 'ascii', 'old', 'binary', 'binary64', 'binary32', 'nofmt'])),
            'lagr': draw(st.booleans()), 'init': draw(st.booleans()), 'here': draw(st.integers(0, 3)) == 0}


def file_check(case, ctx):
    from clawpack.pyclaw.gauges import GaugeSolution
    d = ctx.tmpdir()
    rng = np.random.default_rng(case['seed'])
    n, m = case['n'], case['eqn']
    lagr = case['lagr'] and case['nd'] == 2 and m >= 3
    level = rng.integers(1, 9, n)
    t = np.cumsum(rng.uniform(0, 1, n)) * case['scale']
    q = rng.uniform(-1, 1, (m, n)) * 10.0 ** rng.integers(-12, 12, (m, n))
    base = os.path.join(d, 'gauge%s' % str(case['id']).zfill(5))
    tol = 1e-14
    if case['kind'] == 'own':
        g = GaugeSolution()
        require(not g.is_valid(), 'an empty gauge is valid')
        g.id, g.location, g.level, g.t, g.q = case['id'], tuple(case['loc']), level, t, q
        if lagr:
            g.gtype = 'lagrangian'
        require(g.is_valid(), 'a complete gauge is not valid')
        if case['here']:
            with inside(d):
                g.write()
        else:
            g.write(d)
        require(os.listdir(d) == [os.path.basename(base) + '.txt'], 'files %r', os.listdir(d))
    else:
        fmt = case['kind']
        if lagr and fmt == 'old':
            lagr = False
        with open(base + '.txt', 'w') as f:
            f.write('# gauge_id= %5d location=( %s ) num_var= %2d\n' % (case['id'], ' '.join('%.17E' % x for x in case['loc']), m))
            if fmt != 'old':
                f.write('# %s gauge\n' % ('Lagrangian' if lagr else 'Stationary'))
            f.write('# level, time, q[%s], eta[], aux[]\n' % ' '.join(str(i + 1) for i in range(m)))
            if fmt == 'ascii':
                f.write('# file format ascii, time series follow in this file\n')
            elif fmt.startswith('binary'):
                f.write('# file format %s, time series in .bin file\n' % fmt)
            if fmt in ('ascii', 'old'):
                for i in range(n):
                    f.write('%5d %25.17E %s\n' % (level[i], t[i], ' '.join('%25.17E' % v for v in q[:, i])))
        if fmt.startswith('binary') or fmt == 'nofmt':
            dt = np.float32 if fmt == 'binary32' else np.float64
            rec = np.vstack([level, t, q]).astype(dt)
            rec.tofile(base + '.bin') if False else open(base + '.bin', 'wb').write(rec.tobytes(order='F'))
            t, q = rec[1].astype(float), rec[2:].astype(float)
        tol = 0.0
    if case['here']:        # the current directory
        with inside(d):
            if case['init']:
                r = GaugeSolution(case['id'])
            else:
                r = GaugeSolution()
                r.read(case['id'])
    elif case['init']:
        r = GaugeSolution(case['id'], d)
    else:
        r = GaugeSolution()
        r.read(case['id'], path=d)
    require(r.is_valid() and r.id == case['id'], 'id %r', r.id)
    require(len(r.location) == case['nd'] and np.allclose(r.location, case['loc'], rtol=1e-15, atol=0),
            'location %r became %r', case['loc'], r.location)
    require(r.gtype == ('lagrangian' if lagr else 'stationary'), 'type %r', r.gtype)
    require(r.level.tolist() == level.tolist(), 'levels %r became %r', level.tolist(), r.level.tolist())
    require(r.t.shape == t.shape and (np.abs(r.t - t) <= tol * np.abs(t)).all(), 'times %r became %r', t.tolist(), r.t.tolist())
    require(r.q.shape == q.shape and (np.abs(r.q - q) <= tol * np.abs(q)).all(), 'values %r became %r', q.tolist(), r.q.tolist())
    if case['nd'] == 2:
        want = np.vstack([r.t, r.q[1], r.q[2]]).T if lagr else np.array([[r.t[0], *r.location]])
        require(np.array_equal(r.particle_path, want), 'particle path %r', r.particle_path)
    text = open(base + '.txt').read()
    data = open(base + '.bin', 'rb').read() if os.path.exists(base + '.bin') else None
    for bad in ('more', 'fewer', 'cut'):     # records that are not what the header says
        if bad == 'cut':
            if data is None:
                continue
            open(base + '.bin', 'wb').write(data[:-8])
            open(base + '.txt', 'w').write(text)
        else:
            num = text.split('\n')[0].rsplit('=', 1)
            head = '%s= %d' % (num[0], m + (1 if bad == 'more' else -1))
            open(base + '.txt', 'w').write(head + '\n' + text.split('\n', 1)[1])
            if data is not None:
                # the same number of values may make whole records of another length
                if (n * (m + 2)) % (m + 2 + (1 if bad == 'more' else -1)) == 0:
                    continue
        try:
            GaugeSolution(case['id'], d)
        except Exception:
            continue
        require(False, 'a gauge file with %d values per record but %s was accepted', m,
                'cut short' if bad == 'cut' else bad + ' in the header')
    open(base + '.txt', 'w').write(text)
    for name in ('id', 'location', 'level', 't', 'q'):
        g = GaugeSolution()
        g.id, g.location, g.level, g.t, g.q = r.id, r.location, r.level, r.t, r.q
        setattr(g, name, None)
        require(not g.is_valid(), 'a gauge without %s is valid', name)
        e = ctx.tmpdir()
        try:
            g.write(e)
        except Exception:
            require(not os.listdir(e), 'refusing a gauge without %s left a file', name)
        else:
            require(False, 'a gauge without %s was written', name)
    try:
        GaugeSolution(case['id'] + 1, d)
    except Exception:
        pass
    else:
        require(False, 'a gauge that does not exist was read')
    os.rename(base + '.txt', os.path.join(d, 'gauge00007.txt'))
    if case['id'] != 7:
        try:
            GaugeSolution(7, d)
        except ValueError:
            pass
        else:
            require(False, 'a file of another gauge was accepted')
    ctx.label('%dD' % case['nd'], case['kind'], 'lagrangian' if lagr else 'stationary')
    ctx.interesting(n > 1)


# ---- the old single file ----------------------------------------------------------------

@st.composite
def old_st(draw):
    return {'ids': draw(st.lists(st.integers(1, 6), min_size=1, max_size=8)), 'eqn': draw(st.integers(1, 4)),
            'seed': draw(st.integers(0, 9999)), 'bad': draw(st.booleans())}


def old_check(case, ctx):
    from clawpack.pyclaw.gauges import GaugeSolution, convert_gauges, compare_old_gauges
    d = ctx.tmpdir()
    rng = np.random.default_rng(case['seed'])
    rows = [[i, int(rng.integers(1, 5)), 0.125 * k] + (rng.integers(-64, 64, case['eqn']) / 8.0).tolist()
            for k, i in enumerate(case['ids'])]
    old = os.path.join(d, 'fort.gauge')
    with open(old, 'w') as f:
        for r in rows:
            f.write(' '.join('%.17g' % v for v in r) + '\n')
    new = os.path.join(d, 'new')
    os.mkdir(new)
    convert_gauges(old, new)
    require(len(os.listdir(new)) == len(set(case['ids'])), 'files %r', os.listdir(new))
    for i in set(case['ids']):
        mine = [r for r in rows if r[0] == i]
        g = GaugeSolution(i, new)
        require(g.level.tolist() == [r[1] for r in mine] and g.t.tolist() == [r[2] for r in mine]
                and g.q.T.tolist() == [r[3:] for r in mine], 'gauge %d was converted to %r', i, g.q.T.tolist())
        require(bool(compare_old_gauges(old, new, i)), 'equal gauges are said to differ')
    if case['bad']:
        i = case['ids'][0]
        g = GaugeSolution(i, new)
        g.q = g.q.copy()
        g.q[-1, -1] += 1e-6
        g.write(new)
        require(not compare_old_gauges(old, new, i), 'different gauges are said to agree')
    ctx.interesting(len(set(case['ids'])) > 1)


FAMILIES = [
    Family('run', run_st(), run_check, quick=2400, thorough=25000, shards=4, rule='a gauge inside and more than two steps'),
    Family('file', file_st(), file_check, quick=4000, thorough=40000, shards=2, rule='more than one record'),
    Family('old', old_st(), old_check, quick=800, thorough=5000, shards=1, rule='several gauges'),
]
