"""C24: text data lines and run-time options are parsed faithfully."""
import io
import json
import os
import sys

import numpy as np

from harness.core import Family, Violation, require
from harness.pc import st, data_spec, expand
from harness import sols

ID = 'C24'
ASSUMPTIONS = ['petsc4py is not installed here, so the PETSc branches of the option handling are not reached',
               'an option has exactly one "=": the documented key=value form']

WORD = st.text('abcdefghijklmnopqrstuvwxyzABCXYZ_', min_size=1, max_size=8)
FLOAT = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1e300, 5e-324, 0.1, -2.5]))
INT = st.integers(-10 ** 12, 10 ** 12)
GAP = st.sampled_from([' ', '  ', '\t', '     '])
FMT = ['%r', '%.17e', '%26.16e', '%18.8e', '%g']


# ------------------------------------------------------------ data lines
@st.composite
def lines_st(draw):
    recs = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['float', 'float', 'int', 'str']))
        n = draw(st.integers(1, 6))
        el = {'float': FLOAT, 'int': INT, 'str': WORD}[kind]
        recs.append({'kind': kind, 'vals': [draw(el) for _ in range(n)], 'ask': draw(st.integers(1, n)),
                     'fmt': draw(st.sampled_from(FMT)), 'blank': draw(st.integers(0, 3)),
                     'gap': draw(GAP), 'lead': draw(st.sampled_from(['', ' ', '   '])),
                     'tail': draw(st.sampled_from(['', '   # remark', '    num_eqn', ' =: lower  3']))})
    return {'recs': recs, 'nl': draw(st.booleans()), 'extra': draw(st.integers(0, 2))}


def lines_check(case, ctx):
    from clawpack.pyclaw import util
    d = ctx.tmpdir()
    name = os.path.join(d, 'data.txt')
    text = ''
    expected = []
    for r in case['recs']:
        if r['kind'] == 'float':
            words = [(r['fmt'] % v).strip() for v in r['vals']]
            vals = [float(w) for w in words]
        elif r['kind'] == 'int':
            words = [str(v) for v in r['vals']]
            vals = list(r['vals'])
        else:
            words = vals = list(r['vals'])
        text += ('\n' if r['blank'] != 2 else '  \t\n') * r['blank']
        text += r['lead'] + r['gap'].join(words) + r['tail'] + '\n'
        expected.append(vals)
    if not case['nl']:
        text = text[:-1]
    else:
        text += '\n' * case['extra']
    with open(name, 'w') as f:
        f.write(text)
    types = {'float': float, 'int': int, 'str': str}
    with open(name) as f:
        for r, vals in zip(case['recs'], expected):
            got = util.read_data_line(f, num_entries=r['ask'], data_type=types[r['kind']])
            want = vals[0] if r['ask'] == 1 else vals[:r['ask']]
            if r['ask'] > 1:
                got = list(got)
            require(got == want, 'read_data_line gave %r instead of %r', got, want)
            if r['kind'] == 'float' and r['ask'] == 1:
                require(isinstance(got, float), 'not a float: %r', got)
            if r['ask'] == 1 and r['kind'] == 'float':
                f2 = io.StringIO(r['lead'] + (r['fmt'] % r['vals'][0]).strip() + r['tail'] + '\n')
                require(util.read_data_line(f2) == want, 'the defaults read one float')
        try:
            extra = util.read_data_line(f)
        except IOError:
            extra = None
        require(extra is None, 'a value %r was read past the end of the file', extra)
    ctx.interesting(any(r['blank'] or r['ask'] > 1 or r['tail'] for r in case['recs']))
    ctx.label(*{r['kind'] for r in case['recs']})


# ------------------------------------------------------------ Fortran numbers
@st.composite
def fort_st(draw):
    mant = draw(st.one_of(FLOAT.filter(lambda v: v == 0 or 1e-200 < abs(v) < 1e200)))
    return {'m': mant, 'fmt': draw(st.sampled_from(['%.3f', '%.10f', '%r', '%.1f', '%d'])), 'e': draw(st.integers(-60, 60)),
            'esign': draw(st.sampled_from(['', '+', '0'])), 'D': draw(st.booleans())}


def fort_check(case, ctx):
    from clawpack.pyclaw import util
    m = case['m']
    if abs(m) > 1e15:
        m = m / 10 ** int(np.log10(abs(m)))
    word = case['fmt'] % m
    if 'e' in word:
        word = '%.10f' % m
    e = str(case['e'])
    if case['e'] >= 0:
        e = case['esign'] + e
    want = float(word + 'e' + e)
    got = util.convert_fort_double_to_float(word + ('D' if case['D'] else 'd') + e)
    require(isinstance(got, float) and got == want, '%sd%s became %r', word, e, got)
    ctx.interesting(want != 0)


# ------------------------------------------------------------ options
JSONV = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 9, 10 ** 9),
                               st.floats(-1e9, 1e9, allow_nan=False), WORD),
                     lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(WORD, c, max_size=3)), max_leaves=5)
PLAIN = st.sampled_from(['classic', 'sharpclaw', './_output', 'Fortran', 'a b', '-draw', '--snes', '12abc', 'none', 'tRUE',
                         '3.1.4', '_out/dir.1', '["pi"', "'q'", '', 'a,,b', ',', 'a,'])


@st.composite
def argv_st(draw):
    out = []
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(['json', 'word', 'bool', 'int', 'float']))
        v = {'json': JSONV, 'word': PLAIN, 'bool': st.booleans(), 'int': INT, 'float': FLOAT}[kind]
        key = draw(st.one_of(st.none(), WORD, WORD))
        out.append([key, kind, draw(v)])
    return {'args': out, 'method': draw(WORD), 'prog': draw(st.sampled_from(['prog.py', './a=b.py', '']))}


def argv_check(case, ctx):
    from clawpack.pyclaw import util
    words, args, kw = [], [], {}
    for key, kind, v in case['args']:
        if kind == 'word':
            s = v
        elif kind == 'bool':
            s = str(v)
        elif kind in ('int', 'float'):
            s = repr(v)
        else:
            s = json.dumps(v)
            # a JSON string that spells a truth value stands for it
            v = {'True': True, 'False': False}.get(v, v) if isinstance(v, str) else v
        if key is None:
            words.append(s)
            args.append(v)
        else:
            words.append(key + '=' + s)
            kw[key] = v
    same = lambda a, b: json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
    old = sys.argv
    default = len(words) % 2 == 1       # the argument list may be left out: then that of the process counts
    for name, lead in (('_info_from_argv', []), ('_method_info_from_argv', [case['method']])):
        fun = getattr(util, name, None)
        if fun is None:                 # not part of the public interface
            continue
        argv = [case['prog']] + lead + words
        keep = list(argv)
        sys.argv = argv if default else old
        try:
            got = fun() if default else fun(argv)
        finally:
            sys.argv = old
        ga, gk = got[-2:]
        require(same(ga, args) and same(gk, kw), 'options %r became %r %r', words, ga, gk)
        require(list(got[:-2]) == lead, 'the method %r became %r', lead, got[:-2])
        require(argv == keep, 'the argument list was changed')
    # an application gets exactly its options, without those of the plots
    seen = []

    class App:
        def run(self):
            seen.append('run')
            return {}

    def app(**k):
        seen.append(k)
        return App()
    sys.argv = [case['prog']] + words + ['htmlplot=False', 'iplot=0']
    try:
        claw = util.run_app_from_main(app)
    finally:
        sys.argv = old
    require(isinstance(claw, App), 'run_app_from_main returned %r', claw)
    require(len(seen) == 2 and seen[1] == 'run', 'the application ran %r', seen)
    require(same(seen[0], kw), 'the application got %r instead of %r', seen[0], kw)
    ctx.interesting(len(kw) > 0)
    ctx.label(*{k for _, k, _ in case['args']})
    # options written as arguments are what they were
    opts = {k: v for k, v in kw.items() if not isinstance(v, str) or ("'" not in v and '\\' not in v)}
    if not hasattr(util, '_arguments_str_from_dictionary'):
        return
    text = util._arguments_str_from_dictionary(opts)
    got = eval('dict(%s)' % text, {'dict': dict}) if all(k.isidentifier() and not __import__('keyword').iskeyword(k)
                                                        for k in opts) else opts
    require(same(got, opts), 'the argument string %s', text)


# ------------------------------------------------------------ comparison
@st.composite
def diff_st(draw):
    return {'q': draw(data_spec()), 'p': draw(data_spec(['rand', 'spike', 'const'])),
            'shape': [draw(st.integers(1, 3))] + [draw(st.integers(1, 5)) for _ in range(draw(st.integers(1, 3)))],
            'amp': draw(st.sampled_from([0.0, 1e-12, 1e-6, 1e-3, 1.0, -1e-4])),
            'ratio': draw(st.sampled_from([0.5, 0.99, 1.01, 2.0, 1e3, 1e-3])),
            'delta': draw(st.one_of(st.none(), st.sampled_from([0.1, 0.5, 4.0]),
                                     st.lists(st.sampled_from([0.1, 0.5, 2.0, 3.0]), min_size=1, max_size=3))),
            'kind': draw(st.sampled_from(['abstol', 'reltol', 'none'])), 'nan': draw(st.integers(0, 9))}


def diff_check(case, ctx):
    from clawpack.pyclaw import util
    a = expand(case['q'], case['shape'], 0.5, 2)
    b = a + case['amp'] * expand(case['p'], case['shape'], -1, 1)
    if case['nan'] == 0:
        b.flat[0] = np.nan
    ka, kb = a.copy(), b.copy()
    d = float(np.prod(case['delta'])) if case['delta'] else 1.0
    err = d * float(np.sqrt(np.sum((a - b) ** 2)))
    ne = d * float(np.sqrt(np.sum(a ** 2)))
    kw = {} if case['delta'] is None else {'delta': case['delta']}
    if case['kind'] == 'none':
        try:
            r = util.check_diff(a, b, **kw)
        except Exception:
            ctx.label('refused')
            return
        raise Violation('check_diff without a tolerance returned %r' % (r,))
    quant = err if case['kind'] == 'abstol' else err / ne
    tol = case['ratio'] * quant if quant > 0 else (1e-8 if case['nan'] else 1e3)
    if np.isnan(quant):
        tol = 1e3
    r = util.check_diff(a, b, **dict(kw, **{case['kind']: tol}))
    want_ok = bool(quant < tol)
    if want_ok:
        require(r is None, 'a difference of %r with %s %r was reported: %r', quant, case['kind'], tol, r)
    else:
        require(r is not None, 'a difference of %r with %s %r was not reported', quant, case['kind'], tol)
        nt = d * float(np.sqrt(np.sum(b ** 2)))
        for x, y in zip(r[:3], (ne, nt, err)):
            require((np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-10 * max(abs(y), 1e-300), 'reported %r', r)
        require(case['kind'] in r[3], 'reported %r', r)
    require(np.array_equal(a, ka) and np.array_equal(b, kb, equal_nan=True), 'check_diff changed its arguments')

    # a test application passes exactly when its verifier finds nothing
    log = []

    class App:
        def run(self):
            log.append('run')
    obj = App()

    def application(**k):
        log.append(k)
        return obj

    def verifier(claw):
        log.append(claw)
        return util.check_diff(a, b, **dict(kw, **{case['kind']: tol}))
    try:
        util.test_app(application, verifier, {'x': 1, 'use_petsc': False})
        passed = True
    except util.VerifyError:
        passed = False
    require(passed == want_ok, 'test_app %s', 'passed' if passed else 'failed')
    require(log == [{'x': 1, 'use_petsc': False}, 'run', obj], 'test_app called %r', log)
    ctx.interesting()
    ctx.label('same' if want_ok else 'different')


# ------------------------------------------------------------ solutions
@st.composite
def same_st(draw):
    return {'kind': draw(st.sampled_from(['none', 'none', 'q', 'aux', 't', 'level', 'cells', 'lower', 'drop', 'order', 'tiny',
                                                         'q2', 't1', 'shift', 'neqn', 'small', 'nan', 'nan_aux'])), 'spec': draw(sols.spec_st()),
            'which': draw(st.integers(0, 5)), 'pos': draw(st.integers(0, 1000))}


def same_check(case, ctx):
    from clawpack.pyclaw import util
    import copy
    a = sols.build(case['spec'])
    b = sols.build(case['spec'])
    for k, s in enumerate(a.states):
        s.patch.patch_index = k + 1
    for k, s in enumerate(b.states):
        s.patch.patch_index = k + 1
    n = len(b.states)
    s = b.states[case['which'] % n]
    kind = case['kind']
    want = False
    if kind in ('none', 'order'):
        want = True
        if kind == 'order':
            b.states.reverse()
    elif kind == 'q':
        s.q.flat[case['pos'] % s.q.size] += 1.0 + abs(s.q).max()
        if s.q.flags['C_CONTIGUOUS'] is False:
            idx = np.unravel_index(case['pos'] % s.q.size, s.q.shape)
            s.q[idx] += 1.0 + abs(s.q).max()
    elif kind == 'tiny':
        if abs(s.q).max() > 1e6:
            return
        idx = np.unravel_index(case['pos'] % s.q.size, s.q.shape)
        s.q[idx] += 1e-8
        want = True
    elif kind == 'small':
        if abs(s.q).max() > 1e6:
            return
        s.q[np.unravel_index(case['pos'] % s.q.size, s.q.shape)] += 1e-4 / (1 + case['which'] * 8)
    elif kind == 'nan':
        s.q[np.unravel_index(case['pos'] % s.q.size, s.q.shape)] = np.nan
    elif kind == 'nan_aux':
        if s.num_aux == 0:
            return
        s.aux[np.unravel_index(case['pos'] % s.aux.size, s.aux.shape)] = np.nan
    elif kind == 'aux':
        if s.num_aux == 0:
            return
        idx = np.unravel_index(case['pos'] % s.aux.size, s.aux.shape)
        s.aux[idx] += 1.0 + abs(s.aux).max()
    elif kind == 't':
        for k in b.states:
            k.t = k.t + 1.0
    elif kind == 'q2':      # differences that cancel
        if s.q.size < 2 or not abs(s.q).max() < 1e6:
            return
        for k, v in ((0, 0.5), (1, -0.5)):
            s.q[np.unravel_index((case['pos'] + k) % s.q.size, s.q.shape)] += v
    elif kind == 't1':
        s.t = s.t + 1.0
    elif kind == 'shift':
        d = s.patch.dimensions[case['pos'] % len(s.patch.dimensions)]
        by = d.upper - d.lower
        d.upper = d.upper + by
        d.lower = d.lower + by
    elif kind == 'neqn':
        m = s.num_eqn + 1
        new = np.zeros((m,) + s.q.shape[1:], order='F')
        new[:-1] = s.q
        s.q = new
    elif kind == 'level':
        s.patch.level += 1
    elif kind == 'cells':
        d = s.patch.dimensions[case['pos'] % len(s.patch.dimensions)]
        d.num_cells = d.num_cells + 1
    elif kind == 'lower':
        d = s.patch.dimensions[case['pos'] % len(s.patch.dimensions)]
        d.lower = d.lower - (d.upper - d.lower)
    elif kind == 'drop':
        if n == 1:
            return
        b.states.pop(case['which'] % n)
    for x in (a, b):
        for k in x.states:
            if kind != 'nan' and not np.isfinite(k.q).all() or abs(k.q).max() > 1e150:
                return
    ka = sols.snapshot(a)
    try:
        util.check_solutions_are_same(a, b)
        ok = True
    except (AssertionError, ValueError if kind == 'neqn' else AssertionError):
        ok = False
    require(ok == want, 'solutions that differ in %s were found %s', kind, 'the same' if ok else 'different')
    require(sols.snapshot(a) == ka, 'the comparison changed the solution')
    ctx.interesting(kind != 'none')
    ctx.label(kind)
    _ = copy


# ------------------------------------------------------------ counters, handles, variants
@st.composite
def misc_st(draw):
    return {'ops': [[draw(st.sampled_from(['inc', 'inc', 'set', 'reset', 'get'])), draw(st.integers(0, 3)), draw(st.integers(0, 10 ** 6))]
                    for _ in range(draw(st.integers(1, 20)))],
            'files': [[draw(WORD), draw(st.integers(-100, 100))] for _ in range(draw(st.integers(1, 4)))],
            'langs': draw(st.lists(st.sampled_from(['Fortran', 'Python', 'CUDA']), max_size=3)),
            'kw': draw(st.dictionaries(st.one_of(WORD, st.sampled_from(['kernel_language', 'solver_type'])), st.integers(0, 9), max_size=2))}


def misc_check(case, ctx):
    from clawpack.pyclaw import util
    counters = [util.FrameCounter() for _ in range(4)]
    model = [0] * 4
    for op, k, v in case['ops']:
        if op == 'inc':
            counters[k].increment()
            model[k] += 1
        elif op == 'set':
            counters[k].set_counter(v)
            model[k] = v
        elif op == 'reset':
            counters[k].reset_counter()
            model[k] = 0
        require([c.get_counter() for c in counters] == model, 'counters after %r', (op, k, v))
        require([repr(c) for c in counters] == [str(m) for m in model], 'printed counters')
    # function handles
    import keyword
    d = ctx.tmpdir()
    handles = []
    names = set()
    for k, (name, val) in enumerate(case['files']):
        if keyword.iskeyword(name) or name in ('helper', 'None', 'True', 'False'):
            continue
        other = bool(val % 2)
        fname = ('f%d' % k) if other else name
        sub = os.path.join(d, 'd%d.x' % k)
        os.makedirs(sub)
        path = os.path.join(sub, fname + '.py')
        with open(path, 'w') as f:
            f.write('def helper(x):\n    return x * %d\n\ndef %s(x):\n    return helper(x) + 1\n' % (val, name))
        h = util.construct_function_handle(path, name) if other else util.construct_function_handle(path)
        handles.append((h, val))
        names.add(name)
    for h, val in handles:
        require(h(7) == 7 * val + 1, 'a function handle gives %r', h(7))
    for bad in ('nothing.py', 'text.txt'):
        p = os.path.join(d, bad)
        if bad.endswith('txt'):
            open(p, 'w').write('x')
        try:
            util.construct_function_handle(p)
        except Exception:
            continue
        raise Violation('a function handle was made from %s' % bad)
    # variants of an application
    log = []

    class App:
        def run(self):
            pass

    def application(**kw):
        log.append(kw)
        return App()
    langs = case['langs']
    kwargs = {k: v for k, v in case['kw'].items() if k not in ('application', 'verifier', 'kernel_languages')}
    tests = list(util.gen_variants(application, lambda claw: None, kernel_languages=tuple(langs), **kwargs))
    for t in tests:
        t()
    want = [dict({'use_petsc': False, 'kernel_language': lang}, **kwargs) for lang in langs]
    require(log == want, 'variants ran with %r instead of %r', log, want)
    ctx.interesting(len(handles) > 1 or len(case['ops']) > 5)


FAMILIES = [
    Family('data_lines', lines_st(), lines_check, quick=800, thorough=16000, shards=1,
           rule='a file with a blank line, a remark, or a line of several values'),
    Family('fortran_numbers', fort_st(), fort_check, quick=800, thorough=16000, rule='non-zero number'),
    Family('options', argv_st(), argv_check, quick=800, thorough=16000, shards=1, rule='at least one keyword option'),
    Family('check_diff', diff_st(), diff_check, quick=800, thorough=16000, shards=1, rule='a tolerance was given'),
    Family('same_solution', same_st(), same_check, quick=1500, thorough=8000, shards=2, rule='the two solutions differ in one respect'),
    Family('misc', misc_st(), misc_check, quick=400, thorough=8000, shards=1, rule='several function handles or a longer history'),
]
