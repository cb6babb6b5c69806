"""Runner: drives the families of one property with Hypothesis, in forked
worker processes, and turns the outcome into exit code, VIOLATION lines,
replay files and the evidence file.

A *family* is (strategy, check): the strategy builds a JSON-able case, the
check is a pure function of the case and of the code under test which raises
on a violation.  Each shard of a family runs in a forked child, so that a
crash in compiled code ends only that child; the case that was running is on
disk and becomes the replay file.
"""
import binascii
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def import_hypothesis():
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append(_VT)
        try:
            import hypothesis  # noqa
            import hypothesis.strategies  # noqa
        finally:
            sys.path.remove(_VT)
    return sys.modules['hypothesis']


class Violation(AssertionError):
    """The property is broken on this case."""


class Ctx:
    """Passed to check(case, ctx): where a check says what it exercised."""

    def __init__(self, scratch):
        self.scratch_root = scratch
        self.labels = []
        self.nontrivial = False
        self._n = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def tmpdir(self):
        self._n += 1
        d = os.path.join(self.scratch_root, 'case%d_%d' % (os.getpid(), self._n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


class Family:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=1,
                 rule='', explicit=(), case_timeout=90, thorough_shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 4)
        self.rule = rule
        self.explicit = list(explicit)
        self.case_timeout = case_timeout


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, default=_json_default)


def _json_default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


class _StopShrinking(BaseException):
    pass


SHRINK_CALLS = 250
SHRINK_SECONDS = 25.0
QUICK = 5             # the quick tier generates this many times the examples that a family states
SECONDS = {'quick': 400.0, 'thorough': 6 * 3600.0}     # no new cases after this long


def _run_case(family, case, scratch):
    ctx = Ctx(scratch)
    family.check(case, ctx)
    return ctx


def _shard(family, prop_id, seed, shard, nshards, max_examples, workdir, stop):
    """Body of a child process; leaves result.json in workdir."""
    hypothesis = import_hypothesis()
    from hypothesis import given, settings, HealthCheck, Phase
    scratch = os.path.join(workdir, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    current = os.path.join(workdir, 'current.json')
    stats = {'evaluations': 0, 'nontrivial': 0, 'distinct': set(), 'labels': {},
             'samples': [], 'failure': None, 'error': None}
    fail = {'case': None, 'msg': None, 'calls': 0, 't0': None}

    def finish():
        out = dict(stats)
        out['distinct'] = sorted(stats['distinct'])
        if fail['case'] is not None:
            out['failure'] = {'case': fail['case'], 'message': fail['msg']}
        with open(os.path.join(workdir, 'result.json.tmp'), 'w') as f:
            json.dump(out, f, default=_json_default)
        os.replace(os.path.join(workdir, 'result.json.tmp'),
                   os.path.join(workdir, 'result.json'))

    def one(case):
        if fail['case'] is not None:
            fail['calls'] += 1
            if fail['calls'] > SHRINK_CALLS or time.monotonic() - fail['t0'] > SHRINK_SECONDS:
                raise _StopShrinking()
        elif time.monotonic() > stop:
            stats['labels']['out of time'] = stats['labels'].get('out of time', 0) + 1
            return
        text = canon(case)
        case = json.loads(text)
        with open(current, 'w') as f:
            f.write(text)
        ctx = Ctx(scratch)
        stats['evaluations'] += 1
        # the code under test may use the global generators
        import numpy as np
        random.seed(0)
        np.random.seed(0)
        try:
            family.check(case, ctx)
        except (KeyboardInterrupt, _StopShrinking):
            raise
        except (MemoryError,):
            stats['error'] = 'MemoryError on %s' % text
            finish()
            os._exit(3)
        except BaseException as e:
            if isinstance(e, hypothesis.errors.StopTest) or \
                    type(e).__module__.startswith('hypothesis'):
                raise
            msg = '%s: %s' % (type(e).__name__, e)
            if not isinstance(e, Violation):
                msg += '\n' + traceback.format_exc()
            if fail['t0'] is None:
                fail['t0'] = time.monotonic()
            if fail['case'] is None or len(text) <= len(canon(fail['case'])):
                fail['case'] = json.loads(text)
                fail['msg'] = msg
            raise AssertionError(type(e).__name__) from None
        finally:
            os.chdir(scratch)
            for d in os.listdir(scratch):
                p = os.path.join(scratch, d)
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
        for lab in ctx.labels:
            stats['labels'][lab] = stats['labels'].get(lab, 0) + 1
        if ctx.nontrivial:
            stats['nontrivial'] += 1
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in stats['distinct']:
                stats['distinct'].add(h)
                if len(stats['samples']) < 2:
                    stats['samples'].append(case)

    code = 0
    try:
        if shard == 0:
            for case in family.explicit:
                one(case)
        test = settings(max_examples=max_examples, database=None, deadline=None,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink),
                        report_multiple_bugs=False, print_blob=False,
                        verbosity=hypothesis.Verbosity.quiet)(
            given(family.strategy)(one))
        s = (binascii.crc32((prop_id + '/' + family.name).encode()) * 1000003
             + seed * 7919 + shard * 104729) % (2 ** 63)
        test = hypothesis.seed(s)(test)
        test()
    except _StopShrinking:
        pass
    except BaseException:
        if fail['case'] is None:
            stats['error'] = traceback.format_exc()
            code = 3
    finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _fork(fn, *args):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 4
    try:
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        except Exception:
            pass
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
        except Exception:
            pass
        quiet = os.open(os.devnull, os.O_WRONLY)   # compiled code writes to unit 6
        os.dup2(quiet, 1)
        os.dup2(quiet, 2)
        fn(*args)
        code = 0
    except SystemExit as e:
        code = int(e.code or 0)
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def _confirm(family, case, workdir, timeout):
    """Run one case in a fresh child. Returns ('ok'|'violation'|'crash'|'hang', message)."""
    os.makedirs(workdir, exist_ok=True)
    out = os.path.join(workdir, 'confirm.txt')

    def body():
        scratch = os.path.join(workdir, 'scratch_c')
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        try:
            _run_case(family, case, scratch)
        except BaseException as e:
            msg = '%s: %s' % (type(e).__name__, e)
            if not isinstance(e, Violation):
                msg += '\n' + traceback.format_exc()
            with open(out, 'w') as f:
                f.write(msg)
            os._exit(1)
        os._exit(0)

    if os.path.exists(out):
        os.unlink(out)
    pid = _fork(body)
    t0 = time.monotonic()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return 'hang', 'no result after %d s' % timeout
        time.sleep(0.01)
    if os.WIFSIGNALED(st):
        return 'crash', 'killed by signal %d' % os.WTERMSIG(st)
    if os.WEXITSTATUS(st) == 0:
        return 'ok', ''
    if os.path.exists(out):
        return 'violation', open(out).read()
    return 'crash', 'process ended with status %d' % os.WEXITSTATUS(st)


def run_property(prop, tier, seed, verif, jobs=8):
    """prop: module with ID, FAMILIES, ASSUMPTIONS. Returns exit code."""
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop.ID)
    replay_dir = os.path.join(verif, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    queue = []
    for fam in prop.FAMILIES:
        n = max(1, int(fam.quick * QUICK)) if tier == 'quick' else fam.thorough
        shards = 2 * fam.shards if tier == 'quick' else fam.thorough_shards
        shards = max(1, min(shards, n))
        for s in range(shards):
            queue.append((fam, s, shards, -(-n // shards)))
    running = {}
    results = []
    violation = None
    errors = []
    try:
        while (queue or running):
            while queue and len(running) < jobs and violation is None:
                fam, s, shards, n = queue.pop(0)
                wd = os.path.join(work, '%s_%d' % (fam.name, s))
                os.makedirs(wd)
                pid = _fork(_shard, fam, prop.ID, seed, s, shards, n, wd, t0 + SECONDS[tier])
                running[pid] = (fam, s, wd)
            if violation is not None:
                queue = []
            done = []
            for pid in list(running):
                fam, s, wd = running[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    done.append((pid, st))
                    continue
                cur = os.path.join(wd, 'current.json')
                try:
                    age = time.time() - os.stat(cur).st_mtime
                except OSError:
                    age = 0
                if age > fam.case_timeout:
                    os.kill(pid, signal.SIGKILL)
                    _, st = os.waitpid(pid, 0)
                    done.append((pid, 'hang'))
            for pid, st in done:
                fam, s, wd = running.pop(pid)
                rf = os.path.join(wd, 'result.json')
                if st != 'hang' and os.path.exists(rf):
                    res = json.load(open(rf))
                    results.append((fam, s, res))
                    if res['failure'] is not None:
                        if violation is None:
                            violation = (fam, res['failure']['case'], res['failure']['message'])
                    elif res['error']:
                        errors.append('%s shard %d: %s' % (fam.name, s, res['error']))
                else:
                    why = 'no answer within %d s' % fam.case_timeout if st == 'hang' else \
                        'the process died (wait status %s)' % st
                    try:
                        case = json.load(open(os.path.join(wd, 'current.json')))
                    except (OSError, ValueError):
                        errors.append('%s shard %d: %s before any case' % (fam.name, s, why))
                        continue
                    kind, msg = _confirm(fam, case, os.path.join(wd, 'confirm'), fam.case_timeout)
                    if kind == 'ok':
                        # seen once, not reproducible on its own: depends on the
                        # cases before it. A crash is still a crash.
                        if st == 'hang':
                            errors.append('%s shard %d: a case took longer than %d s once'
                                          % (fam.name, s, fam.case_timeout))
                        elif violation is None:
                            violation = (fam, case, why + ' (after earlier cases in the same process)')
                    elif violation is None:
                        violation = (fam, case, why + '; again in a fresh process: ' + msg)
            if running and not done:
                time.sleep(0.02)
            if violation is not None and running:
                for pid in running:
                    os.kill(pid, signal.SIGKILL)
                for pid in running:
                    os.waitpid(pid, 0)
                running = {}
                queue = []
        known = []
        for kf in getattr(prop, 'KNOWN', ()):
            kind, msg = _confirm(kf.family, kf.case, os.path.join(work, 'kf_%s' % kf.name), 120)
            if kind != 'ok':
                known.append(kf)
        ev = _evidence(prop, tier, seed, results, violation, known, time.monotonic() - t0)
        with open(os.path.join(verif, 'evidence', prop.ID + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_json_default)
            f.write('\n')
        for kf in known:
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, kf.text))
        if violation is not None:
            fam, case, msg = violation
            path = os.path.join(replay_dir, '%s-%s.json' % (prop.ID, fam.name))
            with open(path, 'w') as f:
                json.dump({'property': prop.ID, 'family': fam.name, 'case': case,
                           'message': msg, 'replay_cmd': 'bash check.sh %s --replay %s' % (prop.ID, path)},
                          f, indent=1, default=_json_default)
                f.write('\n')
            print('family %s: %s' % (fam.name, msg))
            print('case: %s' % canon(case)[:2000])
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            sys.stdout.flush()
            return 1
        if errors:
            for e in errors:
                print('ERROR ' + e, file=sys.stderr)
            return 3
        print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
            prop.ID, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
        return 0
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)


def _evidence(prop, tier, seed, results, violation, known, wall):
    per = {}
    for fam in prop.FAMILIES:
        per[fam.name] = {'evaluations': 0, 'distinct': set(), 'labels': {}, 'samples': [],
                         'rule': fam.rule}
    for fam, s, res in results:
        e = per[fam.name]
        e['evaluations'] += res['evaluations']
        e['distinct'] |= set(res['distinct'])
        for k, v in res['labels'].items():
            e['labels'][k] = e['labels'].get(k, 0) + v
        if len(e['samples']) < 2:
            e['samples'].extend(res['samples'][:2 - len(e['samples'])])
    fams = {}
    samples = []
    for name, e in per.items():
        fams[name] = {'evaluations': e['evaluations'], 'distinct_nontrivial': len(e['distinct']),
                      'classes': dict(sorted(e['labels'].items()))}
        for c in e['samples']:
            samples.append({'family': name, 'case': c})
    rule = ' || '.join('%s: %s' % (n, e['rule']) for n, e in per.items())
    return {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(e['evaluations'] for e in per.values()),
            'distinct_nontrivial': sum(len(e['distinct']) for e in per.values()),
            'rule': rule, 'samples': samples, 'families': fams,
            'known_findings_reproduced': [k.name for k in known],
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': 0 if violation is None else 1,
    }
