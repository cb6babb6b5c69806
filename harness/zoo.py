"""The Riemann problems used by the generated runs, and a generic way to call
their compiled solvers directly (they belong to clawpack.riemann, which is
outside the repository under test and trusted)."""
import re

import numpy as np

from harness.pc import expand


# --------------------------------------------------------------------------
#  calling a compiled Riemann solver on one slice of ghosted data
# --------------------------------------------------------------------------
_SIG = {}


def _signature(f):
    key = id(f)
    if key not in _SIG:
        doc = f.__doc__
        head = doc.split('\n')[0]
        m = re.match(r'(?:(.*?) = )?(\w+)\((.*?)(?:,?\[(.*)\])?\)$', head)
        outs = [o.strip() for o in m.group(1).split(',')] if m.group(1) else []
        args = [a.strip() for a in m.group(3).split(',') if a.strip()]
        scal = set(re.findall(r'^(\w+) : (?:input|in/output) (?:float|int)', doc, re.M))
        _SIG[key] = (f, outs, args, scal)
    return _SIG[key][1:]


def call(f, ints, arrays, nout):
    """ints: maps the generic names (maxm, mwaves, mbc, mx, maux, ixy, icoor,
    imp, impt); arrays: inputs by name; nout: shapes of the outputs by name."""
    outs, args, scal = _signature(f)
    given = []
    created = {}
    for a in args:
        g = {'maxmx': 'maxm', 'num_waves': 'mwaves', 'num_ghost': 'mbc', 'num_cells': 'mx',
             'num_aux': 'maux', 'ixyz': 'ixy'}.get(a, a)
        if g in ints:
            given.append(int(ints[g]))
        elif a in arrays:
            if a in scal:
                given.append(0.0)
            else:
                given.append(np.array(arrays[a], dtype=float, order='F'))
        else:
            o = 'wave' if a == 'fwave' else a
            created[o] = np.zeros(nout[o], order='F')
            given.append(created[o])
    r = f(*given)
    if outs:
        if len(outs) == 1:
            r = (r,)
        for o, v in zip(outs, r):
            created['wave' if o == 'fwave' else o] = np.array(v)
    return created


def rpn(f, q, aux, mwaves, ixy=None, mbc=2, qr=None, auxr=None):
    """Waves, speeds and fluctuations at every interface of one slice; index i
    is the interface between cells i-1 and i. Entry 0 is not meaningful.
    With qr (and auxr): q has the values right of the interfaces i, qr those left of the interfaces i+1."""
    meqn, n = q.shape
    if aux is None:
        aux = np.zeros((0, n))
    mx = n - 2 * mbc
    a = aux if aux.shape[0] else np.zeros((1, n))
    ints = {'maxm': mx, 'mwaves': mwaves, 'mbc': mbc, 'mx': mx, 'maux': a.shape[0], 'ixy': ixy}
    ar = a if auxr is None or not auxr.shape[0] else auxr
    out = call(f, ints, {'ql': q, 'qr': q if qr is None else qr, 'auxl': a, 'auxr': ar},
               {'wave': (meqn, mwaves, n), 's': (mwaves, n), 'amdq': (meqn, n), 'apdq': (meqn, n)})
    return out['wave'], out['s'], out['amdq'], out['apdq']


def rpt2(f, ixy, imp, q, aux1, aux2, aux3, asdq, mwaves, mbc=2):
    meqn, n = q.shape
    z = np.zeros((1, n))
    fix = lambda a: a if a is not None and a.shape[0] else z
    a1, a2, a3 = fix(aux1), fix(aux2), fix(aux3)
    mx = n - 2 * mbc
    out = call(f, {'maxm': mx, 'mwaves': mwaves, 'mbc': mbc, 'mx': mx, 'maux': a1.shape[0], 'ixy': ixy, 'imp': imp},
               {'ql': q, 'qr': q, 'aux1': a1, 'aux2': a2, 'aux3': a3, 'asdq': asdq},
               {'bmasdq': (meqn, n), 'bpasdq': (meqn, n)})
    return out['bmasdq'], out['bpasdq']


def rpt3(f, ixy, icoor, imp, q, aux1, aux2, aux3, asdq, mwaves, mbc=2):
    meqn, n = q.shape
    z = np.zeros((1, n, 3))
    fix = lambda a: a if a is not None and a.shape[0] else z
    a1, a2, a3 = fix(aux1), fix(aux2), fix(aux3)
    mx = n - 2 * mbc
    out = call(f, {'maxm': mx, 'mwaves': mwaves, 'mbc': mbc, 'mx': mx, 'maux': a1.shape[0], 'ixy': ixy,
                   'imp': imp, 'icoor': icoor},
               {'ql': q, 'qr': q, 'aux1': a1, 'aux2': a2, 'aux3': a3, 'asdq': asdq},
               {'bmasdq': (meqn, n), 'bpasdq': (meqn, n)})
    return out['bmasdq'], out['bpasdq']


def rptt3(f, ixy, icoor, imp, impt, q, aux1, aux2, aux3, bsasdq, mwaves, mbc=2):
    meqn, n = q.shape
    z = np.zeros((1, n, 3))
    fix = lambda a: a if a is not None and a.shape[0] else z
    a1, a2, a3 = fix(aux1), fix(aux2), fix(aux3)
    mx = n - 2 * mbc
    out = call(f, {'maxm': mx, 'mwaves': mwaves, 'mbc': mbc, 'mx': mx, 'maux': a1.shape[0], 'ixy': ixy,
                   'imp': imp, 'icoor': icoor, 'impt': impt},
               {'ql': q, 'qr': q, 'aux1': a1, 'aux2': a2, 'aux3': a3, 'bsasdq': bsasdq},
               {'cmbsasdq': (meqn, n), 'cpbsasdq': (meqn, n)})
    return out['cmbsasdq'], out['cpbsasdq']


# --------------------------------------------------------------------------
#  data
# --------------------------------------------------------------------------
def free(neq, amp=1.0):
    def q(spec, cells, p):
        return expand(spec, (neq,) + tuple(cells), -amp, amp)
    return q


def unit(spec, cells, p):
    return expand(spec, (1,) + tuple(cells), 0.05, 0.95)


def fluid(nd, energy, nextra=0):
    """rho (or h), momenta, and the energy if there is one, then passive ones."""
    def q(spec, cells, p):
        n = 1 + nd + (1 if energy else 0) + nextra
        z = expand(spec, (n,) + tuple(cells), 0.0, 1.0)
        out = np.empty_like(z)
        rho = 0.5 + 1.5 * z[0]
        out[0] = rho
        ke = 0.0
        for d in range(nd):
            u = -0.4 + 0.8 * z[1 + d]
            out[1 + d] = rho * u
            ke = ke + 0.5 * rho * u * u
        k = 1 + nd
        if energy:
            pr = 0.5 + 1.5 * z[k]
            out[k] = pr / (p['gamma'] - 1.0) + ke
            k += 1
        for e in range(nextra):
            out[k] = rho * z[k]
            k += 1
        return out
    return q


def auxr(ranges):
    def a(spec, cells, p):
        z = expand(spec, (len(ranges),) + tuple(cells), 0.0, 1.0)
        for k, (lo, hi) in enumerate(ranges):
            z[k] = lo + (hi - lo) * z[k]
        return z
    return a


def aux_elastic(spec, cells, p):
    z = expand(spec, (3,) + tuple(cells), 0.0, 1.0)
    rho, lam, mu = 1 + z[0], 1 + z[1], 0.5 + z[2]
    return np.array([rho, lam, mu, np.sqrt((lam + 2 * mu) / rho), np.sqrt(mu / rho)])


def aux_psys(spec, cells, p):
    z = expand(spec, (2,) + tuple(cells), 0.0, 1.0)
    lin = np.full(tuple(cells), 2.0 if spec['seed'] % 2 else 1.0)
    return np.array([1 + z[0], 1 + z[1], lin])


def acoustic_params(rho, bulk):
    return {'rho': rho, 'bulk': bulk, 'zz': float(np.sqrt(rho * bulk)), 'cc': float(np.sqrt(bulk / rho))}


P_AC = lambda a, b: acoustic_params(0.5 + 2 * a, 0.5 + 3 * b)
P_NONE = lambda a, b: {}
P_G = lambda a, b: {'grav': 1.0 + 8 * a}
P_GAM = lambda a, b: {'gamma': 1.2 + 0.6 * a, 'gamma1': 0.2 + 0.6 * a}


class Prob:
    def __init__(self, name, nd, rp, eqn, waves, q, aux=None, naux=0, params=P_NONE, fwave=False,
                 conserved=None, trans=True, language='Fortran', reflect=None, sharp=True, scalar=False,
                 linear=False):
        self.name, self.nd, self.rp, self.eqn, self.waves = name, nd, rp, eqn, waves
        self.q, self.aux, self.naux, self.params, self.fwave = q, aux, naux, params, fwave
        # components whose total is conserved
        self.conserved = list(range(eqn)) if conserved is None else list(conserved)
        self.trans, self.language = trans, language
        self.reflect = reflect
        self.sharp = sharp
        self.scalar = scalar
        self.linear = linear

    def module(self):
        from clawpack import riemann
        import importlib
        if callable(self.rp):
            return self.rp
        if self.language == 'Python':
            mod, fun = self.rp.split(':')
            return getattr(importlib.import_module('clawpack.riemann.' + mod), fun)
        return getattr(riemann, self.rp)


def _g(a, b):
    return {'gamma': 1.2 + 0.6 * a}


def linear6(q_l, q_r, aux_l, aux_r, problem_data):
    """A linear system with six fields, in the form of a user's own Riemann solver in Python."""
    R, lam = R6, np.array(problem_data['lam'])
    n = q_l.shape[1]
    alpha = np.linalg.solve(R, q_r - q_l)
    wave = np.einsum('mp,pi->mpi', R, alpha)
    s = np.repeat(lam[:, None], n, axis=1)
    amdq = np.einsum('mpi,p->mi', wave, np.minimum(lam, 0))
    apdq = np.einsum('mpi,p->mi', wave, np.maximum(lam, 0))
    return wave, s, amdq, apdq


def quasi6(q_l, q_r, aux_l, aux_r, problem_data):
    """Six fields, with waves whose directions depend on the data."""
    lam = np.array(problem_data['lam'])
    th = 0.4 * np.tanh(q_l[0] + q_r[0])
    R = R6[None] + th[:, None, None] * S6[None]
    alpha = np.linalg.solve(R, (q_r - q_l).T[:, :, None])[:, :, 0]
    wave = np.einsum('imp,ip->mpi', R, alpha)
    s = np.repeat(lam[:, None], q_l.shape[1], axis=1)
    amdq = np.einsum('mpi,p->mi', wave, np.minimum(lam, 0))
    apdq = np.einsum('mpi,p->mi', wave, np.maximum(lam, 0))
    return wave, s, amdq, apdq


def pair(q_l, q_r, aux_l, aux_r, problem_data):
    """One equation, two waves: advection as a relaxation system; as f-waves when asked."""
    u, a = problem_data['u'], problem_data['a']
    dq = q_r - q_l
    w2 = 0.5 * (1 + u / a) * dq
    w1 = dq - w2
    s = np.empty((2, q_l.shape[1]))
    s[0], s[1] = -a, a
    k = (-a, a) if problem_data['f'] else (1.0, 1.0)
    return np.stack([k[0] * w1, k[1] * w2], axis=1), s, -a * w1, a * w2


def bundle(q_l, q_r, aux_l, aux_r, problem_data):
    """Three equations, one wave; as an f-wave when asked."""
    u = problem_data['u']
    dq = q_r - q_l
    s = np.full((1, q_l.shape[1]), u)
    return (u if problem_data['f'] else 1.0) * dq[:, None, :], s, min(u, 0.0) * dq, max(u, 0.0) * dq


R6 = np.eye(6) + 0.35 * np.cos(np.outer(np.arange(1, 7), np.arange(2, 8)) * 1.7)
S6 = 0.4 * np.sin(np.outer(np.arange(2, 8), np.arange(1, 7)) * 0.9)

PROBLEMS = [
    # ---- one dimension, compiled
    Prob('advection_1D', 1, 'advection_1D', 1, 1, free(1), params=lambda a, b: {'u': (0.2 + a) * (1 if b > .5 else -1)},
         scalar=True, linear=True),
    Prob('burgers_1D', 1, 'burgers_1D', 1, 1, free(1), params=lambda a, b: {'efix': True}, scalar=True),
    Prob('cubic_1D', 1, 'cubic_1D', 1, 1, free(1), scalar=True),
    Prob('traffic_1D', 1, 'traffic_1D', 1, 1, unit, params=lambda a, b: {'umax': 0.5 + a}, scalar=True),
    Prob('traffic_vc_1D', 1, 'traffic_vc_1D', 1, 1, unit, aux=auxr([(0.5, 2)]), naux=1, sharp=False, conserved=[]),
    Prob('traffic_vc_fwave_1D', 1, 'traffic_vc_fwave_1D', 1, 1, unit, aux=auxr([(0.5, 2)]), naux=1, fwave=True,
         sharp=False),
    Prob('acoustics_1D', 1, 'acoustics_1D', 2, 2, free(2), params=P_AC, reflect=[1], linear=True),
    Prob('acoustics_variable_1D', 1, 'acoustics_variable_1D', 2, 2, free(2), aux=auxr([(0.5, 2), (0.5, 2)]), naux=2,
         conserved=[], reflect=[1], linear=True),
    Prob('advection_color_1D', 1, 'advection_color_1D', 1, 1, free(1), aux=auxr([(0.3, 1)]), naux=1, conserved=[],
         linear=True),
    Prob('euler_with_efix_1D', 1, 'euler_with_efix_1D', 3, 3, fluid(1, True), params=_g, reflect=[1]),
    Prob('euler_hlle_1D', 1, 'euler_hlle_1D', 3, 2, fluid(1, True), params=_g, reflect=[1]),
    Prob('reactive_euler_with_efix_1D', 1, 'reactive_euler_with_efix_1D', 4, 4, fluid(1, True, 1),
         params=lambda a, b: {'gamma': 1.2 + 0.6 * a, 'qheat': 0.1 + b}, reflect=[1], sharp=False, conserved=[]),
    Prob('shallow_roe_with_efix_1D', 1, 'shallow_roe_with_efix_1D', 2, 2, fluid(1, False), params=P_G, reflect=[1]),
    Prob('shallow_hlle_1D', 1, 'shallow_hlle_1D', 2, 2, fluid(1, False), params=P_G, reflect=[1]),
    # this Riemann solver adds to an apdq(3) it never sets: only for kernels that pass zeroed arrays
    Prob('shallow_roe_tracer_1D', 1, 'shallow_roe_tracer_1D', 3, 3, fluid(1, False, 1), params=P_G, reflect=[1], sharp=False,
         conserved=[0, 1]),
    Prob('shallow_bathymetry_fwave_1D', 1, 'shallow_bathymetry_fwave_1D', 2, 2, fluid(1, False),
         aux=auxr([(-0.5, 0.0)]), naux=1, fwave=True, conserved=[0], reflect=[1],
         params=lambda a, b: {'grav': 1.0 + 8 * a, 'dry_tolerance': 1e-3, 'sea_level': 0.0}, sharp=False),
    Prob('nonlinear_elasticity_fwave_1D', 1, 'nonlinear_elasticity_fwave_1D', 2, 2, free(2, 0.3),
         aux=auxr([(1, 2), (1, 2), (0.0, 0.5)]), naux=3, fwave=True, reflect=[1], sharp=False),
    # ---- one dimension, Python
    Prob('py_advection_1D', 1, 'advection_1D_py:advection_1D', 1, 1, free(1), language='Python',
         params=lambda a, b: {'u': (0.2 + a) * (1 if b > .5 else -1)}, scalar=True, linear=True),
    Prob('py_burgers_1D', 1, 'burgers_1D_py:burgers_1D', 1, 1, free(1), language='Python',
         params=lambda a, b: {'efix': True}, scalar=True),
    Prob('py_acoustics_1D', 1, 'acoustics_1D_py:acoustics_1D', 2, 2, free(2), language='Python', params=P_AC,
         reflect=[1], linear=True),
    Prob('py_vc_advection_1D', 1, 'vc_advection_1D_py:vc_advection_1D', 1, 1, free(1), aux=auxr([(0.3, 1)]), naux=1,
         language='Python', conserved=[], linear=True),
    Prob('py_euler_roe_1D', 1, 'euler_1D_py:euler_roe_1D', 3, 3, fluid(1, True), language='Python',
         params=lambda a, b: {'gamma': 1.2 + 0.6 * a, 'gamma1': 0.2 + 0.6 * a, 'efix': False}, reflect=[1]),
    Prob('py_euler_hllc_1D', 1, 'euler_1D_py:euler_hllc_1D', 3, 3, fluid(1, True), language='Python',
         params=lambda a, b: {'gamma': 1.2 + 0.6 * a, 'gamma1': 0.2 + 0.6 * a, 'efix': False}, reflect=[1]),
    Prob('py_shallow_roe_1D', 1, 'shallow_1D_py:shallow_roe_1D', 2, 2, fluid(1, False), language='Python',
         params=lambda a, b: {'grav': 1 + 8 * a, 'efix': False}, reflect=[1]),
    Prob('py_shallow_hll_1D', 1, 'shallow_1D_py:shallow_hll_1D', 2, 2, fluid(1, False), language='Python',
         params=lambda a, b: {'grav': 1 + 8 * a, 'efix': False}, reflect=[1]),
    Prob('py_nonlinear_elasticity_1D', 1, 'nonlinear_elasticity_1D_py:nonlinear_elasticity_1D', 2, 2, free(2, 0.3),
         aux=auxr([(1, 2), (1, 2)]), naux=2, fwave=True, language='Python', reflect=[1],
         params=lambda a, b: {'stress_relation': 'exponential'}),
    Prob('py_linear6_1D', 1, linear6, 6, 6, free(6), language='Python', linear=True,
         params=lambda a, b: {'lam': [-a, -0.4 * b, -1e-9, 1e-9 * b, 0.3 * a, 0.7]}),
    Prob('py_quasi6_1D', 1, quasi6, 6, 6, free(6), language='Python', conserved=[],
         params=lambda a, b: {'lam': [-a, -0.4 * b, -1e-9, 1e-9 * b, 0.3 * a, 0.7]}),
    # numbers of waves and equations that differ
    *[Prob('py_%s%s_1D' % (n, 'f' if f else ''), 1, fun, eqn, waves, free(eqn), language='Python', fwave=f, linear=True,
           params=lambda a, b, f=f: {'u': (0.2 + a) * (1 if b > .5 else -1), 'a': 1.3, 'f': f})
      for n, fun, eqn, waves in (('pair', pair, 1, 2), ('bundle', bundle, 3, 1)) for f in (False, True)],
    # ---- two dimensions
    Prob('advection_2D', 2, 'advection_2D', 1, 1, free(1),
         params=lambda a, b: {'u': 0.2 + a, 'v': -0.2 - b if a > .5 else 0.2 + b}, scalar=True, linear=True),
    Prob('burgers_2D', 2, 'burgers_2D', 1, 1, free(1), scalar=True),
    Prob('kpp_2D', 2, 'kpp_2D', 1, 1, free(1, 3.0), scalar=True, trans=False),
    Prob('acoustics_2D', 2, 'acoustics_2D', 3, 2, free(3), params=P_AC, reflect=[1, 2], linear=True),
    Prob('vc_acoustics_2D', 2, 'vc_acoustics_2D', 3, 2, free(3), aux=auxr([(0.5, 2), (0.5, 2)]), naux=2,
         conserved=[], reflect=[1, 2], linear=True),
    Prob('vc_advection_2D', 2, 'vc_advection_2D', 1, 1, free(1), aux=auxr([(-1, 1), (-1, 1)]), naux=2, conserved=[],
         linear=True),
    Prob('vc_elasticity_2D', 2, 'vc_elasticity_2D', 5, 4, free(5), aux=aux_elastic, naux=5, conserved=[], linear=True),
    Prob('euler_4wave_2D', 2, 'euler_4wave_2D', 4, 4, fluid(2, True), params=_g, reflect=[1, 2]),
    Prob('euler_5wave_2D', 2, 'euler_5wave_2D', 5, 5, fluid(2, True, 1), params=_g, reflect=[1, 2], conserved=[0, 1, 2, 3]),
    Prob('euler_hlle_2D', 2, 'euler_hlle_2D', 4, 2, fluid(2, True), params=_g, trans=False, reflect=[1, 2]),
    Prob('shallow_roe_with_efix_2D', 2, 'shallow_roe_with_efix_2D', 3, 3, fluid(2, False), params=P_G, reflect=[1, 2]),
    Prob('shallow_hlle_2D', 2, 'shallow_hlle_2D', 3, 2, fluid(2, False), params=P_G, trans=False, reflect=[1, 2]),
    Prob('shallow_bathymetry_fwave_2D', 2, 'shallow_bathymetry_fwave_2D', 3, 3, fluid(2, False),
         aux=auxr([(-0.5, 0.0)]), naux=1, fwave=True, conserved=[0], reflect=[1, 2],
         params=lambda a, b: {'grav': 1.0 + 8 * a, 'dry_tolerance': 1e-3, 'sea_level': 0.0}, sharp=False,
         trans=False),    # its rpt2 accumulates into memory it never initialises
    Prob('psystem_2D', 2, 'psystem_2D', 3, 2, free(3, 0.3), aux=aux_psys, naux=4, fwave=True, reflect=[1, 2],
         sharp=False),
    # ---- three dimensions
    Prob('burgers_3D', 3, 'burgers_3D', 1, 1, free(1), params=lambda a, b: {'coeff': [0.5 + a, 0.4 + b, 1.0]},
         scalar=True),
    Prob('vc_advection_3D', 3, 'vc_advection_3D', 1, 1, free(1), aux=auxr([(-1, 1)] * 3), naux=3, conserved=[],
         linear=True),
    Prob('vc_acoustics_3D', 3, 'vc_acoustics_3D', 4, 2, free(4), aux=auxr([(0.5, 2), (0.5, 2)]), naux=2, conserved=[],
         reflect=[1, 2, 3], linear=True),
    Prob('euler_3D', 3, 'euler_3D', 5, 3, fluid(3, True), params=_g, reflect=[1, 2, 3]),
]
BY_NAME = {p.name: p for p in PROBLEMS}
# pointwise variants of the same Riemann solvers, for comparison with the others
for _n in ('advection_1D', 'acoustics_1D', 'acoustics_2D'):
    _p = BY_NAME[_n]
    BY_NAME[_n + '_ptwise'] = Prob(_n + '_ptwise', _p.nd, _n + '_ptwise', _p.eqn, _p.waves, _p.q, params=_p.params, reflect=_p.reflect)
# parameters that may be zero or false
OFF = {'advection_1D': {'u': 0.0}, 'advection_2D': {'v': 0.0}, 'burgers_1D': {'efix': False}, 'burgers_3D': {'coeff': [0.0, 1.0, 0.5]},
       'py_advection_1D': {'u': 0.0}}


def _psys_aux(spec, cells, p):
    a = aux_psys(spec, cells, p)
    return np.concatenate([a, np.zeros((1,) + tuple(cells))])


BY_NAME['psystem_2D'].aux = _psys_aux
