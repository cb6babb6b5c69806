"""Independent reference models of the classic wave-propagation updates."""
import numpy as np

from harness import zoo


# --------------------------------------------------------------------------
#  limiter functions of the ratio r (and the local Courant number c)
# --------------------------------------------------------------------------
def phi(meth, r, c=None):
    r = np.asarray(r, dtype=float)
    mn, mx = np.minimum, np.maximum
    ab = np.abs
    if c is not None:
        c = np.asarray(c, dtype=float)
        clo, chi = mx(c, 0.001), mn(c, 0.999)
        third = (1 + c) / 3.0
    if meth == 1:
        return mx(0.0, mn(1.0, r))
    if meth == 2:
        return mx(0.0, mx(mn(1.0, 2 * r), mn(2.0, r)))
    if meth == 3:
        return (r + ab(r)) / (1 + ab(r))
    if meth == 4:
        return mx(0.0, mn(mn((1 + r) / 2, 2.0), 2 * r))
    if meth == 5:
        return r
    if meth == 6:
        return 0.5 * (1 + r)
    if meth == 7:
        return r * (1 + r) / (1 + r * r)
    if meth == 8:
        return 0.5 * (1 + r) * (1 - ab(1 - r) ** 3 / (1 + ab(r) ** 3))
    if meth == 9:
        rp = mx(r, 1e-5)
        x = mn(r, 1 / rp)
        return (r + ab(r)) / (1 + ab(r)) * (1 + x * (1 - x) * (1 - x * x))
    if meth == 10:
        return 1 + third * (r - 1)
    if meth == 11:
        return mx(0.0, mn(mn(0.99 * 2 / c * r, 1 + third * (r - 1)), 0.99 * 2 / (1 - c)))
    if meth in (12, 13, 14):
        th = {12: 0.95, 13: 0.75, 14: 0.5}[meth]
        s1, pm = 2 / clo, 2 / (1 - chi)
        left = mx((1 - th) * s1, 1 + third * (r - 1))
        mid = mx((1 - th) * pm * r, th * s1 * r)
        return mn(mn(left, mid), th * pm)
    if meth == 15:
        return mx(0.0, mx(mn(1.0, 2 * r / clo), mn(2 / (1 - chi), r)))
    if meth == 16:
        ultra = mx(0.0, mn(0.95 * 2 / clo * r, 0.95 * 2 / (1 - chi)))
        return mn(ultra, mx(1.0, r))
    if meth in (17, 18):
        th = {17: 1.0, 18: 0.95}[meth]
        ultra = mx(0.0, mn(th * 2 / clo * r, th * 2 / (1 - chi)))
        b = 2.0 / 3.0
        return mx(0.0, mn(ultra, mx(1 + (third - b / 2) * (r - 1), 1 + (third + b / 2) * (r - 1))))
    if meth == 19:
        out = np.zeros(np.broadcast(r, c).shape)
        r_, c_, lo_, hi_ = np.broadcast_arrays(r, c, clo, chi)
        near = ab(r_ - 1) < 1e-6
        out[near] = 1.0
        k = (r_ >= 0) & ~near
        d = r_[k] - 1
        out[k] = 2 * (r_[k] / d) * (c_[k] * d + 1 - r_[k] ** c_[k]) / (lo_[k] * (1 - hi_[k]) * d)
        return out
    if meth == 20:
        s3 = 1 - third
        pp = np.where(r <= 1, 2 / c * 2 * s3, 2 / (1 - c) * 2 * third)
        frac = ab((1 - ab(r)) / (1 + ab(r)))
        sg = np.where(r > 0, 1.0, 0.0)
        return sg * (s3 + third * r) * (1 - frac ** pp)
    if meth == 21:
        e = 1e-3
        k = mx(mn(c, 0.95), 0.05)
        with np.errstate(divide='ignore'):
            up = mn(2 * ab(r) / (k + e), (8 - 2 * k) / (ab(r) * (k - 1 - e) ** 2)) * (1 - e)
            low = -2 * (k * k - 3 * k + 8) * (1 - e) / (ab(r) * (k ** 3 - k * k - k + 1 + e))
        return mx(mn(1 + (1 + k) / 3 * (r - 1), up), low)
    if meth == 22:
        with np.errstate(divide='ignore'):
            return mx(mn(mn(1 + third * (r - 1), 2 * ab(r) / (0.6 + ab(r))), 5 / ab(r)), -3 / ab(r))
    if meth == 23:
        return mx(0.0, mn(2 / clo * r, 2 / (1 - chi)))
    raise ValueError(meth)


def limit_waves(wave, s, lims, lo, hi, dtdx):
    """Limited copies of the waves at interfaces lo..hi (inclusive); interface i
    lies between cells i-1 and i."""
    out = wave.copy()
    n = wave.shape[2]
    for mw, meth in enumerate(lims):
        if meth == 0:
            continue
        for i in range(lo, hi + 1):
            w = wave[:, mw, i]
            n2 = float(np.dot(w, w))
            if n2 == 0.0:
                continue
            up = i - 1 if s[mw, i] > 0 else i + 1
            r = float(np.dot(wave[:, mw, up], w)) / n2
            c = None
            if meth >= 10:
                c = abs(s[mw, i]) * (dtdx[i - 1] if s[mw, i] > 0 else dtdx[i])
            out[:, mw, i] = float(phi(meth, r, c)) * w
    return out


class Slice:
    """Everything a sweep along one line of cells produces."""


def sweep(q, dtdx, solve, order, lims, fwave, g=2):
    """One line of ghosted cells. solve(q) gives wave, s, amdq, apdq with
    interface i between cells i-1 and i.  Interfaces of the domain: g..n-g."""
    n = q.shape[1]
    lo, hi = g, n - g
    wave, s, amdq, apdq = solve(q)
    o = Slice()
    o.wave, o.s, o.amdq, o.apdq = wave, s, amdq, apdq
    o.dq = np.zeros_like(q)
    for i in range(lo, hi + 1):
        o.dq[:, i] -= dtdx[i] * apdq[:, i]
        o.dq[:, i - 1] -= dtdx[i - 1] * amdq[:, i]
    c = 0.0
    for i in range(lo, hi + 1):
        for mw in range(s.shape[0]):
            v = s[mw, i]
            c = max(c, dtdx[i] * v, -dtdx[i - 1] * v)
    o.cfl = c
    # second-order correction fluxes at the interfaces
    o.F = np.zeros_like(q)
    if order == 2:
        lw = limit_waves(wave, s, lims, lo, hi, dtdx) if any(lims) else wave
        for i in range(lo, hi + 1):
            nu = 0.5 * (dtdx[i - 1] + dtdx[i])
            for mw in range(s.shape[0]):
                a = abs(s[mw, i])
                fac = (np.copysign(1.0, s[mw, i]) if fwave else a) * (1 - a * nu)
                o.F[:, i] += 0.5 * fac * lw[:, mw, i]
    o.lo, o.hi = lo, hi
    return o


def step1(q, aux, dx, dt, solve, order, lims, fwave, capa=None, g=2):
    n = q.shape[1]
    k = np.ones(n) if capa is None else capa
    dtdx = dt / (dx * k)
    o = sweep(q, dtdx, solve, order, lims, fwave, g)
    new = q + o.dq
    for i in range(g, n - g):
        new[:, i] -= dtdx[i] * (o.F[:, i + 1] - o.F[:, i])
    return new[:, g:n - g], o.cfl


# --------------------------------------------------------------------------
#  two dimensions
# --------------------------------------------------------------------------
def take(a, axis, line):
    """The line of cells along `axis` with the other index `line`."""
    if a is None:
        return None
    return a[:, :, line] if axis == 0 else a[:, line, :]


def split2(q, aux, d, dt, solve, order, lims, fwave, capa=None, g=2):
    """x sweep over every row, then y sweep over every column.
    solve(axis, q1d, aux1d) -> wave, s, amdq, apdq.  The Courant number is a
    pair: over the lines of the domain, and over the ghost lines as well."""
    cfl, low = 0.0, 0.0
    for axis in (0, 1):
        other = 1 - axis
        new = q.copy()
        for line in range(q.shape[1 + other]):
            q1 = take(q, axis, line)
            a1 = take(aux, axis, line)
            k = np.ones(q1.shape[1]) if capa is None else take(capa[None], axis, line)[0]
            dtdx = dt / (d[axis] * k)
            o = sweep(q1, dtdx, lambda qq: solve(axis, qq, a1), order, lims, fwave, g)
            u = q1 + o.dq
            n = q1.shape[1]
            u[:, g:n - g] -= dtdx[g:n - g] * (o.F[:, g + 1:n - g + 1] - o.F[:, g:n - g])
            take(new, axis, line)[:, g:n - g] = u[:, g:n - g]
            cfl = max(cfl, o.cfl)
            if g <= line < q.shape[1 + other] - g:
                low = max(low, o.cfl)
        q = new
    return q[:, g:-g, g:-g], (low, cfl)


def unsplit2(q, aux, d, dt, solve, trans, tsolve, order, lims, fwave, capa=None, g=2):
    """tsolve(axis, imp, q1d, (aux_below, aux, aux_above), asdq) -> bm, bp."""
    new = q.copy()
    cfl, low = 0.0, 0.0
    kap = np.ones(q.shape[1:]) if capa is None else capa
    for axis in (0, 1):
        other = 1 - axis
        nl = q.shape[1 + other]
        for line in range(g - 1, nl - g + 1):
            q1 = take(q, axis, line)
            a1 = take(aux, axis, line)
            k = take(kap[None], axis, line)[0]
            n = q1.shape[1]
            dtdx = dt / (d[axis] * k)
            o = sweep(q1, dtdx, lambda qq: solve(axis, qq, a1), order, lims, fwave, g)
            cfl = max(cfl, o.cfl)
            if g <= line < nl - g:
                low = max(low, o.cfl)
            tgt = take(new, axis, line)
            u = o.dq.copy()
            u[:, g:n - g] -= dtdx[g:n - g] * (o.F[:, g + 1:n - g + 1] - o.F[:, g:n - g])
            tgt[:, g:n - g] += u[:, g:n - g]
            if trans == 0:
                continue
            am, ap = o.amdq.copy(), o.apdq.copy()
            if order == 2 and trans == 2:
                am[:, o.lo:o.hi + 1] += 2 * o.F[:, o.lo:o.hi + 1]
                ap[:, o.lo:o.hi + 1] -= 2 * o.F[:, o.lo:o.hi + 1]
            auxs = tuple(take(aux, axis, line + s) for s in (-1, 0, 1)) if aux is not None else (None,) * 3
            # G flux increments on the lower and upper side of the cells of the line
            G = np.zeros((2,) + q1.shape)
            bm, bp = tsolve(axis, 1, q1, auxs, am)
            for i in range(o.lo, o.hi + 1):
                G[0, :, i - 1] -= 0.5 * dtdx[i - 1] * bm[:, i]
                G[1, :, i - 1] -= 0.5 * dtdx[i - 1] * bp[:, i]
            bm, bp = tsolve(axis, 2, q1, auxs, ap)
            for i in range(o.lo, o.hi + 1):
                G[0, :, i] -= 0.5 * dtdx[i] * bm[:, i]
                G[1, :, i] -= 0.5 * dtdx[i] * bp[:, i]
            r = dt / d[other]
            inner = slice(g, n - g)
            for shift, val in ((0, -(G[1] - G[0])), (-1, -G[0]), (1, G[1])):
                kk = take(kap[None], axis, line + shift)[0]
                take(new, axis, line + shift)[:, inner] += (r / kk * val)[:, inner]
    return new[:, g:-g, g:-g], (low, cfl)


# --------------------------------------------------------------------------
#  solvers for the models
# --------------------------------------------------------------------------
def solver_1d(prob, aux, params):
    m = prob.module()
    if prob.language == 'Python':
        def solve(q):
            al = ar = None
            if aux is not None:
                al, ar = aux[:, :-1], aux[:, 1:]
            w, s, am, ap = m(q[:, :-1], q[:, 1:], al, ar, params)
            pad = lambda a: np.concatenate([np.zeros(a.shape[:-1] + (1,)), a], axis=-1)
            return pad(w), pad(s), pad(am), pad(ap)
        return solve
    return lambda q: zoo.rpn(m.rp1, q, aux, prob.waves)


def set_params(prob, params):
    m = prob.module()
    if hasattr(m, 'cparam'):
        for k, v in params.items():
            if hasattr(m.cparam, k):
                setattr(m.cparam, k, v)


# --------------------------------------------------------------------------
#  three dimensions
# --------------------------------------------------------------------------
def line3(a, axis, b, c, ib, ic):
    """View of the line of cells along `axis`, at index ib of dimension b and ic of c."""
    idx = [slice(None)] * 4
    idx[1 + b], idx[1 + c] = ib, ic
    return a[tuple(idx)]


def split3(q, aux, d, dt, solve, order, lims, fwave, capa=None, g=2):
    """x, y and z sweeps in turn, over every line."""
    cfl, low = 0.0, 0.0
    for axis in range(3):
        b, c = (axis + 1) % 3, (axis + 2) % 3
        new = q.copy()
        for ib in range(q.shape[1 + b]):
            for ic in range(q.shape[1 + c]):
                q1 = line3(q, axis, b, c, ib, ic)
                a1 = None if aux is None else line3(aux, axis, b, c, ib, ic)
                n = q1.shape[1]
                k = np.ones(n) if capa is None else line3(capa[None], axis, b, c, ib, ic)[0]
                dtdx = dt / (d[axis] * k)
                o = sweep(q1, dtdx, lambda qq: solve(axis, qq, a1), order, lims, fwave, g)
                u = q1 + o.dq
                u[:, g:n - g] -= dtdx[g:n - g] * (o.F[:, g + 1:n - g + 1] - o.F[:, g:n - g])
                line3(new, axis, b, c, ib, ic)[:, g:n - g] = u[:, g:n - g]
                cfl = max(cfl, o.cfl)
                if g <= ib < q.shape[1 + b] - g and g <= ic < q.shape[1 + c] - g:
                    low = max(low, o.cfl)
        q = new
    return q[:, g:-g, g:-g, g:-g], (low, cfl)


def unsplit3(q, aux, d, dt, solve, trans, tsolve, ttsolve, order, lims, fwave, capa=None, g=2):
    """trans = 10*m3 + m4: m3 = 1 increment waves, 2 also correction waves travel
    transversely; m4 = 1, 2 the same for the double transverse directions.
    tsolve(axis, dir, imp, q1, auxs, asdq), ttsolve(axis, dir, imp, impt, q1, auxs, bsasdq)
    with dir 2 for the first and 3 for the second of the other two directions."""
    m3, m4 = trans // 10, trans % 10
    new = q.copy()
    cfl, low = 0.0, 0.0
    kap = np.ones(q.shape[1:]) if capa is None else capa
    for axis in range(3):
        b, c = (axis + 1) % 3, (axis + 2) % 3
        rb, rc = dt / d[b], dt / d[c]
        for ib in range(g - 1, q.shape[1 + b] - g + 1):
            for ic in range(g - 1, q.shape[1 + c] - g + 1):
                q1 = line3(q, axis, b, c, ib, ic)
                a1 = None if aux is None else line3(aux, axis, b, c, ib, ic)
                n = q1.shape[1]
                dtdx = dt / (d[axis] * line3(kap[None], axis, b, c, ib, ic)[0])
                o = sweep(q1, dtdx, lambda qq: solve(axis, qq, a1), order, lims, fwave, g)
                cfl = max(cfl, o.cfl)
                if g <= ib < q.shape[1 + b] - g and g <= ic < q.shape[1 + c] - g:
                    low = max(low, o.cfl)
                inner = slice(g, n - g)
                u = o.dq.copy()
                u[:, inner] -= dtdx[inner] * (o.F[:, g + 1:n - g + 1] - o.F[:, inner])
                line3(new, axis, b, c, ib, ic)[:, inner] += u[:, inner]
                if m3 == 0:
                    continue
                auxs = (None,) * 3
                if aux is not None:
                    auxs = tuple(np.stack([line3(aux, axis, b, c, ib + sb, ic + sc) for sc in (-1, 0, 1)], axis=-1)
                                 for sb in (-1, 0, 1))
                # fluxes[dir][side][offset in the other direction]
                flux = np.zeros((2, 2, 3) + q1.shape)
                once, corr = {}, {}
                for k, dr in enumerate((2, 3)):
                    for imp, asdq in ((1, o.amdq), (2, o.apdq)):
                        once[k, imp] = tsolve(axis, dr, imp, q1, auxs, asdq)
                        if m3 == 2:
                            corr[k, imp] = tsolve(axis, dr, imp if aux is not None else 0, q1, auxs, o.F)
                for k, dr in enumerate((2, 3)):
                    rother = (rc, rb)[k]
                    for imp in (1, 2):
                        sh = 0 if imp == 2 else -1      # interface i feeds cell i or i-1
                        sg = 1.0 if imp == 2 else -1.0
                        tw = {}
                        if m4:
                            for t in (0, 1):            # the wave's direction in the other dimension
                                w = once[1 - k, imp][t]
                                if m4 == 2:
                                    w = w - sg * 3.0 * corr[1 - k, imp][t]
                                tw[t] = ttsolve(axis, dr, imp, t + 1, q1, auxs, w)
                        for i in range(o.lo, o.hi + 1):
                            cell = i + sh
                            r = dtdx[cell]
                            for side in (0, 1):
                                f = flux[k, side]
                                f[1, :, cell] -= 0.5 * r * once[k, imp][side][:, i]
                                if m3 == 2:
                                    f[1, :, cell] += sg * r * corr[k, imp][side][:, i]
                                if m4:
                                    z = r * rother / 6.0
                                    dn, upw = tw[0][side][:, i], tw[1][side][:, i]
                                    f[1, :, cell] += z * (upw - dn)
                                    f[2, :, cell] -= z * upw
                                    f[0, :, cell] += z * dn
                for k in (0, 1):
                    r = (rb, rc)[k]
                    for off in (-1, 0, 1):
                        lo_, hi_ = flux[k, 0, off + 1], flux[k, 1, off + 1]
                        for move, val in ((0, lo_ - hi_), (-1, -lo_), (1, hi_)):
                            jb, jc = (ib + move, ic + off) if k == 0 else (ib + off, ic + move)
                            kk = line3(kap[None], axis, b, c, jb, jc)[0]
                            line3(new, axis, b, c, jb, jc)[:, inner] += (r / kk * val)[:, inner]
    return new[:, g:-g, g:-g, g:-g], (low, cfl)
