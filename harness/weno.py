"""WENO reconstruction of order 2k-1 from cell averages (Jiang & Shu weights), derived from scratch with fractions."""
from fractions import Fraction as F
from functools import lru_cache

import numpy as np

EPS = 1e-36


def _solve(A, b):
    n = len(A)
    M = [list(map(F, row)) + [F(v) for v in rhs] for row, rhs in zip(A, b)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b_ for a, b_ in zip(M[r], M[c])]
    return [row[n:] for row in M]


@lru_cache(None)
def poly(first, n):
    """Coefficients P[power][cell] of the polynomial with the given averages over cells first..first+n-1 of width 1,
    cell 0 being [-1/2, 1/2]."""
    A = [[(F(2 * j + 1, 2) ** (p + 1) - F(2 * j - 1, 2) ** (p + 1)) / (p + 1) for p in range(n)]
         for j in range(first, first + n)]
    return _solve(A, [[1 if i == j else 0 for j in range(n)] for i in range(n)])


@lru_cache(None)
def tables(k):
    """For the right edge of cell 0: per sub-stencil (starting at cell -r, r = k-1..0) the coefficients, optimal weight and
    matrix of the smoothness indicator."""
    sub, mats = [], []
    for r in range(k):
        P = poly(-r, k)
        sub.append([sum(P[p][j] * F(1, 2) ** p for p in range(k)) for j in range(k)])
        B = [[F(0)] * k for _ in range(k)]
        for l in range(1, k):
            # derivative of order l: sum_p P[p] p!/(p-l)! x^(p-l)
            d = []
            for p in range(l, k):
                f = 1
                for m in range(p - l + 1, p + 1):
                    f *= m
                d.append([f * v for v in P[p]])
            for a in range(len(d)):
                for b in range(len(d)):
                    e = a + b + 1
                    w = (F(1, 2) ** e - F(-1, 2) ** e) / e
                    if w:
                        for i in range(k):
                            for j in range(k):
                                B[i][j] += w * d[a][i] * d[b][j]
        mats.append(B)
    full = poly(-(k - 1), 2 * k - 1)
    c = [sum(full[p][j] * F(1, 2) ** p for p in range(2 * k - 1)) for j in range(2 * k - 1)]
    gamma = [None] * k
    # cell -(k-1)+m is in the sub-stencils r >= k-1-m
    for m in range(k):
        r = k - 1 - m
        s = c[m]
        for r2 in range(r + 1, k):
            s -= gamma[r2] * sub[r2][m - (k - 1) + r2]
        gamma[r] = s / sub[r][0]
    for j in range(2 * k - 1):
        assert c[j] == sum(gamma[r] * sub[r][j - (k - 1) + r] for r in range(k) if 0 <= j - (k - 1) + r < k)
    num = lambda x: np.array(x, dtype=float)
    return num(sub), num(gamma), num(mats)


def right(q, k, noise=None):
    """Values at the right edge of every cell of the last axis that has k-1 neighbours on both sides (others: q itself).
    noise: a generator; smoothness indicators are then changed by some of their rounding errors."""
    sub, gamma, mats = tables(k)
    n = q.shape[-1]
    out = np.array(q, dtype=float)
    lo, hi = k - 1, n - (k - 1)
    win = lambda r: np.stack([q[..., lo - r + j:hi - r + j] for j in range(k)], axis=-1)
    tot = 0.0
    val = 0.0
    for r in range(k):
        v = win(r)
        s = np.einsum('...i,ij,...j->...', v, mats[r], v)
        if noise is not None:
            a = np.abs(v)
            s = s + 1.8e-15 * noise.uniform(-1, 1, s.shape) * np.einsum('...i,ij,...j->...', a, np.abs(mats[r]), a)
        w = gamma[r] / (EPS + s) ** 2
        tot = tot + w
        val = val + w * (v @ sub[r])
    out[..., lo:hi] = val / tot
    return out


def edges(q, k, noise=None):
    """Values at the left and right edges."""
    qr = right(q, k, noise)
    ql = right(q[..., ::-1], k, noise)[..., ::-1]
    return ql, qr


def offset(d, noise=None):
    """Right edge value minus cell value for WENO5, from the differences d[0..3] = v[i-1]-v[i-2], v[i]-v[i-1], v[i+1]-v[i], v[i+2]-v[i+1]."""
    z = np.zeros_like(d[0])
    v = np.stack([-d[1] - d[0], -d[1], z, d[2], d[2] + d[3]], axis=-1)
    sub, gamma, mats = tables(3)
    tot = val = 0.0
    for r in range(3):
        u = v[..., 2 - r:5 - r]
        s = np.einsum('...i,ij,...j->...', u, mats[r], u)
        if noise is not None:
            a = np.abs(u)
            s = s + 1.8e-15 * noise.uniform(-1, 1, s.shape) * np.einsum('...i,ij,...j->...', a, np.abs(mats[r]), a)
        w = gamma[r] / (EPS + s) ** 2
        tot = tot + w
        val = val + w * (u @ sub[r])
    return val / tot
