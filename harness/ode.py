"""Model of the SharpClaw time integrators for y' = f(t, y).

Every function returns the new value and the list of stages in the order in which they are evaluated: (t, y) pairs.
hook(t, y) -> y is applied to every stage value but the first (the value at the start of the step)."""


def _same(t, y):
    return y


def euler(f, t, y, dt, hook=_same):
    return y + dt * f(t, y), [(t, y)]


def ssp22(f, t, y, dt, hook=_same):
    y1 = hook(t + dt, y + dt * f(t, y))
    return 0.5 * y + 0.5 * (y1 + dt * f(t + dt, y1)), [(t, y), (t + dt, y1)]


def ssp33(f, t, y, dt, hook=_same):
    y1 = hook(t + dt, y + dt * f(t, y))
    y2 = hook(t + dt / 2, 0.75 * y + 0.25 * (y1 + dt * f(t + dt, y1)))
    return y / 3 + 2 * (y2 + dt * f(t + dt / 2, y2)) / 3, [(t, y), (t + dt, y1), (t + dt / 2, y2)]


def ssp104(f, t, y, dt, hook=_same):
    """Ketcheson (2008), low-storage form."""
    stages = [(t, y)]
    q1 = y + dt / 6 * f(t, y)
    for i in range(1, 5):
        s = t + i * dt / 6
        q1 = hook(s, q1)
        stages.append((s, q1))
        q1 = q1 + dt / 6 * f(s, q1)
    q2 = y / 25 + 9 * q1 / 25
    q1 = 15 * q2 - 5 * q1
    for i in range(2, 6):
        s = t + i * dt / 6
        q1 = hook(s, q1)
        stages.append((s, q1))
        q1 = q1 + dt / 6 * f(s, q1)
    q1 = hook(t + dt, q1)
    stages.append((t + dt, q1))
    return q2 + 0.6 * q1 + 0.1 * dt * f(t + dt, q1), stages


def rk(a, b, c):
    def step(f, t, y, dt, hook=_same):
        stages, k = [], []
        for i in range(len(b)):
            yi = y
            for j in range(i):
                yi = yi + dt * a[i][j] * k[j]
            s = t + c[i] * dt if i else t
            if i:
                yi = hook(s, yi)
            stages.append((s, yi))
            k.append(f(s, yi))
        out = y
        for j in range(len(b)):
            out = out + dt * b[j] * k[j]
        return out, stages
    return step


def lmm(alpha, beta, ys, fs, dt):
    """ys, fs: the last len(alpha) values, oldest first."""
    return sum(a * y + dt * b * f for a, b, y, f in zip(alpha, beta, ys, fs))


def ssplmm2(ys, fs, dts, dt):
    """Hadjimichael, Ketcheson, Loczi, Nemeth (2016), order 2; dts: lengths of the last k-1 steps."""
    w = sum(dts) / dt
    return (w * w - 1) / w ** 2 * (ys[-1] + w / (w - 1) * dt * fs[-1]) + ys[0] / w ** 2


def ssplmm3(ys, fs, dts, dt):
    w = sum(dts) / dt
    return ((w + 1) ** 2 * (w - 2) / w ** 3 * (ys[-1] + w / (w - 2) * dt * fs[-1])
            + (3 * w + 2) / w ** 3 * (ys[0] + w * (w + 1) / (3 * w + 2) * dt * fs[0]))


FIXED = {'Euler': euler, 'SSP33': ssp33, 'SSP104': ssp104}
