"""C19: analysis of the correlation functions"""

from ..common import *

KERNELS = False
BOUNDS = ('functions with 1-5 points, arbitrary values and thresholds, arbitrary strictly increasing grids (at fixed ratios of an arbitrary spacing for peaks and regressions); regression of '
          '2-4 points; correlation functions of up to 2 wave numbers')
ASSUMPTIONS = ['the thresholds 1/e are floating-point constants']


def configs(tier):
    big = tier == 'thorough'
    out = [dict(what='cross', n=n) for n in (1, 2, 3, 5) + ((8,) if big else ())]
    out += [dict(what='peak', n=n) for n in (1, 2, 3, 4) + ((5, 6) if big else ())]
    out += [dict(what='fit', n=n) for n in (2, 3, 4) + ((5,) if big else ())]
    out += [dict(what='msd', n=n, D=D) for n, D in ((2, 2), (3, 3), (4, 2)) + (((5, 3),) if big else ())]
    out += [dict(what=c, n=n) for c in ('qst',) for n in (3, 4) + ((6,) if big else ())]
    out += [dict(what=c, n=n) for c in ('fskt', 'fskt_legacy', 'fkt') for n in (3,) + ((5,) if big else ())]
    out += [dict(what=c, n=n) for c in ('chi4', 'alpha2') for n in (3, 4) + ((5,) if big else ())]
    return out


CLS = {'qst': 'SelfOverlap', 'qt': 'CollectiveOverlap', 'msd': 'MeanSquareDisplacement', 'chi4': 'Chi4SelfOverlap',
       'alpha2': 'NonGaussianParameter', 'fskt': 'SelfIntermediateScatteringFast', 'fskt_legacy': 'SelfIntermediateScatteringLegacy',
       'fkt': 'IntermediateScattering'}


OFFSETS = (-2, -1, 1, 2, 5, 7, 8, 13)


def ruler(B, n):
    """Points at given ratios of an arbitrary distance"""
    h = B.real('h', pos=True)
    return [h * i for i in OFFSETS[:n]]


def grid(B, n, zero=False):
    x = [B.real('x0') if not zero else B.num(0)]
    for i in range(1, n):
        x.append(x[-1] + B.real('h%d' % i, pos=True))
    return x


def crossing(B, x, f, s):
    """First crossing of the broken line, if it does not start on the threshold"""
    for i in range(1, len(f)):
        if B.decide(B.lt((f[i] - s) * (f[0] - s), 0)):
            return x[i - 1] + B.div((s - f[i - 1]) * (x[i] - x[i - 1]), f[i] - f[i - 1]), i
    return None, None


def extremum(B, x, f, sign):
    """Largest value (or smallest), interpolated with a parabola through its neighbors"""
    m = 0
    for i in range(1, len(f)):
        if B.decide(B.lt(f[m] * sign, f[i] * sign)):
            m = i
    if m in (0, len(f) - 1):
        return x[m], f[m], None
    return None, None, m


def check(B, got, x, f, sign, what):
    xm, fm, m = extremum(B, x, f, sign)
    if m is None:
        B.claim_eq(got[0], xm, 'position of the %s' % what)
        B.claim_eq(got[1], fm, 'value of the %s' % what)
        return
    # parabola f_m + a (x - x_m) + b (x - x_m)**2
    h, k = x[m] - x[m - 1], x[m + 1] - x[m]
    u, v = f[m] - f[m - 1], f[m + 1] - f[m]
    # a = (u k / h + v h / k) / (h + k), b = (v / k - u / h) / (h + k), vertex at - a / 2 b
    A, P = u * k * k + v * h * h, v * h - u * k
    B.claim_eq(got[0], B.div(x[m] * 2 * P - A, P * 2), 'position of the %s' % what)
    q = h * k * (h + k) * P * 4
    B.claim_eq(got[1], B.div(f[m] * q - A * A, q), 'value of the %s' % what)


def harness(B, what, n, D=2):
    pp = B.pp
    h = B.load('atooms.postprocessing.helpers')
    if what in ('cross', 'peak', 'fit'):
        x = grid(B, n) if what == 'cross' else ruler(B, n)
        f = [B.real('f%d' % i) for i in range(n)]
    if what == 'cross':
        s = B.real('s')
        got = h.feqc(x, f, s)
        want = crossing(B, x, f, s)
        B.claim((got[0] is None) == (want[0] is None), 'there is a crossing')
        if want[0] is not None and got[0] is not None:
            B.claim_eq(got[0], want[0], 'crossing')
            B.claim(got[1] == want[1], 'interval')
        return
    if what == 'peak':
        for g, s, name in zip(h.ifabsmm(x, f), (-1, 1), ('minimum', 'maximum')):
            check(B, g, x, f, s, name)
        return
    if what == 'fit':
        if n > 2:
            # a line and residuals normal to it
            a, b = B.real('a'), B.real('b')
            e = [B.num(0)] * n
            o = OFFSETS
            for i in range(n - 2):
                r = B.real('r%d' % i)
                for j, k in ((0, o[i + 1] - o[i + 2]), (1, o[i + 2] - o[i]), (2, o[i] - o[i + 1])):
                    e[i + j] = e[i + j] + r * k
            f = [a * x[i] + b + e[i] for i in range(n)]
        else:
            a = B.div(f[1] - f[0], x[1] - x[0])
            b = f[0] - a * x[0]
            e = []
        sxx = n * msum(y * y for y in x) - msum(x) * msum(x)
        got = h.linear_fit(B.arr(x), B.arr(f))
        B.claim_eq(got[0], a, 'slope')
        B.claim_eq(got[1], b, 'intercept')
        s = msum(y * y for y in e) / B.num(n - 2) if n > 2 else B.num(0)
        B.claim_eq(got[2] * got[2] * sxx, s * n, 'uncertainty on the slope')
        B.claim_eq(got[3] * got[3] * sxx, s * msum(y * y for y in x), 'uncertainty on the intercept')
        return
    T = make(B, N=1, D=D, F=2, step='uniform')
    tg = [0.0 * T.dt, T.dt * T.steps[1]]
    x = ruler(B, n) if what in ('msd', 'chi4', 'alpha2') else grid(B, n, zero=True)
    C = getattr(pp, CLS[what])
    f = [B.real('f%d' % i) for i in range(n)]
    if what in ('fskt', 'fskt_legacy', 'fkt'):
        c = C(T.th, [1.0], tg, norigins=-1)
        k = [B.real('k0', pos=True)]
        k.append(k[0] + B.real('k1', pos=True))
        vals = [f, [B.real('g%d' % i) for i in range(n)]]
        c.grid, c.value = [k, x], vals
        c.analyze()
        tau = c.analysis['relaxation times tau']
        B.claim(len(tau) == len(k), 'one relaxation time per wave number')
        for q, v in zip(k, vals):
            one(B, tau[q], x, v, B.div(v[0], B.exp(1.0)))
        return
    kw = dict(norigins=-1)
    if what == 'msd':
        kw['sigma'] = B.real('sigma', pos=True)
    if what == 'chi4' or what in ('qst', 'qt'):
        kw['a'] = B.real('a', pos=True)
    c = C(T.th, tg, **kw)
    c.grid, c.value = x, f
    c.analyze()
    if what in ('qst', 'qt'):
        one(B, c.analysis['tau'], x, f, B.div(B.num(1), B.exp(1.0)))
    elif what == 'chi4':
        check(B, (c.analysis['peak time tau_star'], c.analysis['peak height chi4_star']), x, f, 1, 'maximum')
    elif what == 'alpha2':
        check(B, (c.analysis['t_star'], c.analysis['a2_star']), x, f, 1, 'maximum')
    else:
        s = kw['sigma'] * kw['sigma']
        one(B, c.analysis['diffusive time tau_D'], x, f, s)
        m = [i for i in range(n) if B.decide(B.lt(s, f[i]))]
        d = c.analysis.get('diffusion coefficient D')
        B.claim((d is None) == (len(m) < 2), 'diffusion coefficient with at least two points')
        if len(m) >= 2 and d is not None:
            X, Y = [x[i] for i in m], [f[i] for i in m]
            k = len(m)
            B.claim_eq(d * (2 * D) * (k * msum(a * a for a in X) - msum(X) * msum(X)),
                       k * msum(a * b for a, b in zip(X, Y)) - msum(X) * msum(Y), 'diffusion coefficient')


def one(B, got, x, f, s):
    want = crossing(B, x, f, s)[0]
    B.claim((got is None) == (want is None), 'there is a crossing')
    if got is not None and want is not None:
        B.claim_eq(got, want, 'crossing')
