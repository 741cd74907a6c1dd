"""C18: grids"""

from ..common import *

KERNELS = False
BOUNDS = ('linear grids with a given number of points from 1 to 12 or spacing (up to 8 points), logarithmic grids of 1-8 points, arbitrary '
          'real limits; default time grids of every time-dependent correlation with 2-4 points')


def configs(tier):
    big = tier == 'thorough'
    out = [dict(what='linear', n=n) for n in (1, 2, 3, 5, 12) + ((30, 100) if big else ())]
    out += [dict(what='spacing', n=n) for n in (1, 2, 3, 8) + ((20, 40) if big else ())]
    out += [dict(what='logx', n=n, zero=z) for n in (1, 2, 3, 5, 8) + ((15, 30) if big else ()) for z in (False, True)]
    out += [dict(what='end', n=n) for n in (2, 3)]
    for c in ('vacf', 'alpha2', 'qst', 'qt', 'chi4', 'fskt', 'fskt_legacy', 'fkt'):
        out += [dict(what='times', cls=c, n=n) for n in (2, 3) + ((4,) if big else ())]
    out += [dict(what='given', cls=c, n=3) for c in ('vacf', 'alpha2', 'qst', 'qt', 'chi4', 'msd', 'fskt', 'fkt')]
    return out


CLS = {'vacf': 'VelocityAutocorrelation', 'alpha2': 'NonGaussianParameter', 'qst': 'SelfOverlap', 'qt': 'CollectiveOverlap',
       'chi4': 'Chi4SelfOverlap', 'msd': 'MeanSquareDisplacement', 'fskt': 'SelfIntermediateScattering',
       'fskt_legacy': 'SelfIntermediateScatteringLegacy', 'fkt': 'IntermediateScattering'}


def logx(B, x1, w, n):
    """n points from x1 to x1 w**n, or from 0 to w**n - 1"""
    def p(i):
        x = B.num(1)
        for _ in range(i):
            x = x * w
        return x
    if x1 is None:
        return [B.num(0)] + [p(i + 1) - 1 for i in range(1, n)]
    return [x1] + [x1 * p(i + 1) for i in range(1, n)]


def same(B, got, want, what):
    B.claim(len(got) == len(want), 'number of ' + what)
    if len(got) == len(want):
        for x, y in zip(got, want):
            B.claim_eq(x, y, what)


def harness(B, what, n, cls=None, zero=False, D=2):
    pp = B.pp
    h = B.load('atooms.postprocessing.helpers')
    if what == 'linear':
        a, b = B.real('a'), B.real('b')
        B.assume(B.lt(a, b))
        g = h.linear_grid(a, b, n)
        same(B, g, [a] if n == 1 else [a + (b - a) * i / B.num(n - 1) for i in range(n)], 'points')
    elif what == 'spacing':
        # the interval has n - 1 + x spacings, 0 <= x < 1
        a, x, d = B.real('a'), B.real('x', nonneg=True), B.real('d', pos=True)
        B.assume(B.lt(x, 1))
        b = a + d * (n - 1) + d * x
        same(B, h.linear_grid(a, b, d), [a + d * i for i in range(n)], 'points')
    elif what == 'logx':
        w = B.real('w', pos=True)
        B.assume(B.lt(1, w))
        x1 = None if zero else B.real('x1', pos=True)
        x2 = B.num(1)
        for i in range(n):
            x2 = x2 * w
        g = h.logx_grid(0.0 if zero else x1, x2 if zero else x1 * x2, n)
        if zero:
            # the value at which the grid ends is the subject of 'end'
            B.claim(len(g) == n, 'number of points')
            B.claim_eq(g[0], B.num(0), 'first point')
            for x, y, z in zip(g[1:-2], g[2:-1], g[3:]):
                B.claim_eq((y + 1) * (y + 1), (x + 1) * (z + 1), 'constant factor')
        else:
            same(B, g, logx(B, x1, w, n), 'points')
            if n > 1:
                B.claim_eq(g[-1], x1 * x2, 'last point')
        for x, y in zip(g[:-1], g[1:]):
            B.claim(B.lt(x, y), 'increasing')
    elif what == 'end':
        # known finding: it ends at x2 - 1
        x2 = B.real('x2', pos=True)
        g = h.logx_grid(0.0, x2, n)
        less = B.decide(B.eq(g[-1], x2 - 1))
        B.claim_eq(g[-1], x2, 'the grid from zero ends one below' if less else 'last point of the grid from zero')
    elif what in ('times', 'given'):
        F = 4
        T = make(B, N=1, D=2, F=F, step='uniform', velocities=cls == 'vacf')
        tmax = T.dt * T.steps[-1]
        args = [None] if cls in ('fskt', 'fskt_legacy', 'fkt') else []
        kw = dict(norigins=-1)
        if cls in ('qst', 'qt', 'chi4'):
            kw['a'] = B.real('r', pos=True)
        if what == 'given':
            t = [B.real('t%d' % i, nonneg=True) for i in range(n)]
            B.assume(B.lt(t[0], t[1]))
            c = getattr(pp, CLS[cls])(T.th, *(args + [list(t)]), **kw)
            g = c.grid[1] if args else c.grid
            if args and B.decide(B.lt(0, t[0])):
                t = [0.0] + t
            same(B, g, t, 'times')
            return
        kw['nsamples' if cls == 'alpha2' else 'tsamples'] = n
        c = getattr(pp, CLS[cls])(T.th, *args, **kw)
        g = c.grid[1] if args else c.grid
        if cls in ('vacf', 'alpha2'):
            x = B.q(1, 10) if cls == 'vacf' else B.q(3, 4)
            same(B, g, [tmax * x * i / B.num(n - 1) for i in range(n)], 'times')
        else:
            # the grid itself is the subject of 'logx' and 'end'
            same(B, g, h.logx_grid(0.0, tmax * 3 / 4, n), 'times')
