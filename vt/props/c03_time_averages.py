"""C03: time averages of dynamic correlation functions"""

from ..common import *

BOUNDS = ('3-7 frames of one particle in 2 dimensions; arbitrary strictly increasing steps, uniform steps k*i, or periodic '
          'blocks of 2-3 frames (arbitrary inner offsets and period); arbitrary real requested times; numbers of origins '
          '-1, 1, 2, 3, one half, 0.25 and the default')
ASSUMPTIONS = ['requested times are not negative and are rounded to whole steps before the closest available lag is taken',
               'displacements between frames are below half a side']


def configs(tier):
    out = []
    for F in (3, 4):
        out.append(dict(kind='first', F=F, norigins='1', req=2))
    for n in (-1, None, 2, 3, 0.5, 0.25, '1'):
        out.append(dict(kind='uniform', F=5 if n != 0.25 else 6, norigins=n, req=1))
    out.append(dict(kind='uniform', F=4, norigins=-1, req=2))
    for size, F in ((2, 5), (3, 7), (2, 6)):
        for n in (-1, None):
            out.append(dict(kind='block', F=F, size=size, norigins=n))
    out.append(dict(kind='block', F=7, size=2, norigins=2))
    out.append(dict(kind='block', F=5, size=2, norigins='1'))
    for n in (-1, '1'):
        out.append(dict(kind='default', F=4, norigins=n, req=3))
        out.append(dict(kind='rmax', F=3, norigins=n, req=3))
    out.append(dict(kind='vel', F=5, size=2, norigins=-1))
    out.append(dict(kind='no_offset', F=5, size=2, norigins=-1))
    out.append(dict(kind='generic', F=4, size=1, norigins=-1))
    out.append(dict(kind='acf', F=4, size=1, norigins=-1))
    for cls in ('msd', 'alpha2', 'qst', 'qt', 'vacf', 'sacf', 'chi4', 'chi4fast', 'fskt', 'fsktfast', 'fkt'):
        for n in (-1, '1', 1) + ((None,) if cls in ('msd', 'alpha2', 'vacf', 'sacf') else ()):
            out.append(dict(kind='class', cls=cls, F=4, size=2, norigins=n))
        out.append(dict(kind='class', cls=cls, F=6, size=3, norigins=2 if cls != 'qst' else -1))
    out.append(dict(kind='class', cls='msd', F=4, size=2, norigins=-1, no_offset=True))
    for cls in ('chi4', 'chi4fast'):
        out.append(dict(kind='class', cls=cls, F=7, size=2, norigins=-1))
    if tier == 'thorough':
        for F in (5, 6):
            out.append(dict(kind='first', F=F, norigins='1', req=2))
        for n in (-1, 2, 3, 4, 0.5, 0.3, 0.25):
            out.append(dict(kind='uniform', F=8, norigins=n, req=2))
        for size, F in ((2, 8), (3, 9), (4, 9)):
            out.append(dict(kind='block', F=F, size=size, norigins=-1))
            out.append(dict(kind='block', F=F, size=size, norigins=2))
        out.append(dict(kind='generic', F=6, size=1, norigins=-1))
        out.append(dict(kind='acf', F=6, size=1, norigins=-1))
    return out


def block_steps(B, F, size):
    inner = [0]
    for j in range(1, size):
        inner.append(inner[-1] + B.int('s%d' % j, 1, 50))
    period = inner[-1] + B.int('s%d' % size, 1, 50)
    return [0 if f == 0 else (f // size) * period + inner[f % size] for f in range(F)]


def interval(F, size, n):
    """Frames between consecutive time origins"""
    blocks = F // size
    if n == -1:
        return size
    if n is None:
        return size                 # tiny systems: all the origins
    if n == '1':
        return F
    if n > 1:
        return max(1, int(blocks / n) * size)
    return max(1, int(1 / n)) * size


def harness(B, kind, F, norigins, size=1, req=0, cls=None, no_offset=False):
    pp = B.pp
    if kind == 'class':
        return classes(B, cls, F, norigins, size, no_offset)
    if kind in ('generic', 'acf'):
        return functions(B, kind, F)
    if kind == 'first':
        st = steps(B, F)
    elif kind in ('uniform', 'default', 'rmax'):
        st = steps(B, F, 'uniform')
    else:
        st = block_steps(B, F, size)
    T = make(B, N=1, D=2, F=F, step=st, velocities=kind == 'vel')
    if kind in ('block', 'vel', 'no_offset'):
        T.th.block_size = size
    if kind == 'first':
        # no hidden periodicity: one block
        T.th.block_size = 1
    dt = T.dt
    kw = {'no_offset': True} if kind == 'no_offset' else {}
    if kind in ('default', 'rmax'):
        # linear grid up to the total time or the time at which the MSD would reach rmax**2
        tmax = dt * st[-1]
        kw['tsamples'] = req
        if kind == 'rmax':
            kw['rmax'] = r = B.real('rmax', pos=True)
            full = dist2(T.u[-1][0], T.u[0][0])
            B.assume(full > B.q(1, 1000))
            frac = B.div(r * r, full)
            if B.decide(B.lt(frac * tmax, tmax)):
                tmax = frac * tmax
        times = [tmax * i / B.num(req - 1) for i in range(req)]
    elif req:
        times = [B.real('t%d' % i, nonneg=True) for i in range(req)]
        for t in times:
            B.assume(t < 1100 * dt * F)
    else:
        times = [dt * st[j] if j else B.num(0) * dt for j in range(F)]
        if kind != 'no_offset' and norigins != '1':
            # time differences which are only available from the second frame of a block
            times.append(dt * (st[2] - st[1]))
    if kind == 'vel':
        c = pp.VelocityAutocorrelation(T.th, tgrid=times, norigins=norigins)
        f = lambda i, j: msum(a * b for a, b in zip(T.vel[i][0], T.vel[j][0]))
    else:
        c = pp.MeanSquareDisplacement(T.th, tgrid=None if kind in ('default', 'rmax') else times, norigins=norigins, **kw)
        f = lambda i, j: dist2(T.u[i][0], T.u[j][0])
    c.compute()
    lag = [B.rint(B.div(t, dt)) for t in c.grid]
    n = len(lag)
    B.claim(len(c.value) == n, 'one value per time')
    B.claim(n >= 1, 'at least one time')
    for a, b in zip(lag[:-1], lag[1:]):
        B.claim(B.lt(a, b), 'times are sorted and unique')
    skip = interval(F, size, norigins)
    if req:
        want = [B.rint(B.div(t, dt)) for t in times]
        avail = [st[j] for j in range(F)]
        for w in want:
            # the closest available time difference is returned
            best = B.any(*[B.all(*[B.le(B.absv(x - w), B.absv(y - w)) for y in avail]) for x in lag])
            B.claim(best, 'the closest available time is returned')
        for x in lag:
            B.claim(B.any(*[B.all(*[B.le(B.absv(x - w), B.absv(y - w)) for y in avail]) for w in want]),
                    'every returned time is the closest to a requested one')
    else:
        for t in times:
            B.claim(B.any(*[B.eqi(B.rint(B.div(t, dt)), x) for x in lag]), 'requested time is returned')
    for x, v in zip(lag, c.value):
        ps = [(i, j) for i, j in lags(st) if B.decide(B.eqi(B.num(st[j] - st[i]), x))]
        B.claim(len(ps) > 0, 'the time is a difference between frames')
        if not ps:
            continue
        if kind == 'first' or norigins == '1':
            use = [p for p in ps if p[0] == 0]
        else:
            off = ps[0][0]
            use = [p for p in ps if (p[0] - off) % skip == 0]
        B.claim(len(use) > 0, 'there is a time origin')
        if use:
            B.claim_eq(v, msum(f(i, j) for i, j in use) / B.num(len(use)), 'average over the time origins')


class Interaction(object):
    pass


def classes(B, cls, F, norigins, size, no_offset):
    """Any dynamic correlation function of one particle on periodic blocks"""
    pp = B.pp
    st = block_steps(B, F, size)
    D = 3 if cls == 'sacf' else 2
    T = make(B, N=1, D=D, F=F, step=st, velocities=cls in ('vacf', 'sacf'), mass=cls == 'sacf',
             unfolded=cls not in ('fskt', 'fsktfast', 'fkt', 'vacf', 'sacf'))
    if cls == 'sacf':
        stress = positions(B, F, 3, 3, 'w')
        for s, w in zip(T.systems, stress):
            s.interaction = Interaction()
            s.interaction.stress = B.arr(w)
        T.th = trajectory(B, T.systems, T.steps, T.dt)
    T.th.block_size = size
    dt = T.dt
    # all the time differences from the first frame and from the others in the first block
    asked = [(i, j) for i in range(size) for j in range(i, F)]
    times = [dt * (st[j] - st[i]) if j > i else 0 * dt for i, j in asked]
    a = None
    if cls in ('qst', 'qt', 'chi4', 'chi4fast'):
        a = B.real('a', pos=True)
    skip = interval(F, size, norigins)
    kw = dict(norigins=norigins)
    if a is not None:
        kw['a'] = a
    if no_offset:
        kw['no_offset'] = True
    if cls in ('fskt', 'fsktfast', 'fkt'):
        C = {'fskt': pp.SelfIntermediateScatteringLegacy, 'fsktfast': pp.SelfIntermediateScattering,
             'fkt': pp.IntermediateScattering}[cls]
        c = C(T.th, tgrid=times, **kw)
        ks = kvecs(B, T.L, [[(1, -1)]])
        set_kvectors(B, c, ks)
    else:
        C = {'msd': pp.MeanSquareDisplacement, 'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap,
             'qt': pp.CollectiveOverlap, 'vacf': pp.VelocityAutocorrelation,
             'sacf': B.load('atooms.postprocessing.sacf').StressAutocorrelation,
             'chi4': pp.Chi4SelfOverlap, 'chi4fast': pp.Chi4SelfOverlapOptimized}[cls]
        c = C(T.th, tgrid=times, **kw)

    def f(i, j):
        x, y = T.u[i][0], T.u[j][0]
        if cls == 'msd':
            return dist2(x, y)
        if cls == 'alpha2':
            if i == j:
                return 0
            r2 = dist2(x, y)
            B.assume(r2 > 0)
            return B.div(D * (r2 * r2), (D + 2) * r2 * r2) - 1
        if a is not None:
            return B.ind(B.lt(dist2(x, y), a * a))
        if cls == 'vacf':
            return msum(v * w for v, w in zip(T.vel[i][0], T.vel[j][0]))
        if cls == 'sacf':
            t = msum((stress[i][m][n] + T.mass[0] * T.vel[i][0][m] * T.vel[i][0][n]) *
                     (stress[j][m][n] + T.mass[0] * T.vel[j][0][m] * T.vel[j][0][n]) for m, n in pairs(3))
            return B.div(t / B.num(3), T.L[0] * T.L[1] * T.L[2])
        return B.re(plane(B, ks[0][0], y) * B.conj(plane(B, ks[0][0], x)))

    lg = lags(st)
    if cls == 'alpha2':
        for i, j in lg:
            f(i, j)
    c.compute()
    grid, value = c.grid, c.value
    if cls in ('fskt', 'fsktfast', 'fkt'):
        grid, value = c.grid[1], c.value[0]
    B.claim(len(value) == len(grid), 'one value per time')
    lag = [B.rint(B.div(t, dt)) for t in grid]
    for x, y in zip(lag[:-1], lag[1:]):
        B.claim(B.lt(x, y), 'times are sorted and unique')
    first = norigins in (1, '1') or no_offset
    for (i, j), t in zip(asked, times):
        if i == 0 or not first:
            B.claim(B.any(*[B.eqi(B.rint(B.div(t, dt)), x) for x in lag]), 'requested time is returned')
    for n, (x, v) in enumerate(zip(lag, value)):
        ps = [(i, j) for i, j in lg if B.decide(B.eqi(B.num(st[j] - st[i]), x))]
        if norigins in (1, '1'):
            use = [p for p in ps if p[0] == 0]
        else:
            use = [p for p in ps if (p[0] - ps[0][0]) % skip == 0]
            if no_offset:
                use = [p for p in use if p[0] % size == 0]
        B.claim(len(use) > 0, 'there is a time origin')
        if cls in ('chi4', 'chi4fast'):
            # all the time origins but the last one
            qs = [f(i, j) for i, j in use[:-1]]
            m = mean(B, qs) if qs else 0
            B.claim_eq(v, mean(B, [(q - m) * (q - m) for q in qs]) if qs else 0, 'variance over the time origins')
            B.claim_eq(c.average.value[n], m, 'average over the time origins')
            B.claim_eq(c.variance.value[n], mean(B, [q * q for q in qs]) if qs else 0, 'second moment over the time origins')
        elif use:
            B.claim_eq(v, mean(B, [f(i, j) for i, j in use]), 'average over the time origins')


def functions(B, kind, F):
    """The averages over pairs of frames of an arbitrary function"""
    pp = B.load('atooms.postprocessing.correlation')
    st = steps(B, F)
    if kind == 'generic':
        val = [[B.real('f_%d_%d' % (i, j)) for j in range(F)] for i in range(F)]
        g = [(0, i) for i in range(F)]
        t, v = pp.gcf_offset(lambda a, b: val[a][b], g, 1, st, list(range(F)))
        pair = lambda i, j: val[j][i]
    else:
        x = [B.real('x_%d' % i) for i in range(F)]
        t, v, cnt = pp.acf(list(range(F)), 1, st, B.arr(x))
        ave = msum(x) / B.num(F)
        pair = lambda i, j: (x[i] - ave) * (x[j] - ave)
    B.claim(len(t) == len(v), 'one value per time')
    for a, b in zip(t[:-1], t[1:]):
        B.claim(a < b, 'times are sorted and unique')
    for i, j in lags(st):
        B.claim(B.any(*[B.eqi(B.num(st[j] - st[i]), B.num(x)) for x in t]), 'all time differences are there')
    for tt, y in zip(t, v):
        ps = [(i, j) for i, j in lags(st) if B.decide(B.eqi(B.num(st[j] - st[i]), B.num(tt)))]
        B.claim(len(ps) > 0, 'the time is a difference between frames')
        if ps:
            B.claim_eq(y, msum(pair(i, j) for i, j in ps) / B.num(len(ps)), 'average over all pairs')
