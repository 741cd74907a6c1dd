"""C28: computing leaves the trajectory unchanged and can be repeated"""

from ..common import *

BOUNDS = ('1-6 particles in 2 or 3 dimensions, 2-4 frames at uniform steps or in blocks, arbitrary positions, velocities, masses and '
          'cell sides; trajectories which return copies of their frames, views of them, or keep them in a cache; two successive '
          'calculations of one correlation function, or of two of them')
ASSUMPTIONS = ['structure factors of cells that change: three given cells']

NAMES = {'msd': 'MeanSquareDisplacement', 'vacf': 'VelocityAutocorrelation', 'qst': 'SelfOverlap', 'qt': 'CollectiveOverlap',
         'alpha2': 'NonGaussianParameter', 'chi4': 'Chi4SelfOverlap', 'chi4_fast': 'Chi4SelfOverlapOptimized',
         'fskt': 'SelfIntermediateScatteringLegacy', 'fskt_fast': 'SelfIntermediateScatteringFast',
         'fkt': 'IntermediateScattering', 'sk': 'StructureFactorLegacy', 'sk_fast': 'StructureFactorFast',
         'gr': 'RadialDistributionFunctionFast', 'gr_legacy': 'RadialDistributionFunctionLegacy'}
FOURIER = ('fskt', 'fskt_fast', 'fkt', 'sk', 'sk_fast')
CELL = ('gr', 'gr_legacy')


def configs(tier):
    out = []
    for k in NAMES:
        D = 3 if k == 'sk_fast' else 2
        N = 2 if k in CELL + ('qt', 'sk_fast') else 3
        if k == 'alpha2' or k.startswith('chi4'):
            N = 1
        D = 3 if N == 2 else D
        for kind in ('again', 'view', 'cache'):
            out.append(dict(what=k, kind=kind, N=N, D=D, F=3 if k in ('qst', 'chi4', 'chi4_fast') else 2))
        # with another correlation of the same trajectory, restricted to some particles, before
        if k not in CELL:
            out.append(dict(what=k, kind='cache', N=4, D=3 if k == 'sk_fast' else 2, F=2, first='A'))
    for k in ('sk', 'fkt'):
        out += [dict(what=k, kind=kind, N=4, D=2, F=2, weight=w) for kind in ('again', 'view') for w in ('mass', 'fluctuations')]
    for k in ('msd', 'fskt', 'fskt_fast', 'fkt'):
        out += [dict(what=k, kind=kind, N=3, D=2, F=2, fix_cm=True) for kind in ('again', 'view', 'cache')]
    for k in ('msd', 'qst', 'alpha2', 'chi4'):
        out += [dict(what=k, kind=kind, N=1 if k == 'alpha2' else 3, D=2, F=3 if k == 'chi4' else 2, stored=True) for kind in ('again', 'view')]
    out += [dict(what='msd', kind=kind, N=3, D=2, F=2, stored=True, fix_cm=True) for kind in ('again', 'view', 'cache')]
    out += [dict(what='fkt', kind='view', N=4, D=2, F=2, pair='AB', fix_cm=c) for c in (False, True)]
    out += [dict(what=k, kind=kind, N=3, D=2, F=3, sides=[(1, 2), (1, 1), (2, 2)]) for k in ('sk', ) for kind in ('again', 'cache')]
    out += [dict(what='sk_fast', kind='again', N=2, D=3, F=2, sides=[(1, 2, 1), (1, 1, 1)])]
    return out


def snapshot(systems):
    """Everything that is in the systems"""
    import copy
    out = []
    for s in systems:
        out.append(list(s.cell.side))
        for p in s.particle:
            for k in sorted(p.__dict__):
                x = getattr(p, k)
                out.append(k)
                if hasattr(x, 'ndim') and x.ndim > 0:
                    out.append(list(x))
                elif not hasattr(x, 'ndim'):
                    out.append(x)
    return out


def same(B, a, b, what):
    B.claim(len(a) == len(b), what + ' (attributes)')
    for x, y in zip(a, b):
        if isinstance(x, list):
            B.claim_eq(x, y, what)
        elif isinstance(x, str) or x is None or isinstance(y, str) or y is None:
            B.claim(x == y, what)
        else:
            B.claim_eq(x, y, what)


def flat(x):
    out = []
    if isinstance(x, (list, tuple)) or hasattr(x, 'ndim') and x.ndim > 0:
        for y in x:
            out += flat(y)
        return out
    return [x]


def harness(B, what, kind, N, D, F, first=None, weight=None, fix_cm=False, stored=False, pair=None, sides=None):
    pp = B.pp
    if B.symbolic and sides:
        pass
    cells = sides and [[2 * B.pi * x for x in side] for side in sides]
    species = list('ABBB'[:N]) if N != 2 else list('AB')
    T = make(B, N=N, D=D, F=F, species=species, step='uniform', velocities=what == 'vacf', cells=cells,
             mass=weight is not None or fix_cm, unfolded=what not in FOURIER + CELL + ('vacf', ) or bool(fix_cm),
             fold='cell' if what in CELL else None)
    if stored:
        u = positions(B, F, N, D, 'y')
        if what == 'alpha2':
            for f in range(1, F):
                for g in range(f):
                    B.assume(dist2(u[g][0], u[f][0]) > 0)
    elif what == 'alpha2':
        for f in range(1, F):
            for g in range(f):
                B.assume(dist2(T.u[g][0], T.u[f][0]) > 0)
    a = B.real('a', pos=True)
    tg = [T.dt * s if i else 0 * T.dt for i, s in enumerate(T.steps)]
    dr = None
    if what in CELL:
        dr = B.real('dr', pos=True)
        for l in T.L:
            B.assume(dr * 4 <= l)
    C = getattr(pp, NAMES[what])
    R = B.load('atooms.trajectory.ram')

    def traj(kind):
        th = R.TrajectoryRamView() if kind == 'view' else R.TrajectoryRam()
        for f in range(F):
            s = system(B, T.p[f], cells[f] if cells else T.L, species, T.vel[f] if T.vel else None, T.mass)
            if stored:
                for i in range(N):
                    s.particle[i].position_unfolded = B.arr(u[f][i])
            th.write(s, T.steps[f])
        th.timestep = T.dt
        if kind == 'cache':
            th.cache = True
        return th

    def build(th):
        kw = dict(norigins=-1)
        if fix_cm:
            kw['fix_cm'] = True
        if what in CELL:
            c = C(th, grid, **kw)
        elif what in FOURIER:
            if sides:
                kw.update(kgrid=kgrid, dk=1 / 8., nk=100)
            if what[0] == 's':
                c = C(th, **kw)
            else:
                c = C(th, tgrid=tg, normalize=False, **kw)
            if not sides:
                set_kvectors(B, c, kvecs(B, T.L, {2: SHELLS2, 3: SHELLS3}[D]))
        else:
            if what in ('qst', 'qt', 'chi4', 'chi4_fast'):
                kw['a'] = a
            c = C(th, tg, **kw)
        if weight:
            c.add_weight(field='mass', fluctuations=weight == 'fluctuations')
        if pair:
            c.add_filter(pick, pair[0])
            c.add_filter(pick, pair[1])
        return c

    def pick(system, name):
        import copy
        s = copy.copy(system)
        s.particle = [q for q in system.particle if q.species == name]
        return s
    kgrid = [1., 2.]
    grid = [dr * (2 * i + 1) / 2 for i in range(3)] if dr is not None else None
    args = [list(x) for x in (tg, kgrid, grid) if x is not None]
    # the result of a single calculation
    alone = build(traj('ram'))
    alone.compute()
    want = flat(alone.grid), flat(alone.value)
    th = traj(kind)
    if kind == 'cache':
        for f in range(F):
            th[f]
    before = snapshot([th[f] for f in range(F)])
    if first:
        x = build(th)
        x.add_filter(pick, first)
        x.compute()
        same(B, before, snapshot([th[f] for f in range(F)]), 'trajectory after the calculation for some particles')
        if fix_cm is False and what in ('msd', 'vacf', 'qst'):
            y = build(traj('ram'))
            y.add_filter(pick, first)
            y.compute()
            B.claim_eq(flat(x.value), flat(y.value), 'values for some particles')
    c = build(th)
    c.compute()
    same(B, before, snapshot([th[f] for f in range(F)]), 'trajectory after the calculation')
    B.claim_eq(flat(c.grid), want[0], 'grid')
    B.claim_eq(flat(c.value), want[1], 'values')
    got = c.compute()
    B.claim(got is not None and len(got) == 2, 'grid and values are returned')
    B.claim_eq(flat(got[0]), want[0], 'grid of the second calculation')
    B.claim_eq(flat(got[1]), want[1], 'values of the second calculation')
    B.claim_eq(flat(c.grid), want[0], 'grid after the second calculation')
    B.claim_eq(flat(c.value), want[1], 'values after the second calculation')
    if what.startswith('chi4'):
        B.claim_eq(flat(c.average.value), flat(alone.average.value), 'average of the second calculation')
        B.claim_eq(flat(c.variance.value), flat(alone.variance.value), 'variance of the second calculation')
    same(B, before, snapshot([th[f] for f in range(F)]), 'trajectory after the second calculation')
    for x, y in zip(args, [x for x in (tg, kgrid, grid) if x is not None]):
        B.claim_eq(x, y, 'arguments')
