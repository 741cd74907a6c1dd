"""C29: radial distribution function of open cells and of systems without cell"""

from fractions import Fraction

from ..common import *

BOUNDS = ('2-5 particles in 2 or 3 dimensions, 1-2 frames, anywhere in an open cell with arbitrary sides between 2 and 4 times '
          'the maximum distance (or given sides, for linked cells), arbitrary bin width with 2-4 bins; systems without cell')
ASSUMPTIONS = ['particles are in the open cell', 'at least one particle is in the bulk of the open cell',
               'the first bin of an open cell, which would include the particles themselves, is left out',
               'the extent of a system without cell is not zero along any side']


def configs(tier):
    out = [dict(N=3, D=2, F=1, n=3), dict(N=2, D=3, F=1, n=3), dict(N=2, D=1, F=2, n=3), dict(N=3, D=1, F=1, n=3),
           dict(N=4, D=2, F=1, n=3, species='ABBB', only='AB'), dict(N=4, D=2, F=1, n=3, species='ABAA', only='AA'),
           dict(N=4, D=2, F=1, n=3, species='ABAA', only='BA'),
           # linked cells
           dict(N=3, D=2, F=1, n=3, pin=[8, 9], rmax=2, dr='5/4', at=[['1/8', '-1'], [None, '1/4'], ['-5/2', '3/2']]),
           dict(N=3, D=2, F=1, n=3, pin=[8, 9], rmax=2, dr='1', at=[['1/2', '-1'], ['-1', None], ['7/2', '-4']]),
           dict(N=2, D=3, F=1, n=3, pin=[8, 9, 10], rmax=2, dr='5/4', at=[['1/8', '-1', '3/2'], [None, '-1/2', '1']]),
           dict(N=2, D=3, F=1, n=3, pin=[8, 9, 10], rmax=2, dr='1', at=[['1/2', '-1', '3/2'], ['1', '-3/2', None]]),
           dict(N=4, D=2, F=1, n=3, species='AABA', only='AB', pin=[9, 8], rmax=2, dr='5/4',
                at=[['1/2', '-1'], ['7/2', '-3'], [None, '1/4'], ['-4', '1']]),
           # no maximum distance: all the pairs
           dict(N=3, D=2, F=1, n=3, crop=False), dict(N=4, D=2, F=1, n=3, species='ABAA', only='AA', crop=False), dict(N=3, D=1, F=2, n=3, crop=False),
           dict(N=4, D=2, F=1, n=3, species='ABBB', only='AB', crop=False),
           # no cell
           dict(N=3, D=2, F=1, n=3, cell=False), dict(N=2, D=3, F=1, n=3, cell=False), dict(N=3, D=1, F=1, n=4, cell=False),
           dict(N=2, D=3, F=2, n=3, cell=False), dict(N=2, D=3, F=1, n=3, cell=False, species='AB', only='AB'), dict(N=2, D=1, F=2, n=3, cell=False)]
    # default grid
    out += [dict(N=3, D=2, F=1, n=4, pin=[5, 6], rmax=2, dr='3/4', at=[['1/8', '-1'], [None, '1/4'], ['-5/2', '3/2']], auto=True),
            dict(N=2, D=1, F=1, n=3, pin=[5], rmax=2, dr='1', auto=True), dict(N=2, D=3, F=1, n=4, rmax=2, dr='3/4', cell=False, auto=True),
            dict(N=3, D=2, F=1, n=4, rmax=2, dr='3/4', cell=False, auto=True, at=[['1/8', '-1'], [None, '1/4'], ['-5/2', '3/2']])]
    # two frames with different cells
    out += [dict(N=2, D=3, F=2, n=3, swap=True, at=[['1/8', '-1/4', '1/8'], ['3/4', '-1/2', '1/4']])]
    if tier == 'thorough':
        out += [dict(N=4, D=2, F=1, n=3), dict(N=3, D=2, F=2, n=3), dict(N=3, D=2, F=1, n=3, pin=[8, 9], rmax=2), dict(N=3, D=3, F=2, n=3), dict(N=4, D=3, F=1, n=3, pin=[8, 8, 9], rmax=2),
                dict(N=4, D=2, F=1, n=4, cell=False), dict(N=4, D=3, F=1, n=4, crop=False)]
    return out


def harness(B, N, D, F, n, species=None, only='', pin=None, rmax=None, crop=True, cell=True, at=None, dr=None, auto=False, swap=False):
    if B.symbolic:
        B.E.settle = True
    pp = B.pp
    sp = list(species) if species else None
    T = make(B, N=N, D=D, F=F, species=sp, step='uniform', unfolded=False, fold='cell' if cell and not swap else None, pin=pin)
    cells = [T.L] * F
    if swap:
        # the shape of the cell changes, not its volume
        cells = [T.L, [T.L[1], T.L[0]] + T.L[2:]]
        for f in range(F):
            inside(B, T.u[f], cells[f])
    if at:
        # given positions, or coordinates
        for i, x in enumerate(at):
            for d, y in enumerate(x):
                if y is not None:
                    T.u[0][i][d] = B.num(Fraction(y)) if B.symbolic else float(Fraction(y))
    if at or swap:
        T.systems = [system(B, T.u[f], cells[f], sp) for f in range(F)]
    # the code replaces the sides by the largest number
    for l in T.L:
        B.assume(l <= 100)
    if not cell:
        for f in range(F):
            for x in T.u[f]:
                for y in x:
                    B.assume(B.all(B.le(-100, y), B.le(y, 100)))
    if dr:
        dr = B.num(Fraction(dr)) if B.symbolic else float(Fraction(dr))
    else:
        dr = B.real('dr', pos=True)
    if rmax:
        top = B.num(B.q(rmax)) if B.symbolic else float(rmax)
    elif crop or not cell:
        top = B.real('rmax', pos=True)
    for s in T.systems:
        if cell:
            s.cell.periodic[:] = False
        else:
            s.cell = None
    T.th = trajectory(B, T.systems, T.steps, T.dt)
    # default grid, or given one
    kw = dict(dr=dr) if auto else dict(rgrid=[dr * (2 * i + 1) / 2 for i in range(n)])
    if crop or not cell:
        # all the bins but the last one are reported, the last of them may extend beyond the maximum distance
        B.assume(B.le(dr * (2 * n - 3), top * 2))
        if auto:
            B.assume(B.lt(top * 2, dr * (2 * n - 1)))
        kw['rmax'] = top
    if not cell:
        vol = []
        for f in range(F):
            v = 1
            for d in range(D):
                xs = [T.u[f][i][d] for i in range(N)]
                B.assume(B.any(*[B.lt(xs[0], x) for x in xs[1:]]))
                v = v * (biggest(B, xs) - smallest(B, xs))
            vol.append(v)
        V = vol[-1]
    else:
        V = 1
        for l in T.L:
            V = V * l
            if crop and not rmax:
                B.assume(top * 2 < l)
                B.assume(l < top * 4)
            if not crop:
                B.assume(dr * (2 * n - 2) <= l)
    a, b = only or '**'
    if only == 'AA':
        c = pp.Partial(pp.RadialDistributionFunction, ['A'], T.th, **kw)
    else:
        c = pp.RadialDistributionFunction(T.th, **kw)
        if only:
            keep = B.load('atooms.postprocessing.helpers').filter_species
            c.add_filter(keep, a)
            c.add_filter(keep, b)
    idx = {x: [i for i in range(N) if x == '*' or sp[i] == x] for x in (a, b)}
    # particles in the bulk
    centers = []
    for f in range(F):
        if cell and crop:
            centers.append([i for i in idx[a] if B.decide(B.all(*[B.all(B.le(x, l / 2 - top), B.le(top - l / 2, x))
                                                                  for x, l in zip(T.u[f][i], cells[f])]))])
        else:
            centers.append(idx[a])
    B.assume(sum(len(x) for x in centers) > 0)
    c.compute()
    p = c.partial[('A', 'A')] if only == 'AA' else c
    edges = [dr * i for i in range(n + 1)]
    vols = shells(B, edges, D)
    m = n - 1
    if auto and not cell:
        # the bin next to the maximum distance may be left out
        m = len(p.grid)
        B.claim(n - 2 <= m <= n - 1 and len(p.value) == m, 'number of bins')
    else:
        B.claim(len(p.grid) == m and len(p.value) == m, 'number of bins')
    tot = [0] * m
    once = a == b and not (cell and crop)
    for f in range(F):
        for i in centers[f]:
            for j in idx[b]:
                if i == j or once and j < i:
                    continue
                d2 = 0
                for x, y in zip(T.u[f][i], T.u[f][j]):
                    d2 = d2 + (x - y) * (x - y)
                h = hist(B, [d2], edges)
                for k in range(m):
                    tot[k] = tot[k] + h[k]
    n_0 = B.q(sum(len(x) for x in centers), F)
    for k in range(m):
        B.claim_eq(p.grid[k], (edges[k] + edges[k + 1]) / 2, 'r')
        if k == 0 and cell and crop:
            continue
        ideal = B.div(vols[k], V) * B.num(n_0 * len(idx[b]))
        if once:
            ideal = ideal / 2
        B.claim_eq(p.value[k] * ideal, tot[k] / B.num(F), 'g(r)')


def biggest(B, xs):
    m = xs[0]
    for x in xs[1:]:
        if B.decide(B.lt(m, x)):
            m = x
    return m


def smallest(B, xs):
    m = xs[0]
    for x in xs[1:]:
        if B.decide(B.lt(x, m)):
            m = x
    return m
