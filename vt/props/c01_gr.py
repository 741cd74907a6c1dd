"""C01: radial distribution function"""

from ..common import *

BOUNDS = ('2-5 particles in 2 or 3 dimensions, 1-3 frames, arbitrary sides, particles anywhere in the cell, arbitrary bin '
          'width with 2-4 bins within half the smallest side; the default grid with sides and bin width pinned')
ASSUMPTIONS = ['the volume of the cell is the same in all the frames, particles are inside it and all its sides are periodic',
               'a distance equal to the upper edge of the last bin may or may not be counted in it']


def configs(tier):
    out = []
    for cls in ('legacy', 'fast'):
        out += [dict(cls=cls, N=3, D=2, F=1, n=2), dict(cls=cls, N=2, D=3, F=1, n=3), dict(cls=cls, N=2, D=3, F=2, n=2),
                dict(cls=cls, N=4, D=3, F=1, n=2, species='AABB', only='AB'),
                dict(cls=cls, N=4, D=2, F=1, n=2, species='ABAA', only='AA'), dict(cls=cls, N=2, D=3, F=1, n=3, species='AB'),
                dict(cls=cls, N=1, D=2, F=3, n=2, norigins=-1), dict(cls=cls, N=2, D=3, F=1, default=True)]
        out += [dict(cls=cls, N=5, D=2, F=1, n=2, species='ABBBB', only='BA'), dict(cls=cls, N=3, D=1, F=1, n=2), dict(cls=cls, N=2, D=4, F=1, n=2),
                dict(cls=cls, N=2, D=3, F=1, n=2, rmax=1.25), dict(cls=cls, N=2, D=5, F=1, n=2)]
        out += [dict(cls=cls, N=2, D=3, F=1, default=True, pin=[5, 3, 4]), dict(cls=cls, N=2, D=3, F=1, beyond=5, pin=[4, 3, 5]),
                dict(cls=cls, N=4, D=2, F=2, n=2, species=['ABBB', 'BAAA'], only='AB'),
                dict(cls=cls, N=4, D=3, F=2, n=2, species=['AABB', 'BABB'], only='AA'),
                dict(cls=cls, N=2, D=3, F=2, n=2, swap=True), dict(cls=cls, N=4, D=2, F=2, n=2, species='ABBB', only='AB', swap=True)]
    out += [dict(cls='legacy', N=n, D=1, F=1, n=2, many=True) for n in (317, 330)]
    if tier == 'thorough':
        for cls in ('legacy', 'fast'):
            out += [dict(cls=cls, N=4, D=2, F=1, n=2), dict(cls=cls, N=4, D=3, F=1, n=2, species='AABB'),
                    dict(cls=cls, N=3, D=2, F=2, n=2), dict(cls=cls, N=3, D=2, F=1, n=4),
                    dict(cls=cls, N=3, D=2, F=1, default=True), dict(cls=cls, N=2, D=3, F=3, n=2, norigins=2)]
    return out


def harness(B, cls, N, D, F, n=0, norigins=None, species=None, only='', default=False, rmax=None, pin=None, beyond=0,
            many=False, swap=False):
    pp = B.pp
    if many:
        return batches(B, N)
    pin = pin or ([4] * D if default or rmax else None)
    sp = None
    if species:
        sp = [list(x) for x in species] if isinstance(species, (list, tuple)) else list(species)
    cells = None
    if swap:
        # the shape of the cell changes, not its volume
        l = sides(B, D)
        cells = [l[f % 2:f % 2 + 1] + l[1 - f % 2:2 - f % 2] + l[2:] for f in range(F)]
    T = make(B, N=N, D=D, F=F, species=sp, step='uniform', unfolded=False, fold=None if swap else 'cell',
             pin=pin, cells=cells)
    if swap:
        for f in range(F):
            inside(B, T.u[f], cells[f])
    C = {'legacy': pp.RadialDistributionFunctionLegacy, 'fast': pp.RadialDistributionFunctionFast}[cls]
    if default:
        dr = B.num(B.q(1, 2)) if B.symbolic else 0.5
        kw = dict(dr=dr)
        n = min(pin)
    elif rmax:
        # bins centred up to the largest distance
        dr = B.num(B.q(1, 2)) if B.symbolic else 0.5
        kw = dict(dr=dr, rmax=rmax)
        n = 3
        default = True
    elif beyond:
        # bins beyond half the smallest side are left out
        dr = B.num(B.q(1, 2)) if B.symbolic else 0.5
        kw = dict(rgrid=[dr * (2 * i + 1) / 2 for i in range(beyond)])
        n = min(pin)
        default = True
    else:
        dr = B.real('dr', pos=True)
        for l in T.L:
            B.assume(dr * (2 * n) <= l)
        kw = dict(rgrid=[dr * (2 * i + 1) / 2 for i in range(n)])
    if only == 'AA':
        c = pp.Partial(C, ['A'], T.th, norigins=norigins, **kw)
        parts = [('A', 'A')]
    elif only in ('AB', 'BA'):
        from_species = B.load('atooms.postprocessing.helpers').filter_species
        c = C(T.th, norigins=norigins, **kw)
        c.add_filter(from_species, only[0])
        c.add_filter(from_species, only[1])
        parts = [(only[0], only[1])]
    elif species:
        c = pp.Partial(C, ['A', 'B'], T.th, norigins=norigins, **kw)
        parts = [('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')]
    else:
        c = C(T.th, norigins=norigins, **kw)
        parts = [('*', '*')]
    skip = {None: 1, -1: 1, 2: F // 2}[norigins]
    c.compute()
    per = species if isinstance(species, (list, tuple)) else [species] * F
    idx = [{'A': [i for i in range(N) if species and x[i] == 'A'],
            'B': [i for i in range(N) if species and x[i] == 'B'], '*': range(N)} for x in per]
    edges = [dr * i for i in range(n + 1)]
    vols = shells(B, edges, D)
    V = 1
    for l in T.L:
        V = V * l
    if cls == 'fast' and not default:
        n -= 1
    for a, b in parts:
        p = c.partial[(a, b)] if hasattr(c, 'partial') else c
        name = '%s-%s' % (a, b)
        B.claim(len(p.grid) == n and len(p.value) == n, 'number of bins %s' % name)
        tot = [0] * n
        for f in range(0, F, skip):
            if a == b:
                ps = [(i, j) for i in idx[f][a] for j in idx[f][b] if i < j]
            else:
                ps = [(i, j) for i in idx[f][a] for j in idx[f][b]]
            d2 = [minimage(B, T.u[f][i], T.u[f][j], cells[f] if cells else T.L) for i, j in ps]
            if cls == 'legacy' and not default:
                for x in d2:
                    B.assume(B.no(B.eq(x, edges[n] * edges[n])))
            h = hist(B, d2, edges)
            for k in range(n):
                tot[k] = tot[k] + h[k]
        for k in range(n):
            B.claim_eq(p.grid[k], (edges[k] + edges[k + 1]) / 2, 'r')
            ideal = B.div(vols[k], V) * (sum(len(x[a]) for x in idx) * sum(len(x[b]) for x in idx)) / B.num(F * F)
            if a == b:
                ideal = ideal / 2
            B.claim_eq(p.value[k] * ideal, tot[k] / B.num(len(range(0, F, skip))), 'g(r) %s' % name)


def batches(B, N):
    """Many particles on a line, all pairs of which are close: the reference implementation treats them in batches"""
    pp = B.pp
    L = sides(B, 1, [N])
    x = [[[B.num(B.q(i, 64)) if B.symbolic else i / 64.] for i in range(N)]]
    moving = (N - 3, N - 1) if N < 320 else (0, N - 16)
    for i in moving:
        d = B.real('d%d' % i)
        B.assume(d > 0)
        B.assume(d < B.q(1, 64))
        x[0][i][0] = x[0][i][0] + d
    th = trajectory(B, [system(B, x[0], L)], [0], B.num(1) if B.symbolic else 1.0)
    dr = B.num(B.q(4)) if B.symbolic else 4.0
    n = 3
    c = pp.RadialDistributionFunctionLegacy(th, rgrid=[dr * (2 * i + 1) / 2 for i in range(n)])
    c.compute()
    edges = [dr * i for i in range(n + 1)]
    vols = shells(B, edges, 1)
    h = [0] * n
    for i in range(N):
        for j in range(i):
            d = x[0][i][0] - x[0][j][0]
            if i not in moving and j not in moving:
                h[(i - j) // 256] += 1
            else:
                for k, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
                    h[k] = h[k] + B.ind(B.all(B.le(a, d), B.lt(d, b)))
    for k in range(n):
        B.claim_eq(c.grid[k], (edges[k] + edges[k + 1]) / 2, 'r')
        B.claim_eq(c.value[k] * B.div(vols[k], L[0]) * (N * N) / 2, h[k], 'g(r)')
