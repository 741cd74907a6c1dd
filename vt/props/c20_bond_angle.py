"""C20: bond angle distribution"""

from ..common import *

BOUNDS = ('3-4 particles of 1-3 species in 2 or 3 dimensions, 1-3 frames, arbitrary positions in the cell (in its inner half '
          'for three or more triplets), sides and cutoff distances, given bin widths; one system of 52 particles at given positions; '
          'the default cutoff distances from 4-5 arbitrary values of g(r)')
ASSUMPTIONS = ['the cell is the same in all frames and particles are inside of it',
               'the arc cosine is a decreasing function from [-1, 1] to [0, pi], otherwise left uninterpreted',
               'there is at least one angle in the grid']


def configs(tier):
    big = tier == 'thorough'
    out = [dict(species='ABB', D=3, F=1, dtheta=90, pair='AB', inner=True), dict(species='ABB', D=3, F=1, dtheta=60, pair='AB', inner=True),
           dict(species='ABBB', D=2, F=1, dtheta=45, pair='AB', inner=True, far=2), dict(species='CAAC', D=3, F=1, dtheta=90, pair='AC', inner=True),
           dict(species='ABB', D=3, F=1, dtheta=72, pair='AB', inner=True), dict(species='ABB', D=3, F=1, dtheta=20, pair='AB', inner=True),
           dict(species='AAA', D=2, F=1, dtheta=90, inner=True),
           dict(species='ABBB', D=2, F=1, dtheta=90, pair='AB', inner=True),
           dict(species='ABAB', D=3, F=1, dtheta=90, pair='AB', inner=True),
           dict(species='ABB', D=3, F=2, dtheta=90, pair='AB', inner=True, norigins=-1),
           dict(species='ABB', D=3, F=3, dtheta=90, pair='AB', inner=True, norigins=1),
           dict(species='ABBB', D=2, F=1, dtheta=90, pair='AB', far=2), 
           dict(species='AAAB', D=2, F=1, dtheta=90, partial='A', inner=True),
           # particles that change species, cell that changes, angles beyond the grid
           dict(species=['ABB', 'BAB'], D=3, F=2, dtheta=90, pair='AB', inner=True, norigins=-1),
           dict(species=['ABB', 'BAA'], D=2, F=2, dtheta=90, star=True, inner=True, norigins=-1),
           dict(species=['BBA', 'ABB'], D=2, F=2, dtheta=120, star=True, inner=True, norigins=-1),
           dict(species='ABB', D=3, F=2, dtheta=90, pair='AB', inner=True, norigins=-1, cells=True),
           dict(species='ABB', D=3, F=2, dtheta=90, pair='AB', inner=True, norigins=-1, again=True),
           dict(species='ABB', D=3, F=2, dtheta=72, pair='AB', inner=True, norigins=-1),
           dict(species='ABB', D=3, F=2, dtheta=100, pair='AB', inner=True, norigins=-1),
           dict(many=True)]
    out += [dict(cutoff=n, species=s) for n, s in ((4, 'AAA'), (5, 'AAA'), (4, 'ABB'))]
    if big:
        out += [dict(species='ABB', D=3, F=1, dtheta=90, pair='AB'), dict(species='AAA', D=3, F=1, dtheta=60, inner=True),
                dict(species='AAB', D=2, F=1, dtheta=45, inner=True), dict(species='ABBB', D=3, F=1, dtheta=45, pair='AB', inner=True),
                dict(cutoff=6, species='ABB')]
    return out


def harness(B, species='', D=2, F=1, dtheta=90, pair=None, partial=None, inner=False, norigins=None, many=False, cutoff=None, far=0, star=False,
            cells=False, again=False):
    if many:
        return crowd(B)
    if cutoff:
        return minimum(B, cutoff, species)
    pp = B.pp
    if B.symbolic:
        B.E.settle = True
    if isinstance(species, str):
        species = [species] * F
    N = len(species[0])
    T = cluster(B, N, D, F, [list(x) for x in species], inner, cells)
    names = sorted(set(species[0]))
    rc = [[B.real('rc_%s%s' % (a, b), pos=True) for b in names] for a in names]
    kw = dict(dtheta=real(B, dtheta), norigins=norigins, rcut=[list(x) for x in rc])
    filt = B.load('atooms.postprocessing.helpers').filter_species
    frames = range(F) if norigins in (None, -1) else [0]
    if partial:
        c = pp.Partial(pp.BondAngleDistribution, list(partial), T.th, **kw)
        parts = [(a, b) for a in partial for b in partial]
    else:
        c = pp.BondAngleDistribution(T.th, **kw)
        parts = [tuple(pair)] if pair else [('*', '*')]
        if pair:
            c.add_filter(filt, pair[0])
            c.add_filter(filt, pair[1])
    grid = [dtheta * i for i in range(int(180 // dtheta) + 1)]
    n = len(grid) - 1
    counts, totals = {}, {}
    idx = {s: [[i for i in range(N) if s == '*' or x[i] == s] for x in species] for s in names + ['*']}
    if star:
        # only the first particle has more than one neighbor
        for f in range(F):
            for x in rc:
                for r in x:
                    for i, j in pairs(N):
                        if i:
                            B.assume(B.le(r * r, dist2(T.u[f][i], T.u[f][j])))
    for a, b in parts:
        h = [0] * n
        for f in frames:
            for i in idx[a][f]:
                near = []
                for j in idx[b][f]:
                    if i == j:
                        continue
                    d, t = [], 0
                    for x, y, l in zip(T.u[f][i], T.u[f][j], T.Ls[f]):
                        e = x - y
                        if not inner:
                            e = B.ite(B.lt(l, e * 2), e - l, B.ite(B.lt(e * 2, -l), e + l, e))
                        d.append(e)
                        t = t + e * e
                    r = rc[names.index(species[f][i])][names.index(species[f][j])]
                    # distinct particles
                    B.assume(B.lt(0, t))
                    if far and len(near) >= far:
                        # bound the number of triplets
                        B.assume(B.le(r * r, t))
                    if B.decide(B.lt(t, r * r)):
                        near.append((d, t))
                for p in range(len(near)):
                    for q in range(p + 1, len(near)):
                        num = msum(x * y for x, y in zip(near[p][0], near[q][0]))
                        den = B.sqrt(near[p][1]) * B.sqrt(near[q][1])
                        if B.symbolic:
                            # both distances are positive
                            B.assume(B.lt(0, den))
                        cos = B.div(num, den)
                        if B.symbolic:
                            # Cauchy-Schwarz
                            B.assume(B.le(cos, 1))
                            B.assume(B.le(-1, cos))
                        theta = B.div(B.acos(cos) * 180, B.pi)
                        for k in range(n):
                            if B.decide(B.lt(theta, grid[k + 1])):
                                # both orders
                                h[k] += 2
                                break
        totals[a, b] = sum(h)
        counts[a, b] = h
        B.assume(totals[a, b] > 0)
    c.compute()
    if again:
        c.compute()
    for a, b in parts:
        p = c.partial[(a, b)] if partial else c
        B.claim(len(p.grid) == n and len(p.value) == n, 'number of bins')
        for k in range(n):
            B.claim_eq(p.grid[k], B.num(grid[k] + grid[k + 1]) / 2, 'angle')
            B.claim_eq(p.value[k] * totals[a, b] * dtheta, counts[a, b][k], 'distribution %s-%s' % (a, b))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if not partial:
                B.claim_eq(c.analysis['cutoff distance %d-%d' % (i, j)], rc[i][j], 'cutoff distance')


def cluster(B, N, D, F, species, inner, cells=False):
    """The first particle is at the origin, or in (3/8, 0, ...) L, the others anywhere"""
    T = Traj()
    T.L = sides(B, D)
    T.Ls = [T.L] + [[B.real('L%d_%d' % (f, d), pos=True) for d in range(D)] if cells else T.L for f in range(1, F)]
    T.u = []
    for f in range(F):
        z = real(B, 0)
        x = [[z] * D] + [[B.real('u_%d_%d_%d' % (f, i, d)) for d in range(D)] for i in range(1, N)]
        for y in x[1:]:
            for a, l in zip(y, T.Ls[f]):
                B.assume(a * (4 if inner else 2) < l)
                B.assume(a * (4 if inner else 2) > -l)
        if not inner:
            x[0] = [T.Ls[f][0] * 3 / 8] + [z] * (D - 1)
        T.u.append(x)
    T.th = trajectory(B, [system(B, x, l, y) for x, l, y in zip(T.u, T.Ls, species)], list(range(F)), real(B, 1))
    return T


def real(B, x):
    return B.num(B.q(x)) if B.symbolic else float(x)


def crowd(B):
    """One particle with 51 neighbors"""
    pp = B.pp
    r = B.real('r', pos=True)
    B.assume(B.lt(40, r))
    L = [200, 200]
    n, m = 30, 21
    pos = [[0, 0]] + [[i + 1, 0] for i in range(n)] + [[0, i + 1] for i in range(m)]
    num = lambda x: real(B, x)
    s = system(B, [[num(x) for x in p] for p in pos], [num(x) for x in L], ['A'] + ['B'] * (n + m))
    th = trajectory(B, [s], [0], num(1))
    c = pp.BondAngleDistribution(th, dtheta=num(60), rcut=[[r, r], [r, r]])
    filt = B.load('atooms.postprocessing.helpers').filter_species
    c.add_filter(filt, 'A')
    c.add_filter(filt, 'B')
    c.compute()
    same = n * (n - 1) + m * (m - 1)
    for k, h in enumerate([same, 2 * n * m, 0]):
        B.claim_eq(c.value[k] * (same + 2 * n * m) * 60, num(h), 'distribution of many neighbors')


def minimum(B, n, species):
    """The default cutoff distances are at the first minimum of g(r) beyond its maximum"""
    if B.symbolic:
        B.E.settle = True
    ba = B.load('atooms.postprocessing.ba')
    partial = B.load('atooms.postprocessing.partial')
    names = sorted(set(species))
    dr = real(B, 1) / 4
    grid = [dr * (2 * i + 1) / 2 for i in range(n)]
    g, want = {}, {}
    for a in names:
        for b in names:
            if a > b:
                g[a, b], want[a, b] = g[b, a], want[b, a]
                continue
            v = [B.real('g_%s%s_%d' % (a, b, i), nonneg=True) for i in range(n)]
            g[a, b] = v
            top = 0
            for i in range(1, n):
                B.assume(B.no(B.eq(v[i], v[top])))
                if B.decide(B.lt(v[top], v[i])):
                    top = i
            for i in range(top, n - 1):
                if B.decide(B.le(v[i], v[i + 1])):
                    want[a, b] = grid[i]
                    break
            else:
                B.assume(B.lt(1, 0))
                B.feasible()

    class Fake(object):

        def __init__(self, cls, ids, th, *args, **kwargs):
            self.ids = list(ids)
            self.partial = {}

        def do(self, update=False):
            for a in self.ids:
                for b in self.ids:
                    p = type('P', (), {})()
                    p.grid, p.value = list(grid), list(g[a, b])
                    self.partial[a, b] = p
        compute = do

    T = make(B, N=len(species), D=2, F=1, species=list(species), step='uniform', unfolded=False, fold='cell')
    old = partial.Partial
    partial.Partial = Fake
    try:
        rc = ba._default_rcut(T.th)
    finally:
        partial.Partial = old
    for k in want:
        B.claim_eq(rc[k], want[k], 'default cutoff distance')
