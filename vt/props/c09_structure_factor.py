"""C09: static structure factor"""

from ..common import *

BOUNDS = ('2-7 particles in 1-4 dimensions, 1-3 frames, wave vectors j*2pi/L with integers |j|<=3 in two shells for '
          'arbitrary cell sides, positions and weights')


def configs(tier):
    out = []
    for cls in ('legacy', 'fast'):
        out += [dict(cls=cls, N=2, D=3, F=1), dict(cls=cls, N=4, D=3, F=1), dict(cls=cls, N=2, D=3, F=3),
                dict(cls=cls, N=2, D=3, F=3, norigins=2), dict(cls=cls, N=2, D=3, F=2, norigins='1'),
                dict(cls=cls, N=6, D=3, F=1, species='ABAABA'), dict(cls=cls, N=6, D=3, F=2, species='BABBAB'),
                dict(cls=cls, N=2, D=3, F=1, weight='mass'), dict(cls=cls, N=2, D=3, F=2, weight='mass', fluct=True),
                dict(cls=cls, N=6, D=3, F=1, species='ABAABA', weight='mass'),
                dict(cls=cls, N=6, D=3, F=1, species='ABAABA', weight='mass', fluct=True)]
    out += [dict(cls='legacy', N=3, D=2, F=1), dict(cls='legacy', N=3, D=2, F=2),
            dict(cls='legacy', N=7, D=2, F=1, species='AABAABB'),
            dict(cls='legacy', N=3, D=2, F=1, weight='mass', fluct=True),
            dict(cls='legacy', N=7, D=2, F=1, species='ABAABBA', weight='mass')]
    # cell that changes along the trajectory: the wave vectors change with it
    V = [dict(D=2, N=3, sides=[(1, 1), (2, 1)]), dict(D=2, N=3, sides=[(1, 2), (1, 1), (2, 2)]),
         dict(D=2, N=3, sides=[(2, 1), (1, 1), (1, 2)], norigins=2),
         dict(D=2, N=7, sides=[(1, 2), (2, 1)], species=['AABBABB', 'BABBABA']),
         dict(D=3, N=2, sides=[(1, 1, 1), (2, 1, 1)], norigins='1'),
         dict(D=3, N=2, sides=[(1, 1, 1), (1, 2, 1)])]
    for x in V:
        if x['D'] == 2:
            out.append(dict(x, cls='legacy', F=len(x['sides'])))
            out.append(dict(x, cls='legacy', F=len(x['sides']), weight='mass'))
        else:
            out += [dict(x, cls=cls, F=len(x['sides'])) for cls in ('legacy', 'fast')]
    # species of the particles that change along the trajectory
    for cls in ('legacy', 'fast'):
        out += [dict(cls=cls, N=6, D=3, F=2, species=['ABBBBB', 'BBAABB'])]
    out += [dict(cls='legacy', N=4, D=2, F=2, species=['ABBB', 'BAAA']),
            dict(cls='legacy', N=4, D=2, F=2, species=['ABBB', 'BABB'], weight='mass')]
    # other dimensions
    out += [dict(cls=cls, N=2, D=D, F=1) for cls in ('legacy', 'fast') for D in (1, 4)]
    out += [dict(cls='legacy', N=5, D=1, F=2, species='ABAAB'), dict(cls='legacy', N=5, D=4, F=1, species='ABAAB'),
            dict(cls='legacy', N=5, D=4, F=1, species='ABBAB', weight='mass'),
            dict(cls='fast', N=5, D=4, F=1, species='ABAAB', weight='mass', fluct=True)]
    if tier == 'thorough':
        for cls in ('legacy', 'fast'):
            out += [dict(cls=cls, N=4, D=3, F=3), dict(cls=cls, N=6, D=3, F=2, species='ABAABA'),
                    dict(cls=cls, N=6, D=3, F=2, species='ABAABA', weight='mass', fluct=True)]
    return out


def harness(B, cls, N, D, F, norigins=-1, species=None, weight=None, fluct=False, sides=None):
    pp = B.pp
    cells = sides and [[2 * B.pi * x for x in side] for side in sides]
    T = make(B, N=N, D=D, F=F, species=letters(species, F), cells=cells, mass=weight == 'mass', step='uniform',
             unfolded=False)
    C = {'legacy': pp.StructureFactorLegacy, 'fast': pp.StructureFactorFast}[cls]
    if sides:
        ks, kgrid = variable(B, T, sides)
    else:
        shells = {1: [[(1, ), (-2, )], [(-3, ), (2, ), (1, )]], 2: SHELLS2, 3: SHELLS3,
                  4: [[(1, 0, 0, 2), (0, -1, 0, 0)], [(1, -2, 1, -3)]]}[D]
        ks = [kvecs(B, T.L, shells)] * F
    skip = {-1: 1, 2: max(1, F // 2), '1': F}[norigins]
    frames = range(0, F, skip)
    idx = {'A': select(species, F, 'A') if species else None, 'B': select(species, F, 'B') if species else None,
           '*': [range(N)] * F}
    kw = dict(kgrid=kgrid, dk=1 / 8., nk=100) if sides else {}
    if species:
        c = pp.Partial(C, ['A', 'B'], T.th, norigins=norigins, **kw)
        parts = [('A', 'A'), ('A', 'B'), ('B', 'A'), ('B', 'B')]
        todo = list(c.partial.values())
    else:
        c = C(T.th, norigins=norigins, **kw)
        parts = [('*', '*')]
        todo = [c]
    for x in todo:
        if not sides:
            set_kvectors(B, x, ks[0])
    if weight:
        c.add_weight(field=weight, fluctuations=fluct)
    c.compute()
    for a, b in parts:
        p = c.partial[(a, b)] if species else c
        B.claim(len(p.grid) == len(ks[0]) and len(p.value) == len(ks[0]), 'one value per shell')
        for s, klist in enumerate(ks[0]):
            if not sides:
                B.claim_eq(p.grid[s], mean(B, [knorm(B, k) for k in klist]), 'k %s-%s' % (a, b))
            ra, rb = [], []
            wa = wb = None
            if weight:
                wa, wb = weights(B, T, idx[a], fluct), weights(B, T, idx[b], fluct)
            for f in frames:
                for k in ks[f][s]:
                    ra.append(rho(B, k, [T.u[f][i] for i in idx[a][f]], wa and wa[f]))
                    rb.append(rho(B, k, [T.u[f][i] for i in idx[b][f]], wb and wb[f]))
            v = mean(B, [B.re(x * B.conj(y)) for x, y in zip(ra, rb)])
            if weight:
                v = v - B.re(mean(B, ra) * B.conj(mean(B, rb)))
            B.claim_eq(p.value_nonorm[s] if (a, b) != ('B', 'A') else v, v, '<rho rho*> %s-%s' % (a, b))
            # geometric mean of the average numbers of particles in the trajectory
            n2 = B.q(sum(len(x) for x in idx[a]), F) * B.q(sum(len(x) for x in idx[b]), F)
            B.claim_eq(p.value[s] * B.sqrt(B.num(n2)), v, 'S(k) %s-%s' % (a, b))


def weights(B, T, idx, fluct):
    w = [[T.mass[i] for i in x] for x in idx]
    if fluct:
        w = [[y - mean(B, x) for y in x] for x in w]
    return w


def variable(B, T, sides):
    """Wave vectors around 1 and 2 in each frame, the sides being 2 pi times the given integers"""
    kgrid = [1., 2.]
    ks = []
    for side in sides:
        ks.append([])
        for k in kgrid:
            vecs = itertools.product(*[range(-5, 6)] * T.D)
            vecs = [v for v in vecs if abs(sum((x / float(l))**2 for x, l in zip(v, side))**0.5 - k) < 1 / 8.]
            ks[-1].append([[B.num(B.q(x, l)) for x, l in zip(v, side)] for v in vecs])
    return ks, kgrid
