"""C23: displacements relative to the center of mass"""

from ..common import *

BOUNDS = ('2-5 particles with arbitrary masses in 2 or 3 dimensions, 2-3 frames, arbitrary cell sides and positions '
          '(displacements between frames below half a side), stored folded or together with unfolded positions; '
          'mean square displacement and intermediate scattering functions')


def configs(tier):
    out = [dict(what='msd', N=3, D=2, F=2), dict(what='msd', N=2, D=3, F=3), dict(what="msd", N=4, D=2, F=2, species="ABBB"),
           dict(what='msd', N=2, D=3, F=2, stored=True), dict(what="msd", N=4, D=2, F=2, species="BABB", stored=True),
           dict(what='msd', N=1, D=2, F=3), dict(what='msd', N=2, D=3, F=3, norigins='1'),
           dict(what='msd', N=1, D=2, F=2, fold=True)]
    for c in ('legacy', 'fast'):
        out += [dict(what=c, N=3, D=2, F=2), dict(what=c, N=2, D=3, F=3), dict(what=c, N=4, D=2, F=2, species='BABB')]
    out += [dict(what='total', N=3, D=2, F=2), dict(what='total', N=2, D=3, F=2),
            dict(what='total', N=4, D=2, F=2, species='BABB')]
    if tier == 'thorough':
        out += [dict(what='msd', N=4, D=3, F=3), dict(what='msd', N=7, D=3, F=2, species='AABABAA'),
                dict(what='msd', N=4, D=3, F=3, stored=True)]
        for c in ('legacy', 'fast', 'total'):
            out += [dict(what=c, N=4, D=3, F=2), dict(what=c, N=3, D=2, F=3)]
    return out


def harness(B, what, N, D, F, species=None, stored=False, norigins=-1, fold=False):
    pp = B.pp
    T = make(B, N=N, D=D, F=F, species=list(species) if species else None, step='uniform', mass=True,
             fold='sym' if fold else None)
    if stored:
        store_unfolded(B, T)
    M = msum(T.mass)
    rel = []
    for f in range(F):
        cm = [B.div(msum(T.mass[i] * T.u[f][i][d] for i in range(N)), M) for d in range(D)]
        rel.append([[T.u[f][i][d] - cm[d] for d in range(D)] for i in range(N)])
    tg = [T.dt * s if i else 0 * T.dt for i, s in enumerate(T.steps)]
    names = sorted(set(species)) if species else ['*']
    groups = [(x, [i for i in range(N) if x == '*' or species[i] == x]) for x in names]
    if what == 'msd':
        if species:
            c = pp.Partial(pp.MeanSquareDisplacement, names, T.th, tgrid=tg, norigins=norigins, fix_cm=True)
        else:
            c = pp.MeanSquareDisplacement(T.th, tgrid=tg, norigins=norigins, fix_cm=True)
        c.compute()
        for x, idx in groups:
            p = c.partial[x] if species else c
            B.claim(len(p.value) == F, 'one value per time')
            for j in range(F):
                use = range(0, F - j) if norigins == -1 else [0]
                v = mean(B, [dist2(rel[i0][i], rel[i0 + j][i]) for i0 in use for i in idx])
                B.claim_eq(p.value[j], v, 'msd %s' % x)
        return
    C = {'legacy': pp.SelfIntermediateScatteringLegacy, 'fast': pp.SelfIntermediateScatteringFast,
         'total': pp.IntermediateScattering}[what]
    ks = kvecs(B, T.L, {2: SHELLS2, 3: SHELLS3}[D])
    if species:
        c = pp.Partial(C, names, T.th, None, tg, norigins=norigins, normalize=False, fix_cm=True)
        if what == 'total':
            # the result of a pair of species does not depend on their order
            order = [a for _, a in groups]
            todo = [(c.partial[(x, y)], min(a, b, key=order.index), max(a, b, key=order.index), (x, y))
                    for x, a in groups for y, b in groups]
        else:
            todo = [(c.partial[x], a, a, x) for x, a in groups]
    else:
        c = C(T.th, None, tg, norigins=norigins, normalize=False, fix_cm=True)
        todo = [(c, groups[0][1], groups[0][1], '*')]
    for p, _, _, _ in todo:
        set_kvectors(B, p, ks)
    c.compute()
    for p, a, b, x in todo:
        for s, klist in enumerate(ks):
            B.claim(len(p.value[s]) == F, 'one value per time')
            for j in range(F):
                v = 0
                for i0 in range(0, F - j):
                    for k in klist:
                        if what == 'total':
                            v = v + B.re(rho(B, k, [rel[i0 + j][i] for i in a]) * B.conj(rho(B, k, [rel[i0][i] for i in b])))
                        else:
                            for i in a:
                                v = v + B.re(plane(B, k, rel[i0 + j][i]) * B.conj(plane(B, k, rel[i0][i])))
                n = len(a) if what != 'total' else 1
                B.claim_eq(p.value[s][j], v / B.num((F - j) * len(klist) * n), '%s %s' % (what, x))


