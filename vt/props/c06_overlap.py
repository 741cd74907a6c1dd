"""C06: self and collective overlap functions"""

from ..common import *
from .c10_fskt import block_steps, block_lags, late_pairs, pairs_at, interval

KERNELS = False
BOUNDS = '1-4 particles in 2 or 3 dimensions, 2-6 frames, uniform, arbitrary or block steps, arbitrary positions, positive cutoff and steps'


def configs(tier):
    out = []
    for kind in ('self', 'collective'):
        out += [dict(kind=kind, N=3, D=2, F=2, norigins=-1), dict(kind=kind, N=1, D=2, F=4, norigins=-1),
                dict(kind=kind, N=1, D=3, F=4, norigins=2), dict(kind=kind, N=2, D=3, F=3, norigins=-1),
                dict(kind=kind, N=1, D=2, F=3, norigins='1'), dict(kind=kind, N=1, D=2, F=5, norigins=0.5),
                dict(kind=kind, N=5, D=2, F=2, norigins=-1, species='ABAAB'),
                dict(kind=kind, N=1, D=2, F=3, norigins=-1, fold=True),
                dict(kind=kind, N=1, D=2, F=4, norigins=-1, size=2, late=1), dict(kind=kind, N=1, D=2, F=6, norigins=-1, size=3, late=1),
                dict(kind=kind, N=1, D=2, F=5, norigins=2, size=2), dict(kind=kind, N=3, D=2, F=4, norigins='1', size=2)]
    out += [dict(kind='self', N=2, D=3, F=2, norigins=-1, stored=True), dict(kind='self', N=5, D=2, F=2, norigins=-1, species='BBAAA', stored=True),
            dict(kind='collective', N=1, D=2, F=3, norigins=-1, stored=True)]
    # particles that change species
    out.append(dict(kind='collective', N=5, D=2, F=2, norigins='1', species=['AAABB', 'BABAA']))
    if tier == 'thorough':
        for kind in ('self', 'collective'):
            out += [dict(kind=kind, N=4, D=2, F=3, norigins=-1), dict(kind=kind, N=3, D=2, F=4, norigins=-1),
                    dict(kind=kind, N=2, D=3, F=6, norigins=2)]
    return out


def harness(B, kind, N, D, F, norigins, species=None, fold=False, stored=False, size=1, late=0):
    pp = B.pp
    T = make(B, N=N, D=D, F=F, species=letters(species, F),
             step=block_steps(B, F, size) if size > 1 else 'sym' if norigins == '1' else 'uniform', fold='sym' if fold else None)
    if stored:
        store_unfolded(B, T)
    a = B.real('a', pos=True)
    times = [T.dt * s if i else T.dt * 0 for i, s in enumerate(T.steps)]
    T.th.block_size = size
    times += [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]
    cls = {'self': pp.SelfOverlap, 'collective': pp.CollectiveOverlap}[kind]
    idx = [list(range(N))] * F
    if species:
        idx = select(species, F, 'A')
        c = pp.Partial(cls, ['A'], T.th, tgrid=times, a=a, norigins=norigins)
        c.compute()
        c = c.partial['A']
    else:
        c = cls(T.th, tgrid=times, a=a, norigins=norigins)
        c.compute()
    uses = block_lags(B, T, c.grid, times, F, size, norigins, late)
    val = []
    for use in uses:
        tot = 0
        for i0, i1 in use:
            if kind == 'self':
                x, ps = T.u, [(p, p) for p in idx[i0]]
            else:
                x, ps = T.p, [(p, q) for p in idx[i0] for q in idx[i1]]
            n = msum(B.ind(B.lt(dist2(x[i0][p], x[i1][q]), a * a)) for p, q in ps)
            tot = tot + n / B.num(len(idx[i0]))
        val.append(tot / B.num(len(use)))
    B.claim_eq(c.value, val, 'overlap')
    for v in c.value:
        B.claim(B.le(0, v), 'overlap is not negative')
        if kind == 'self':
            B.claim(B.le(v, 1), 'self overlap is at most one')
    if kind == 'self':
        B.claim_eq(c.value[0], 1, 'self overlap is one at zero time')
    else:
        B.claim(B.le(1, c.value[0]), 'collective overlap is at least one at zero time')
