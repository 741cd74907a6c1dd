"""C07: four-point dynamic susceptibility of the self overlap"""

from ..common import *
from .c10_fskt import block_steps, late_pairs, pairs_at, interval

BOUNDS = '1-4 particles in 2 or 3 dimensions, 3-7 frames at uniform steps or periodic blocks of 2 or 3 frames, arbitrary positions and cutoff'


def configs(tier):
    out = []
    for fast in (False, True):
        out += [dict(fast=fast, N=1, D=2, F=4, norigins=-1), dict(fast=fast, N=3, D=2, F=3, norigins=-1),
                dict(fast=fast, N=1, D=3, F=6, norigins=0.5), dict(fast=fast, N=2, D=3, F=4, norigins=-1),
                dict(fast=fast, N=5, D=2, F=3, norigins=-1, species='ABABA'),
                dict(fast=fast, N=4, D=3, F=4, norigins=-1, species='ABAB'),
                dict(fast=fast, N=1, D=2, F=4, norigins=-1, fold=True),
                dict(fast=fast, N=1, D=2, F=6, norigins=-1, size=2), dict(fast=fast, N=1, D=2, F=6, norigins=-1, size=2, late=1),
                dict(fast=fast, N=1, D=2, F=7, norigins=-1, size=3, late=1),
                dict(fast=fast, N=1, D=2, F=6, norigins='1', size=2)]
    if tier == 'thorough':
        for fast in (False, True):
            out += [dict(fast=fast, N=3, D=2, F=4, norigins=-1), dict(fast=fast, N=2, D=3, F=6, norigins=2)]
    return out


def harness(B, fast, N, D, F, norigins, species=None, fold=False, size=1, late=0):
    pp = B.pp
    st = block_steps(B, F, size) if size > 1 else 'uniform'
    T = make(B, N=N, D=D, F=F, species=list(species) if species else None, step=st, fold='sym' if fold else None)
    a = B.real('a', pos=True)
    times = [T.dt * s if i else T.dt * 0 for i, s in enumerate(T.steps)]
    T.th.block_size = size
    times += [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]
    cls = pp.Chi4SelfOverlapOptimized if fast else pp.Chi4SelfOverlap
    idx = list(range(N))
    if species:
        idx = [i for i in idx if species[i] == 'A']
        c = pp.Partial(cls, ['A'], T.th, tgrid=times, a=a, norigins=norigins)
        c.compute()
        c = c.partial['A']
    else:
        c = cls(T.th, tgrid=times, a=a, norigins=norigins)
        c.compute()
    skip = interval(F, size, norigins)
    if late:
        lag = [B.rint(B.div(t, T.dt)) for t in c.grid]
        for i, j in late_pairs(F, size, late):
            B.claim(B.any(*[B.eqi(T.steps[j] - T.steps[i], x) for x in lag]), 'requested time is returned')
    else:
        B.claim_eq(c.grid, times, 'times')
        lag = T.steps
    B.claim_eq(c.average.grid, c.grid, 'times of the average')
    B.claim_eq(c.variance.grid, c.grid, 'times of the second moment')
    n = len(idx)
    for i, x in enumerate(lag):
        use = pairs_at(B, T.steps, x, skip, norigins in (1, '1'))
        B.claim(len(use) > 0, 'there is a time origin')
        # every time origin but the last admissible one
        use = [(i0, i1) for i0, i1 in use if i0 < F - (i1 - i0) - skip]
        qs = [msum(B.ind(B.lt(dist2(T.u[i0][p], T.u[i1][p]), a * a)) for p in idx) for i0, i1 in use]
        if not use:
            B.claim_eq(c.value[i], 0, 'no origin')
            continue
        m = B.num(len(use))
        av = msum(qs) / m
        av2 = msum(q * q for q in qs) / m
        B.claim_eq(c.average.value[i], av, 'average overlap')
        B.claim_eq(c.variance.value[i], av2, 'second moment of the overlap')
        B.claim_eq(c.value[i] * n, msum((q - av) * (q - av) for q in qs) / m, 'chi4 is the variance per particle')
    B.claim(len(c.value) == len(lag), 'one value per time')
