"""C05: non-Gaussian parameter"""

from ..common import *
from .c10_fskt import block_steps, block_lags, late_pairs

KERNELS = False
BOUNDS = '1-4 particles in 2 or 3 dimensions, 2-6 frames, uniform, arbitrary increasing or block steps, all or one time origin'
ASSUMPTIONS = ['at least one particle moves between the frames of each pair']


def configs(tier):
    out = [dict(N=1, D=3, F=3, norigins=-1), dict(N=2, D=3, F=3, norigins=-1), dict(N=3, D=2, F=2, norigins=-1),
           dict(N=2, D=3, F=2, norigins='1'), dict(N=2, D=3, F=4, norigins=0.5), dict(N=1, D=3, F=5, norigins=2),
           dict(N=5, D=3, F=2, norigins=-1, species='AABAA'), dict(N=4, D=3, F=2, norigins=None),
           dict(N=1, D=3, F=4, norigins=-1, default=3),
           dict(N=1, D=2, F=3, norigins=-1, stored=True), dict(N=4, D=2, F=2, norigins=-1, species='BABB', stored=True),
           dict(N=5, D=2, F=3, norigins=2, species='BABAA')]
    # blocks of frames
    out += [dict(N=1, D=3, F=4, norigins=-1, size=2, late=1), dict(N=1, D=2, F=6, norigins=-1, size=3, late=1),
            dict(N=1, D=3, F=5, norigins=2, size=2), dict(N=4, D=2, F=4, norigins='1', size=2, species='BABB')]
    if tier == 'thorough':
        out += [dict(N=4, D=3, F=4, norigins=-1), dict(N=6, D=3, F=3, norigins=-1, species='AABBAA'),
                dict(N=2, D=3, F=6, norigins=3)]
    return out


def harness(B, N, D, F, norigins, species=None, default=0, stored=False, size=1, late=0):
    pp = B.pp
    mode = block_steps(B, F, size) if size > 1 else 'sym' if norigins == '1' else 'uniform'
    T = make(B, N=N, D=D, F=F, species=list(species) if species else None, step=mode)
    if stored:
        store_unfolded(B, T)
    times = [T.dt * s if i else T.dt * 0 for i, s in enumerate(T.steps)]
    T.th.block_size = size
    times += [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]
    idx = list(range(N))
    kw = dict(tgrid=times, norigins=norigins)
    if default:
        # from zero to three quarters of the total time
        kw = dict(nsamples=default, norigins=norigins)
    if species:
        c = pp.Partial(pp.NonGaussianParameter, ['A'], T.th, **kw)
        idx = [i for i in idx if species[i] == 'A']
    else:
        c = pp.NonGaussianParameter(T.th, **kw)
    # all the pairs of frames, for the values to be defined
    for i in range(F):
        for j in range(i + 1, F):
            B.assume(msum(dist2(T.u[i][p], T.u[j][p]) for p in idx) > 0)
    c.compute()
    if species:
        c = c.partial['A']
    if default:
        # closest to 0, 3/8 and 3/4 of the largest time, that is steps 0, 9k/8, 9k/4 of 0, k, 2k, 3k
        times = times[:3]
    uses = block_lags(B, T, c.grid, times, F, size, norigins, late)
    want = []
    for use in uses:
        tot = 0
        for i0, i1 in use:
            if i0 == i1:
                continue
            dr2 = [dist2(T.u[i0][p], T.u[i1][p]) for p in idx]
            m2 = msum(dr2) / B.num(len(idx))
            m4 = msum(x * x for x in dr2) / B.num(len(idx))
            tot = tot + B.div(D * m4, (D + 2) * m2 * m2) - 1
        want.append(tot / B.num(len(use)))
    B.claim_eq(c.value, want, 'alpha2')
