"""C04: mean square displacement"""

from ..common import *
from .c10_fskt import block_steps, block_lags, late_pairs, pairs_at, interval

KERNELS = False
BOUNDS = ('2-3 particles in 2 or 3 dimensions, 3-6 frames, arbitrary positive cell sides, positions (displacements between '
          'frames below half a side) and time step, uniform steps k*i (1<=k<=1000) or strictly increasing steps or periodic blocks of 2-3 frames; particles '
          'stored in any periodic image |n|<=1 for folding, or together with unfolded positions')


def configs(tier):
    out = []
    for N, D, F in ((3, 2, 3), (2, 3, 4)):
        out.append(dict(kind='all', N=N, D=D, F=F))
        out.append(dict(kind='first', N=N, D=D, F=F))
    out.append(dict(kind='fraction', N=1, D=2, F=5))
    out.append(dict(kind='species', N=5, D=2, F=3))
    out.append(dict(kind='fold', N=1, D=2, F=3))
    # unfolded positions stored in the trajectory
    out.append(dict(kind='all', N=1, D=2, F=3, stored=True))
    out.append(dict(kind='first', N=3, D=2, F=3, stored=True))
    out.append(dict(kind='species', N=4, D=2, F=3, species='BABB', stored=True))
    out.append(dict(kind='fraction', N=2, D=3, F=4, stored=True))
    # numbers of time origins, other orders of the species
    out.append(dict(kind='two', N=1, D=2, F=5))
    out.append(dict(kind='two', N=1, D=3, F=4))
    out.append(dict(kind='species', N=4, D=2, F=3, species='BABB'))
    out.append(dict(kind='species', N=3, D=2, F=3, species='AAB'))
    # blocks of frames
    out += [dict(kind='all', N=1, D=2, F=4, size=2, late=1), dict(kind='all', N=1, D=2, F=6, size=3, late=1),
            dict(kind='two', N=1, D=2, F=5, size=2), dict(kind='first', N=1, D=2, F=4, size=2), dict(kind='species', N=4, D=2, F=4, species='BABB', size=2)]
    if tier == 'thorough':
        out.append(dict(kind='all', N=4, D=3, F=6))
        out.append(dict(kind='first', N=4, D=3, F=5))
        out.append(dict(kind='species', N=5, D=3, F=4))
        out.append(dict(kind='fold', N=1, D=3, F=3))
        out.append(dict(kind='fold', N=3, D=2, F=2))
    return out


def expected(B, T, origins, idx):
    s = 0
    for i0, i1 in origins:
        for p in idx:
            s = s + dist2(T.u[i0][p], T.u[i1][p])
    return s / B.num(len(origins) * len(idx))


def harness(B, kind, N, D, F, stored=False, species=None, size=1, late=0):
    pp = B.pp
    species = list(species) if species else ['A'] * N
    if kind == 'species' and 'B' not in species:
        species = ['A'] + ['B'] * (N - 2) + ['A']
    mode = block_steps(B, F, size) if size > 1 else 'sym' if kind == 'first' else 'uniform'
    T = make(B, N=N, D=D, F=F, species=species, step=mode, fold='sym' if kind == 'fold' else None)
    if stored:
        store_unfolded(B, T)
    times = [T.dt * s if i else 0 for i, s in enumerate(T.steps)]
    T.th.block_size = size
    times += [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]
    norigins = {'all': -1, 'first': '1', 'fraction': 0.5, 'two': 2, 'species': -1, 'fold': -1}[kind]
    idx = list(range(N))
    c = pp.MeanSquareDisplacement(T.th, tgrid=times, norigins=norigins)
    if kind == 'species':
        idx = [i for i in range(N) if species[i] == 'B']
        c = pp.Partial(pp.MeanSquareDisplacement, ['B'], T.th, tgrid=times, norigins=norigins)
        c.compute()
        c = c.partial['B']
    else:
        c.compute()
    uses = block_lags(B, T, c.grid, times, F, size, norigins, late)
    B.claim_eq(c.value, [expected(B, T, use, idx) for use in uses], 'msd')
