"""C08: velocity and stress autocorrelation functions"""

from ..common import *
from .c10_fskt import block_steps, block_lags, late_pairs, pairs_at, interval

KERNELS = False
BOUNDS = '1-5 particles in 2 or 3 dimensions, 2-6 frames, uniform, arbitrary increasing or block steps'


def configs(tier):
    out = [dict(kind='vacf', N=3, D=2, F=3, norigins=-1), dict(kind='vacf', N=2, D=3, F=3, norigins=None),
           dict(kind='vacf', N=1, D=2, F=4, norigins='1'), dict(kind='vacf', N=1, D=2, F=5, norigins=0.5),
           dict(kind='vacf', N=1, D=2, F=6, norigins=2),
           dict(kind='vacf', N=5, D=2, F=2, norigins=-1, species='ABAAB'),
           dict(kind='vacf', N=1, D=2, F=6, norigins=-1, default=2),
           dict(kind='sacf', N=2, D=3, F=3, norigins=-1), dict(kind='sacf', N=4, D=3, F=2, norigins=None),
           dict(kind='vacf', N=1, D=2, F=4, norigins=-1, size=2, late=1), dict(kind='vacf', N=1, D=2, F=6, norigins=-1, size=3, late=1),
           dict(kind='vacf', N=1, D=2, F=5, norigins=2, size=2), dict(kind='sacf', N=2, D=3, F=5, norigins=-1, size=2, late=1),
           dict(kind='sacf', N=2, D=3, F=4, norigins=2), dict(kind='sacf', N=2, D=3, F=3, norigins='1')]
    if tier == 'thorough':
        out += [dict(kind='vacf', N=4, D=3, F=6, norigins=-1), dict(kind='sacf', N=4, D=3, F=4, norigins=-1)]
    return out


class Interaction(object):
    pass


def harness(B, kind, N, D, F, norigins, species=None, default=0, size=1, late=0):
    pp = B.pp
    T = make(B, N=N, D=D, F=F, species=list(species) if species else None, velocities=True, mass=kind == 'sacf',
             step=block_steps(B, F, size) if size > 1 else 'sym' if norigins == '1' else 'uniform', unfolded=False)
    times = [T.dt * s if i else T.dt * 0 for i, s in enumerate(T.steps)]
    T.th.block_size = size
    times += [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]
    idx = list(range(N))
    if kind == 'vacf':
        kw = dict(tgrid=times) if not default else dict(tsamples=default)
        if species:
            idx = [i for i in idx if species[i] == 'A']
            c = pp.Partial(pp.VelocityAutocorrelation, ['A'], T.th, norigins=norigins, **kw)
            c.compute()
            c = c.partial['A']
        else:
            c = pp.VelocityAutocorrelation(T.th, norigins=norigins, **kw)
            c.compute()

        def corr(a, b):
            return msum(x * y for p in idx for x, y in zip(T.vel[a][p], T.vel[b][p])) / B.num(len(idx))
    else:
        stress = positions(B, F, 3, 3, 'w')
        for s, w in zip(T.th, stress):
            pass
        systems = []
        for f in range(F):
            T.systems[f].interaction = Interaction()
            T.systems[f].interaction.stress = B.arr(stress[f])
        T.th = trajectory(B, T.systems, T.steps, T.dt)
        T.th.block_size = size
        c = B.load("atooms.postprocessing.sacf").StressAutocorrelation(T.th, times, norigins=norigins)
        c.compute()

        def smk(f, j, k):
            return stress[f][j][k] + msum(T.mass[p] * T.vel[f][p][j] * T.vel[f][p][k] for p in idx)

        def corr(a, b):
            t = msum(smk(a, j, k) * smk(b, j, k) for j, k in pairs(3)) / B.num(3)
            return B.div(t, T.L[0] * T.L[1] * T.L[2])
    if default:
        # the default grid spans a tenth of the total time: 0 and the lag closest to it
        B.claim(len(c.grid) in (1, 2), 'number of times')
        times = times[:len(c.grid)]
    uses = block_lags(B, T, c.grid, times, F, size, norigins, late)
    B.claim(len(c.value) == len(uses), 'one value per time')
    for x, use in zip(c.value, uses):
        B.claim_eq(x, msum(corr(i0, i1) for i0, i1 in use) / B.num(len(use)), 'correlation')
