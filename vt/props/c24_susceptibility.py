"""C24: susceptibility of a time correlation function"""

from ..common import *

KERNELS = False
BOUNDS = '1-3 particles in 2 dimensions, 3-6 frames at uniform steps, arbitrary positions'


def configs(tier):
    out = [dict(kind='qst', N=1, F=5, last=3, norigins=-1), dict(kind='qst', N=3, F=5, last=3, norigins=-1),
           dict(kind='msd', N=1, F=6, last=4, norigins=-1), dict(kind='msd', N=3, F=5, last=3, norigins=-1),
           dict(kind='msd', N=1, F=7, last=5, norigins=0.5), dict(kind='msd', N=1, F=5, last=4, norigins=-1)]
    if tier == 'thorough':
        out += [dict(kind='msd', N=3, F=8, last=6, norigins=-1), dict(kind='qst', N=3, F=7, last=5, norigins=-1)]
    return out


def harness(B, kind, N, F, last, norigins):
    pp = B.pp
    T = make(B, N=N, D=2, F=F, step='uniform')
    times = [T.dt * s if i else T.dt * 0 for i, s in enumerate(T.steps)][:last + 1]
    S = B.load('atooms.postprocessing.susceptibility').Susceptibility
    skip = {-1: 1, 0.5: 2}[norigins]
    if kind == 'qst':
        a = B.real('a', pos=True)
        c = S(pp.SelfOverlap, T.th, norigins=norigins, tgrid=times, a=a)

        def f(i, j):
            return msum(B.ind(B.lt(dist2(T.u[i][p], T.u[j][p]), a * a)) for p in range(N)) / B.num(N)
    else:
        c = S(pp.MeanSquareDisplacement, T.th, norigins=norigins, tgrid=times)

        def f(i, j):
            return msum(dist2(T.u[i][p], T.u[j][p]) for p in range(N)) / B.num(N)
    c.compute()
    # origins: the leading fraction of the trajectory equal to the largest time over the total one
    origins = list(range(0, F * last // (F - 1) - skip, skip))
    B.claim(len(origins) > 1, 'more than one time origin')
    times = [t for j, t in enumerate(times) if any(i + j < F for i in origins)]
    B.claim_eq(c.grid, times, 'times')
    B.claim(len(c.value) == len(times), 'one value per time')
    for j, v in enumerate(c.value):
        x = [f(i, i + j) * N for i in origins if i + j < F]
        m = B.num(len(x))
        ave = msum(x) / m
        B.claim_eq(v, msum((y - ave) * (y - ave) for y in x) / m / N, 'variance over the time origins')
