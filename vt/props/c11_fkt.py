"""C11: coherent intermediate scattering function"""

from ..common import *
from .c10_fskt import setup, times_of, late_pairs, pairs_at, interval

KERNELS = False
BOUNDS = ('1-5 particles in 2-4 dimensions, 1-6 frames, wave vectors j*2pi/L with integers |j|<=3 in two shells for arbitrary '
          'cell sides and positions; uniform steps or periodic blocks; numbers of origins -1, 1, 2 and one half')
ASSUMPTIONS = ['normalized values: the value at zero time is at least 1/1000']


def configs(tier):
    out = []
    for D in (2, 3, 4):
        out += [dict(N=3 if D == 2 else 2, D=D, F=2, normalize=False), dict(N=1, D=D, F=3, normalize=False)]
    out += [dict(N=1, D=2, F=4, norigins=2), dict(N=1, D=2, F=4, norigins=0.5), dict(N=1, D=2, F=4, norigins='1'),
            dict(N=3, D=2, F=3, norigins=1, normalize=False), dict(N=1, D=2, F=6, size=2, normalize=False),
            dict(N=1, D=2, F=4, size=2, late=1, normalize=False), dict(N=1, D=2, F=6, size=3, late=1),
            dict(N=1, D=2, F=4, size=2, norigins='1'), dict(N=3, D=2, F=2), dict(N=3, D=2, F=3, zero=False),
            dict(N=2, D=3, F=2), dict(N=3, D=2, F=3, zero=False, normalize=False),
            dict(N=4, D=2, F=2, species='BABB', normalize=False), dict(N=5, D=3, F=2, species='ABBBB', normalize=False),
            dict(N=5, D=4, F=2, species='ABABA', normalize=False), dict(N=6, D=2, F=2, species='ABABAB', norigins='1', normalize=False),
            dict(N=4, D=2, F=3, species='ABBB', normalize=False)]
    if tier == 'thorough':
        out += [dict(N=3, D=2, F=6, normalize=False), dict(N=4, D=3, F=4, normalize=False),
                dict(N=3, D=2, F=9, size=3, normalize=False), dict(N=3, D=2, F=8, size=2, norigins=2, normalize=False),
                dict(N=9, D=2, F=3, species='ABAABABAB', normalize=False), dict(N=4, D=5, F=2, normalize=False),
                dict(N=4, D=3, F=3)]
    return out


def harness(B, N, D, F, norigins=-1, species=None, normalize=True, zero=True, size=1, late=0):
    pp = B.pp
    T = setup(B, N, D, F, species, size, 0)
    tg = times_of(T, F, zero, size, late)
    idx = {'*': range(N)}
    if species:
        c = pp.Partial(pp.IntermediateScattering, ['A', 'B'], T.th, None, tg, norigins=norigins, normalize=normalize)
        for x in 'AB':
            idx[x] = [i for i in range(N) if species[i] == x]
        todo = [(c.partial[x], x[0], x[1]) for x in [('A', 'A'), ('A', 'B'), ('B', 'B'), ('B', 'A')]]
    else:
        c = pp.IntermediateScattering(T.th, None, tg, norigins=norigins, normalize=normalize)
        todo = [(c, '*', '*')]
    for x, _, _ in todo:
        set_kvectors(B, x, T.ks)
    if normalize:
        for klist in T.ks:
            for f in range(F):
                for k in klist:
                    B.assume(B.le(B.q(1, 1000), abs2(B, rho(B, k, T.u[f]))))
    c.compute()
    single = norigins in (1, '1')
    skip = interval(F, size, norigins)
    for p, a, b in todo:
        if (a, b) == ('B', 'A'):
            a, b = b, a
        B.claim(len(p.grid[0]) == len(T.ks) and len(p.value) == len(T.ks), 'one curve per shell')
        for s, klist in enumerate(T.ks):
            B.claim_eq(p.grid[0][s], mean(B, [knorm(B, k) for k in klist]), 'k')
        lag = [B.rint(B.div(t, T.dt)) for t in p.grid[1]]
        want = [T.steps[j] for j in range(0 if zero or normalize else 1, F)]
        want += [T.steps[j] - T.steps[i] for i, j in late_pairs(F, size, late)]
        for w in want:
            B.claim(B.any(*[B.eqi(w, x) for x in lag]), 'requested time is returned')
        for x, y in zip(lag[:-1], lag[1:]):
            B.claim(B.lt(x, y), 'times are sorted and unique')
        if normalize or zero:
            B.claim(B.eqi(lag[0], 0), 'zero time comes first')
        for s, klist in enumerate(T.ks):
            v0 = None
            for it, x in enumerate(lag):
                use = pairs_at(B, T.steps, x, skip, single)
                B.claim(len(use) > 0, 'there is a time origin')
                B.claim(len(p.value[s]) == len(lag), 'one value per time')
                if not use:
                    continue
                v = 0
                for i, j in use:
                    for k in klist:
                        v = v + B.re(rho(B, k, [T.u[j][q] for q in idx[a]]) * B.conj(rho(B, k, [T.u[i][q] for q in idx[b]])))
                v = v / B.num(len(use) * len(klist))
                if not normalize:
                    B.claim_eq(p.value[s][it], v, 'F(k,t) %s-%s' % (a, b))
                else:
                    v0 = v if it == 0 else v0
                    B.claim_eq(p.value[s][it], B.div(v, v0), 'normalized F(k,t) %s-%s' % (a, b))
