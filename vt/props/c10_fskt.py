"""C10: self intermediate scattering function"""

from ..common import *

BOUNDS = ('1-5 particles (21 with a single wave vector) in 2-4 dimensions, 1-6 frames, wave vectors j*2pi/L with integers '
          '|j|<=3 in two shells for arbitrary cell sides and positions; uniform steps or periodic blocks; numbers of '
          'origins -1, 1, 2 and one half; tabulation memory large enough or split in blocks of particles')


def configs(tier):
    out = []
    for cls in ('legacy', 'fast'):
        for D in (2, 3, 4):
            out.append(dict(cls=cls, N=D - 1 if D > 2 else 3, D=D, F=2))
        out += [dict(cls=cls, N=1, D=2, F=4), dict(cls=cls, N=1, D=3, F=4, norigins=2),
                dict(cls=cls, N=1, D=2, F=4, norigins=0.5), dict(cls=cls, N=1, D=2, F=4, norigins='1'),
                dict(cls=cls, N=1, D=2, F=4, norigins=1),
                dict(cls=cls, N=1, D=2, F=6, size=2), dict(cls=cls, N=1, D=2, F=4, size=2, norigins='1'),
                dict(cls=cls, N=1, D=2, F=4, size=2, norigins=1),
                dict(cls=cls, N=1, D=2, F=4, size=2, late=1), dict(cls=cls, N=1, D=3, F=6, size=3, late=1),
                dict(cls=cls, N=3, D=2, F=3, normalize=False), dict(cls=cls, N=1, D=2, F=4, normalize=False, zero=False),
                dict(cls=cls, N=1, D=2, F=4, zero=False),
                dict(cls=cls, N=4, D=2, F=2, species='ABAA', normalize=False),
                dict(cls=cls, N=4, D=2, F=3, species='BABB'),
                dict(cls=cls, N=6, D=3, F=2, species='AABABA')]
    out += [dict(cls='fast', N=5, D=2, F=2, lookup_mb=0.001), dict(cls='fast', N=4, D=3, F=2, lookup_mb=0.0015),
            dict(cls='fast', N=5, D=2, F=2, lookup_mb=1e-7), dict(cls='fast', N=5, D=2, F=3, lookup_mb=0.0013, size=1),
            dict(cls='legacy', N=21, D=2, F=2, nk=1), dict(cls='legacy', N=41, D=2, F=2, nk=1)]
    if tier == 'thorough':
        for cls in ('legacy', 'fast'):
            out += [dict(cls=cls, N=3, D=2, F=6), dict(cls=cls, N=4, D=3, F=5), dict(cls=cls, N=3, D=4, F=4),
                    dict(cls=cls, N=3, D=2, F=9, size=3), dict(cls=cls, N=3, D=2, F=8, size=2, norigins=2),
                    dict(cls=cls, N=9, D=2, F=4, species='ABAABABAB'), dict(cls=cls, N=4, D=5, F=2)]
        out += [dict(cls='fast', N=n, D=2, F=2, lookup_mb=m) for n in (6, 7) for m in (0.001, 0.0005, 0.0002)]
        out += [dict(cls='legacy', N=45, D=3, F=2, nk=2)]
    return out


SHELLS4 = [[(1, 0, 0, -1), (0, -1, 0, 0)], [(1, -1, 2, 0), (0, 2, -1, 1)]]


def shells_of(D):
    if D > 3:
        return [[v + (0,) * (D - 5) + ((1,) if D == 5 else ()) for v in s] for s in SHELLS4]
    return {2: SHELLS2, 3: SHELLS3}[D]


def block_steps(B, F, size):
    inner = [0]
    for j in range(1, size):
        inner.append(inner[-1] + B.int('s%d' % j, 1, 50))
    period = inner[-1] + B.int('s%d' % size, 1, 50)
    return [0 if f == 0 else (f // size) * period + inner[f % size] for f in range(F)]


def interval(F, size, n):
    if n == -1:
        return size
    if n in (1, '1'):
        return F
    if n > 1:
        return max(1, int(F // size / n) * size)
    return max(1, int(1 / n)) * size


def setup(B, N, D, F, species, size, nk):
    st = block_steps(B, F, size) if size > 1 else 'uniform'
    pin = None
    T = make(B, N=N, D=D, F=F, species=list(species) if species else None, step=st, unfolded=False, pin=pin)
    T.th.block_size = size
    shells = shells_of(D)
    if nk:
        shells = [s[:nk] for s in shells[1:]]
    T.ks = kvecs(B, T.L, shells)
    return T


def times_of(T, F, zero, size, late=0):
    t = [T.dt * T.steps[j] if j else 0 * T.dt for j in range(0 if zero else 1, F)]
    return t + [T.dt * (T.steps[j] - T.steps[i]) for i, j in late_pairs(F, size, late)]


def late_pairs(F, size, late):
    # time differences from origins within the first block
    return [(i, j) for i in range(1, size) for j in range(i + 1, min(F, size + late))] if late else []


def pairs_at(B, st, x, skip, single):
    ps = [(i, j) for i, j in lags(st) if B.decide(B.eqi(B.num(st[j] - st[i]), x))]
    if single:
        return [p for p in ps if p[0] == 0]
    if not ps:
        return ps
    return [p for p in ps if (p[0] - ps[0][0]) % skip == 0]


def block_lags(B, T, grid, times, F, size, norigins, late):
    """Pairs of frames over which to average at each of the times returned"""
    if late:
        lag = [B.rint(B.div(t, T.dt)) for t in grid]
        want = T.steps[:F] + [T.steps[j] - T.steps[i] for i, j in late_pairs(F, size, late)]
        for w in want:
            B.claim(B.any(*[B.eqi(w, x) for x in lag]), 'requested time is returned')
        for a, b in zip(lag[:-1], lag[1:]):
            B.claim(B.lt(a, b), 'times are sorted and unique')
    else:
        B.claim_eq(grid, times, 'times')
        lag = T.steps[:len(times)]
    skip = interval(F, size, -1 if norigins is None else norigins)
    out = [pairs_at(B, T.steps, x, skip, norigins in (1, '1')) for x in lag]
    for use in out:
        B.claim(len(use) > 0, 'there is a time origin')
    return out


def harness(B, cls, N, D, F, norigins=-1, species=None, normalize=True, zero=True, size=1, lookup_mb=None, nk=0, late=0):
    pp = B.pp
    T = setup(B, N, D, F, species, size, nk)
    C = {'legacy': pp.SelfIntermediateScatteringLegacy, 'fast': pp.SelfIntermediateScatteringFast}[cls]
    kw = {'lookup_mb': lookup_mb} if lookup_mb else {}
    tg = times_of(T, F, zero, size, late)
    if species:
        c = pp.Partial(C, ['A', 'B'], T.th, None, tg, norigins=norigins, normalize=normalize, **kw)
        todo = [(c.partial[x], [i for i in range(N) if species[i] == x], x) for x in 'AB']
    else:
        c = C(T.th, None, tg, norigins=norigins, normalize=normalize, **kw)
        todo = [(c, list(range(N)), '*')]
    for x, _, _ in todo:
        set_kvectors(B, x, T.ks)
    c.compute()
    single = norigins in (1, '1')
    skip = interval(F, size, norigins)
    for p, idx, name in todo:
        B.claim(len(p.grid[0]) == len(T.ks) and len(p.value) == len(T.ks), 'one curve per shell')
        for s, klist in enumerate(T.ks):
            B.claim_eq(p.grid[0][s], mean(B, [knorm(B, k) for k in klist]), 'k')
        lag = [B.rint(B.div(t, T.dt)) for t in p.grid[1]]
        want = [T.steps[j] for j in range(0 if zero or normalize else 1, F)]
        want += [T.steps[j] - T.steps[i] for i, j in late_pairs(F, size, late)]
        for w in want:
            B.claim(B.any(*[B.eqi(w, x) for x in lag]), 'requested time is returned')
        for a, b in zip(lag[:-1], lag[1:]):
            B.claim(B.lt(a, b), 'times are sorted and unique')
        if normalize or zero:
            B.claim(B.eqi(lag[0], 0), 'zero time comes first')
        for it, x in enumerate(lag):
            use = pairs_at(B, T.steps, x, skip, single)
            B.claim(len(use) > 0, 'there is a time origin')
            for s, klist in enumerate(T.ks):
                B.claim(len(p.value[s]) == len(lag), 'one value per time')
                if not use:
                    continue
                v = 0
                for i, j in use:
                    for k in klist:
                        for q in idx:
                            v = v + B.re(plane(B, k, T.u[j][q]) * B.conj(plane(B, k, T.u[i][q])))
                B.claim_eq(p.value[s][it], v / B.num(len(use) * len(klist) * len(idx)), 'F_s(k,t) %s' % name)
