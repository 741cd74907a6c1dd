"""C27: spectral density"""

from ..common import *
import math

BOUNDS = ('1-4 spheres in 3 dimensions, 1-3 frames, arbitrary positions, radii and cell sides (which may change from frame to frame), '
          'one or two shells of given wave vectors; wave vectors found by the code for cells of given sides')
ASSUMPTIONS = ['the trajectory with the radii is opened through the factory of the underlying library; here it is kept in memory']


def configs(tier):
    out = [dict(N=n, F=f) for n, f in ((1, 1), (2, 1), (1, 2), (4, 2))]
    out += [dict(N=2, F=3, norigins=n) for n in (-1, 1, 2, 0.5)]
    out += [dict(N=2, F=1, same=True), dict(N=2, F=2, nk=1),
            dict(N=1, F=1, pin=[(4, 5, 6)]), dict(N=2, F=2, pin=[(4, 5, 6)] * 2), dict(N=2, F=2, pin=[(4, 5, 6), (5, 4, 4)]), dict(N=1, F=3, pin=[(4, 5, 6), (5, 4, 4), (6, 6, 6)], norigins=2)]
    if tier == 'thorough':
        out += [dict(N=5, F=2, norigins=-1), dict(N=4, F=4, norigins=-1), dict(N=2, F=5, norigins=2)]
    return out


def inshell(sides, k, dk):
    """The wave vectors in a shell, as integers"""
    r = range(-3, 4)
    out = []
    for v in itertools.product(r, r, r):
        n = 2 * math.pi * sum((j / l)**2 for j, l in zip(v, sides))**0.5
        if abs(n - k) < dk:
            out.append(v)
    return out


def harness(B, N, F, norigins=-1, same=False, nk=2, pin=None):
    pp = B.pp
    pin = pin and [tuple(p) for p in pin]
    fac = B.load('atooms.trajectory').Trajectory
    T = make(B, N=N, D=3, F=F, step='uniform', unfolded=False, radius=same, pin=pin[0] if pin else None)
    L = [T.L] * F
    if pin:
        L = [sides(B, 3, p) for p in pin]
    R = [[B.real('R_%d_%d' % (0 if same else f, i), pos=True) for i in range(N)] for f in range(F)]
    systems = [system(B, T.p[f], L[f], radius=R[f]) for f in range(F)]
    th = trajectory(B, systems, T.steps, T.dt)
    old = dict(fac.suffixes)

    def opener(name, mode='r'):
        # positions and cell of the trajectory of radii are not used
        z = B.num(B.q(0))
        return trajectory(B, [system(B, [[z, z, z]] * N, [B.num(B.q(1))] * 3, radius=r) for r in R], T.steps, T.dt)
    fac.suffixes['vtm'] = opener
    try:
        kw = dict(kgrid=[1.5], dk=0.375, nk=100) if pin else {}
        c = pp.SpectralDensity(th, '/radii.vtm', norigins=norigins, **kw)
        if pin:
            ks = [kvecs(B, l, [inshell(p, 1.5, 0.375)]) for p, l in zip(pin, L)]
        else:
            ks = kvecs(B, T.L, [s[:nk] for s in SHELLS3])
            set_kvectors(B, c, ks)
            ks = [ks] * F
        c.compute()
    finally:
        fac.suffixes.clear()
        fac.suffixes.update(old)
    skip = {-1: 1, 2: max(1, F // 2), 1: F, 0.5: 2}[norigins]
    B.claim(len(c.grid) == len(ks[0]) and len(c.value) == len(ks[0]), 'one value per shell')
    V = mean(B, [l[0] * l[1] * l[2] for l in L])
    for s in range(len(ks[0])):
        if not pin or len(set(pin)) == 1:
            B.claim_eq(c.grid[s], mean(B, [knorm(B, k) for k in ks[0][s]]), 'k')
        x = []
        for f in range(0, F, skip):
            for k in ks[f][s]:
                n = knorm(B, k)
                m = [B.div(B.sin(n * r) - n * r * B.cos(n * r), n * n * n) for r in R[f]]
                z = rho(B, k, T.u[f], m) * 4 * B.pi
                x.append(B.re(z * B.conj(z)))
        B.claim_eq(c.value[s], B.div(mean(B, x), V), 'spectral density')
