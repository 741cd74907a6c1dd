"""Building blocks shared by the harnesses: systems, trajectories, oracles"""

import itertools


class Traj(object):
    pass


def sides(B, D, pin=None):
    """Sides of the cell: arbitrary positive numbers, or the given integers"""
    if pin is not None:
        return [B.num(B.q(x)) if B.symbolic else float(x) for x in pin]
    return [B.real('L%d' % d, pos=True) for d in range(D)]


def steps(B, F, mode='sym', gap=1000):
    """Strictly increasing time steps starting from zero"""
    if isinstance(mode, (list, tuple)):
        return list(mode)
    if mode == 'uniform':
        k = B.int('k', 1, gap)
        return [k * i if i else 0 for i in range(F)]
    st = [0]
    for f in range(1, F):
        st.append(st[-1] + B.int('k%d' % f, 1, gap))
    return st


def positions(B, F, N, D, name='u'):
    return [[[B.real('%s_%d_%d_%d' % (name, f, i, d)) for d in range(D)] for i in range(N)] for f in range(F)]


def inside(B, pos, L):
    """The positions are in the cell centred at the origin"""
    for x in pos:
        for d in range(len(L)):
            B.assume(x[d] * 2 < L[d])
            B.assume(x[d] * 2 > -L[d])


def small_moves(B, u, L):
    """No coordinate changes by half a side or more between frames"""
    for a, b in zip(u[:-1], u[1:]):
        for x, y in zip(a, b):
            for d in range(len(L)):
                B.assume((y[d] - x[d]) * 2 < L[d])
                B.assume((y[d] - x[d]) * 2 > -L[d])


def system(B, pos, L, species=None, vel=None, mass=None, radius=None, cell=True):
    S = B.load('atooms.system')
    s = S.System()
    s.particle = []
    for i, x in enumerate(pos):
        kw = {'position': B.arr(x)}
        if species is not None:
            kw['species'] = species[i]
        if vel is not None:
            kw['velocity'] = B.arr(vel[i])
        if mass is not None:
            kw['mass'] = mass[i]
        if radius is not None:
            kw['radius'] = radius[i]
        s.particle.append(S.Particle(**kw))
    if cell and L is not None:
        s.cell = S.Cell(B.arr(L))
    return s


def trajectory(B, systems, steps, timestep=None):
    R = B.load('atooms.trajectory.ram')
    th = R.TrajectoryRam()
    for s, t in zip(systems, steps):
        th.write(s, t)
    if timestep is not None:
        th.timestep = timestep
    return th


def make(B, N=2, D=2, F=3, species=None, velocities=False, mass=False, radius=False, step='sym', fold=None,
         pin=None, unfolded=True, dt=True, gap=1000, images=1, cells=None):
    """
    A trajectory of N particles in D dimensions over F frames.  `unfolded`:
    displacements between frames below half a side; `fold`: positions stored
    are u - n L with arbitrary integers n (periodic images); `cells`: sides
    of the cell in each frame.
    """
    T = Traj()
    T.N, T.D, T.F = N, D, F
    T.species = species
    T.L = cells[0] if cells else sides(B, D, pin)
    T.u = positions(B, F, N, D)
    if unfolded:
        small_moves(B, T.u, T.L)
    T.p = T.u
    if fold == 'sym':
        # arbitrary periodic images after the first frame
        T.p = [[[T.u[f][i][d] - (T.L[d] * B.int('n_%d_%d_%d' % (f, i, d), -images, images) if f else 0)
                 for d in range(D)] for i in range(N)] for f in range(F)]
    elif fold == 'cell':
        for f in range(F):
            inside(B, T.u[f], T.L)
    T.vel = positions(B, F, N, D, 'v') if velocities else None
    T.mass = [B.real('m%d' % i, pos=True) for i in range(N)] if mass else None
    T.radius = [B.real('r%d' % i, pos=True) for i in range(N)] if radius else None
    T.steps = steps(B, F, step, gap)
    T.dt = B.real('dt', pos=True) if dt is True else dt
    per = species if species and isinstance(species[0], list) else [species] * F     # species may change
    T.systems = [system(B, T.p[f], cells[f] if cells else T.L, per[f], T.vel[f] if T.vel else None, T.mass, T.radius) for f in range(F)]
    T.th = trajectory(B, T.systems, T.steps, T.dt)
    return T


def store_unfolded(B, T):
    """Positions that are not a continuous path, together with unfolded ones stored in the trajectory"""
    T.u = positions(B, T.F, T.N, T.D, 'w')
    for f in range(T.F):
        for i in range(T.N):
            T.systems[f].particle[i].position_unfolded = B.arr(T.u[f][i])
    T.th = trajectory(B, T.systems, T.steps, T.dt)


def letters(species, F):
    """Species of the particles (in each frame) from strings"""
    if not species:
        return None
    return list(species) if isinstance(species, str) else [list(x) for x in species]


def select(species, F, name):
    """Indices of the particles of a species in each frame"""
    per = [species] * F if isinstance(species, str) else species
    return [[i for i, x in enumerate(y) if x == name] for y in per]


def lags(st):
    """All (i, j) with i <= j"""
    return [(i, j) for i in range(len(st)) for j in range(i, len(st))]


def msum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def sq(x):
    return x * x


def dist2(a, b):
    return msum((y - x) * (y - x) for x, y in zip(a, b))


def minimage(B, a, b, L):
    """Squared minimum-image distance, for |b - a| < 3 L / 2"""
    t = 0
    for x, y, l in zip(a, b, L):
        d = y - x
        d = B.ite(B.lt(l, d * 2), d - l, B.ite(B.lt(d * 2, -l), d + l, d))
        t = t + d * d
    return t


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def shells(B, edges, D):
    """Volumes of spherical shells"""
    if D == 2:
        return [B.pi * (b * b - a * a) for a, b in zip(edges[:-1], edges[1:])]
    if D == 3:
        return [B.pi * B.q(4, 3) * (b * b * b - a * a * a) for a, b in zip(edges[:-1], edges[1:])]
    if D == 1:
        return [2 * (b - a) for a, b in zip(edges[:-1], edges[1:])]
    if D == 4:
        return [B.pi * B.pi * B.q(1, 2) * (b * b * b * b - a * a * a * a) for a, b in zip(edges[:-1], edges[1:])]
    if D == 5:
        return [B.pi * B.pi * B.q(8, 15) * (b * b * b * b * b - a * a * a * a * a)
                for a, b in zip(edges[:-1], edges[1:])]
    raise ValueError(D)


def hist(B, d2, edges):
    """Number of squared distances in [a, b) for consecutive edges"""
    out = []
    for a, b in zip(edges[:-1], edges[1:]):
        out.append(msum(B.ind(B.all(B.le(a * a, x), B.lt(x, b * b))) for x in d2))
    return out


def isum(xs):
    return msum(xs)


ASSUMPTIONS = [
    'numbers are exact reals and integers: floating-point rounding and overflow are outside the claim',
    'numpy and the file-format layer are modelled by stand-ins with their documented semantics; samples of explored '
    'paths are replayed on the real package to validate them',
    'Fortran kernels are executed from the GIMPLE gfortran produces from the current source',
]


def kvecs(B, L, jvecs):
    """Allowed wave vectors j * 2 pi / L as lists of numbers"""
    return [[[B.div(2 * B.pi * j, l) for j, l in zip(v, L)] for v in shell] for shell in jvecs]


def set_kvectors(B, c, ks):
    """Hand the wave vectors to a correlation function"""
    c.kvectors = [[B.arr(v) for v in shell] for shell in ks]


def plane(B, k, x):
    """exp(i k.x)"""
    return B.cis(msum(a * b for a, b in zip(k, x)))


def rho(B, k, xs, w=None):
    return msum(plane(B, k, x) * (w[i] if w is not None else 1) for i, x in enumerate(xs))


def knorm(B, k):
    return B.sqrt(msum(a * a for a in k))


def mean(B, xs):
    xs = list(xs)
    return msum(xs) / B.num(len(xs))


def abs2(B, z):
    return B.re(z * B.conj(z))


SHELLS3 = [[(1, 0, 0), (0, -1, 0)], [(1, -1, 2), (0, 2, -1), (-2, 0, 0)]]
SHELLS2 = [[(1, 0), (0, -1)], [(1, -2), (-3, 1)]]
