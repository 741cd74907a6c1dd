"""C02: linked cells"""

from ..common import *

BOUNDS = ('2-3 particles in 2 or 3 dimensions anywhere in the cell, arbitrary sides and cutoff with 1-5 subcells along each side, '
          'periodic or open sides, one or two sets of particles, with and without Newton\'s law, successive cells; '
          'g(r) with 2-3 particles in 2 dimensions and arbitrary (two particles) or given sides (three)')


def configs(tier):
    out = []
    for n in ((4, 3), (3, 5)):
        out += [dict(n=n, N=2), dict(n=n, N=2, newton=False), dict(n=n, N=1, M=1)]
    out += [dict(n=(1, 2), N=3), dict(n=(2, 2), N=2), dict(n=(2, 3), N=2, newton=False), dict(n=(2, 1), N=1, M=2),
            dict(n=(2, 2), N=3, cell0=(0, 0))]
    out += [dict(n=(3, 3), N=2, periodic=(False, False)), dict(n=(4, 3), N=2, periodic=(True, False), newton=False),
            dict(n=(3, 2), N=1, M=1, periodic=(False, False))]
    for cell0 in ((0, 0, 0), (1, 2, 0), (1, 1, 1)):
        out += [dict(n=(3, 4, 3), N=2, cell0=cell0), dict(n=(3, 3, 3), N=1, M=1, cell0=cell0)]
    out += [dict(n=(2, 3, 2), N=2, cell0=(1, 0, 0)), dict(n=(3, 3, 3), N=2, cell0=(0, 1, 2), newton=False),
            dict(n=(3, 2, 3), N=2, cell0=(0, 1, 2), periodic=(True, False, False)),
            dict(n=(2, 3, 2), N=2, cell0=(0, 1, 0), periodic=(False, False, False))]
    # different numbers of subcells along all the sides
    for n in ((1, 3, 2), (3, 2, 1), (2, 1, 3)):
        out += [dict(n=n, N=2, cell0=tuple(x - 1 for x in n), newton=False), dict(n=n, N=2, cell0=tuple(x - 1 for x in n))]
    # one set of linked cells used twice
    out += [dict(n=(3, 2), N=2, cell0=(0, 0), again='box'), dict(n=(3, 3), N=1, M=1, cell0=(0, 1), again='other'),
            dict(n=(3, 3), N=2, cell0=(0, 1), again='same'), dict(n=(3, 2), N=2, again='side'),
            dict(n=(3, 1), N=2, cell0=(0, 0), again='newton'), dict(n=(3, 1), N=2, cell0=(0, 0), newton=False, again='nonewton'),
            dict(n=(3, 1), N=2, cell0=(0, 0), again='two'), dict(n=(3, 1), N=2, cell0=(0, 0), newton=False, again='two'),
            dict(n=(3, 1), N=2, cell0=(0, 0), again='open'), dict(n=(3, 1), N=2, cell0=(0, 0), periodic=(False, True), again='closed')]
    # particles out of the cell
    out += [dict(n=(5, 1), N=2, image=(-1, 0)), dict(n=(5, 1), N=2, image=(1, 0), newton=False), dict(n=(1, 4), N=1, M=1, image=(0, -2)),
            dict(n=(2, 1, 4), N=2, cell0=(0, 0, 0), image=(1, 0, -1))]
    for cell0 in ((0, 0), (3, 0)):
        out += [dict(n=(4, 4), N=3, cell0=cell0, gr=True), dict(n=(4, 4), N=1, M=1, cell0=cell0, gr=True)]
    out += [dict(n=(5, 4), N=3, cell0=(4, 3), gr=True)]
    if tier == 'thorough':
        out += [dict(n=(3, 3), N=3), dict(n=(5, 5), N=2), dict(n=(5, 5), N=2, newton=False), dict(n=(3, 3, 3), N=2),
                dict(n=(3, 4, 3), N=2, newton=False), dict(n=(5, 5), N=3, cell0=(0, 2), gr=True), dict(n=(4, 4), N=1, M=1, gr=True),
                dict(n=(3, 3), N=2, again='box'), dict(n=(1, 1, 1), N=3), dict(n=(2, 2, 2), N=2)]
    return out


def within(B, x, y, s, periodic, n=None, tx=None, ty=None):
    """
    Condition that two particles are closer than the cutoff: x and y are
    positions and s the sides divided by the cutoff
    """
    t, need = 0, []
    if B.symbolic and n:
        # valid for sides larger than n
        for a, b, l, k in zip(tx, ty, s, n):
            for v in (b - a, a - b, b - a + 1, a - b + 1):
                if k > 1:
                    B.assume(B.any(B.lt(v * k, 1), B.le(1, l * v)))
    for a, b, l, p in zip(x, y, s, periodic):
        d = b - a
        if p:
            d = B.ite(B.lt(l, d * 2), d - l, B.ite(B.lt(d * 2, -l), d + l, d))
        t = t + d * d
        need += [B.lt(d, 1), B.lt(-1, d)]
    close = B.lt(t, 1)
    # a component is not larger than the norm
    B.assume(B.any(B.no(close), B.all(*need)))
    return close


class Set(object):
    """Particles in a cell: positions divided by the cutoff are s * t with -1/2 <= t <= 1/2"""

    def __init__(self, B, name, N, cell, where=None, image=None):
        n = cell.n
        self.t = [[B.real('%s_%d_%d' % (name, i, d)) for d in range(len(n))] for i in range(N)]
        for i, x in enumerate(self.t):
            for d in range(len(n)):
                w = where[i] if where is not None and i < len(where) else None
                if w is not None:
                    B.assume(B.le(2 * w[d] - n[d], x[d] * (2 * n[d])))
                    B.assume(B.lt(x[d] * (2 * n[d]), 2 * w[d] + 2 - n[d]))
                else:
                    B.assume(B.le(-1, x[d] * 2))
                    B.assume(B.le(x[d] * 2, 1))
        self.y = [[a * l for a, l in zip(x, cell.s)] for x in self.t]
        self.x = [[a * cell.rcut for a in x] for x in self.y]
        if image:
            # another periodic image of the first particle
            self.x[0] = [a + k * l for a, k, l in zip(self.x[0], image, cell.L)]


class Cell(object):

    def __init__(self, B, name, n, rcut, fixed=False):
        self.n, self.rcut = n, rcut
        if fixed:
            self.s = [B.q(4 * k + d + 1, 4) if B.symbolic else k + (d + 1) / 4 for d, k in enumerate(n)]
            self.L = [l * rcut for l in self.s]
            return
        self.s = [B.real('%s%d' % (name, d), pos=True) for d in range(len(n))]
        for l, k in zip(self.s, n):
            if k > 1:
                B.assume(B.le(k, l))
            B.assume(B.lt(l, k + 1))
        self.L = [l * rcut for l in self.s]


def harness(B, n, N, M=0, newton=True, periodic=None, cell0=None, again=None, gr=False, image=None):
    D = len(n)
    if gr:
        return grf(B, n, N, M, cell0)
    LC = B.load('atooms.postprocessing.linkedcells').LinkedCells
    rcut = B.real('rcut', pos=True)
    lc = LC(rcut)
    cell = Cell(B, 's', n, rcut)
    X = Set(B, 't', N, cell, cell0 and [cell0], image)
    Y = Set(B, 'w', M, cell) if M else None
    per = periodic if periodic is not None else (True,) * D
    kw = {}
    if periodic is not None:
        kw['periodic'] = list(periodic)
    if again == 'box':
        # another cell before
        cell2 = Cell(B, 'z', (2, 3), rcut)
        Z = Set(B, 'v', 2, cell2, [(1, 0)])
        check(B, lc.compute(B.arr(cell2.L), B.arr(Z.x), **kw), Z, None, cell2, per, True, 'before')
    elif again == 'side':
        # a cell that differs along the last direction only
        cell2 = Cell(B, 'z', list(n[:-1]) + [n[-1] + 4], rcut)
        cell2.s[0] = cell.s[0]
        cell2.L[0] = cell.L[0]
        Z = Set(B, 'v', 1, cell2, [(1, 0)])
        lc.compute(B.arr(cell2.L), B.arr(Z.x), **kw)
    elif again in ('newton', 'nonewton'):
        lc.compute(B.arr(cell.L), B.arr(X.x), newton=again != 'newton', **kw)
    elif again == 'two':
        lc.compute(B.arr(cell.L), B.arr(X.x), B.arr(X.x), newton=newton, **kw)
    elif again in ('open', 'closed'):
        lc.compute(B.arr(cell.L), B.arr(X.x), periodic=[again == 'closed'] * D)
    elif again == 'other':
        lc.compute(B.arr(cell.L), B.arr(X.x), **kw)
    elif again == 'same':
        lc.compute(B.arr(cell.L), B.arr(X.x), **kw)
    if M:
        nn = lc.compute(B.arr(cell.L), B.arr(X.x), B.arr(Y.x), newton=newton, **kw)
    else:
        nn = lc.compute(B.arr(cell.L), B.arr(X.x), newton=newton, **kw)
    check(B, nn, X, Y, cell, per, newton, 'neighbors')
    nn = [list(a) for a in nn]
    if again == 'same' or not M and N == 2:
        arr, num = lc.compute(B.arr(cell.L), B.arr(X.x), *([B.arr(Y.x)] if M else []), as_array=True, newton=newton, **kw)
        B.claim([int(k) for k in num] == [len(a) for a in nn], 'numbers of neighbors')
        B.claim([[int(v) for v in a[:len(b)]] for a, b in zip(arr, nn)] == nn, 'array of neighbors')


def check(B, nn, X, Y, cell, per, newton, label):
    N = len(X.t)
    B.claim(len(nn) == N, 'one list per particle')
    nn = [[int(j) for j in a] for a in nn]
    for i, a in enumerate(nn):
        B.claim(len(set(a)) == len(a), label + ': no particle is listed twice')
        B.claim(Y is not None or i not in a, label + ': a particle is not its own neighbor')
    for i, j in ([(i, j) for i in range(N) for j in range(len(Y.t))] if Y is not None else pairs(N)):
        k = int(j in nn[i])
        if Y is None:
            k2 = int(i in nn[j])
            if newton:
                k += k2
                B.claim(k <= 1, label + ': pairs are counted once')
            else:
                B.claim(k == k2, label + ': neighbors of each other')
        if k == 0:
            B.claim(B.no(within(B, X.y[i], (Y or X).y[j], cell.s, per, cell.n, X.t[i], (Y or X).t[j])), label + ': all pairs within the cutoff')


def grf(B, n, N, M, cell0):
    """g(r) computed with linked cells"""
    D = len(n)
    cell = Cell(B, 's', n, B.num(1), fixed=not M)
    X = Set(B, 't', N, cell, cell0 and [cell0, None, tuple(k // 2 for k in n)])
    x, y = X.x, []
    if M:
        y = Set(B, 'w', M, cell).x
    L = cell.L
    sp = 'A' * N + 'B' * M
    pp = B.pp
    th = trajectory(B, [system(B, x + y, L, sp)], [0], 1.0)
    dr = B.q(1, 2) if B.symbolic else 0.5
    # the last bin extends up to one
    c = pp.RadialDistributionFunctionFast(th, [dr * (2 * i + 1) / 2 for i in range(4)], rmax=0.75)
    if M:
        f = B.load('atooms.postprocessing.helpers').filter_species
        c.add_filter(f, 'A')
        c.add_filter(f, 'B')
    c.compute()
    V = 1
    for l in L:
        V = V * l
    edges = [dr * i for i in range(3)]
    vols = shells(B, edges, D)
    if M:
        ps = [(a, b) for a in x for b in y]
    else:
        ps = [(x[i], x[j]) for i, j in pairs(N)]
    for a, b in ps:
        within(B, a, b, L, (True,) * D)
    h = hist(B, [minimage(B, a, b, L) for a, b in ps], edges)
    B.claim(len(c.value) == 2, 'number of bins')
    for k in range(2):
        ideal = B.div(vols[k], V) * (N * M if M else B.num(N * N) / 2)
        B.claim_eq(c.grid[k], (edges[k] + edges[k + 1]) / 2, 'r')
        B.claim_eq(c.value[k] * ideal, h[k], 'g(r)')
