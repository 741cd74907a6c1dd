"""C12: grid of wave vectors"""

from ..common import *

KERNELS = False
BOUNDS = ('cells in 2 and 3 dimensions whose smallest wave vectors are 1 or 1/2, 1, 2 along the axes; 1-3 requested wave numbers '
          '(arbitrary reals up to 3.2 in 2 and 2.2 in 3 dimensions, in any order), arbitrary widths up to one half; at most '
          '3 increases of the width; arbitrary sides for given wave vectors with integers up to 4')
ASSUMPTIONS = ['shells with grown widths: only the first shell of the grid']


def configs(tier):
    out = [dict(kind='auto', side=(1, 1), n=1, nk=3), dict(kind='auto', side=(1, 1), n=1, nk=100, kmax=(21, 10)),
           dict(kind='auto', side=(1, 2), n=1, nk=2), dict(kind='auto', side=(2, 1), n=1, nk=100),
           dict(kind='auto', side=(1, 1), n=2, nk=3), dict(kind='auto', side=(1, 2), n=2, nk=5, kmax=(6, 5), dkmax=(1, 8)),
           dict(kind='auto', side=(1, 1, 1), n=1, nk=4), dict(kind='auto', side=(1, 2, 1), n=1, nk=6, kmax=(6, 5)),
           dict(kind='negative', side=(1, 2), n=1, nk=3, kmax=(6, 5)), dict(kind='negative', side=(1, 1, 2), n=1, nk=3, kmax=(6, 5), dkmax=(1, 10)),
           dict(kind='grow', side=(1, 1), n=1, nk=3, kmax=(5, 4)), dict(kind='grow', side=(1, 2), n=1, nk=100, kmax=(6, 5)),
           dict(kind='grow', side=(1, 1), n=2, nk=100, kmax=(3, 1), dkmax=(1, 5), gi=1, req=[((9, 10), (11, 10)), ((49, 20), (11, 4))]),
           dict(kind='grow', side=(1, 2), n=2, nk=2, kmax=(2, 1), dkmax=(1, 16), gi=1, req=[((15, 16), (17, 16)), ((25, 16), (27, 16))]),
           dict(kind='grow', side=(1, 1), n=2, nk=100, kmax=(3, 1), dkmax=(1, 5), req=[((6, 10), (7, 10)), ((19, 10), (21, 10))]),
           dict(kind='range', side=(1, 1), n=3, nk=2, kmin=(1, 1), kmax=(13, 8), dkmax=(1, 2)), dict(kind='range', side=(1, 2), n=3, nk=2, kmin=(-1, 1), kmax=(13, 8), dkmax=(1, 2)),
           dict(kind='range', side=(1, 1, 1), n=2, nk=4, kmin=(-1, 1), kmax=(2, 1), dkmax=(1, 2))]
    for cls in ('sk', 'fskt', 'fkt'):
        out += [dict(kind='partial', side=(1, 1), n=1, nk=2, cls=cls, kmax=(5, 4)),
                dict(kind='auto', side=(1, 2), n=1, nk=2, cls=cls)]
    for D in (2, 3, 4):
        out += [dict(kind='given', D=D, sign=s) for s in (0, 1, -1)]
    if tier == 'thorough':
        out += [dict(kind='auto', side=(1, 2), n=3, nk=4, kmax=(3, 2), dkmax=(1, 8)), dict(kind='auto', side=(1, 1), n=2, nk=4, kmax=(21, 5)),
                dict(kind='auto', side=(2, 1, 1), n=2, nk=6, kmax=(3, 2), dkmax=(1, 8)), dict(kind='auto', side=(3, 1), n=2, nk=3),
                dict(kind='auto', side=(1, 3), n=2, nk=3)]
    return out


def allowed(B, k0, bound):
    """Wave vectors of the cell with norms up to `bound` (a number)"""
    out = []
    for j in itertools.product(*[range(-int(bound / k) - 1, int(bound / k) + 2) for k in k0]):
        n2 = sum((k * x)**2 for k, x in zip(k0, j))
        if n2 <= bound**2:
            out.append((n2, j))
    return out


def close(B, a, k, d):
    return B.all(B.lt(a - k, d), B.lt(k - a, d))


def given(B, D, sign):
    """Wave vectors set by the user"""
    base = {2: [[(1, 0), (2, -3), (0, 4)], [(-3, 1), (2, 2)]],
            3: [[(1, 0, 0), (2, -3, 1)], [(0, 4, 1), (-2, 2, 0), (0, 0, -1)]],
            4: [[(1, 0, 0, 2)], [(0, -2, 1, 3), (0, 0, 1, 0)]]}[D]
    if sign:
        base = [[tuple(sign * abs(x) for x in v) for v in s] for s in base]
    N = 3 if D == 2 else 2
    T = make(B, N=N, D=D, F=1, step='uniform', unfolded=False)
    pp = B.pp
    c = pp.StructureFactorLegacy(T.th)
    ks = kvecs(B, T.L, base)
    set_kvectors(B, c, ks)

    def same(when):
        back = c.kvectors
        B.claim([len(s) for s in back] == [len(s) for s in ks], 'number of wave vectors ' + when)
        for s, t in zip(back, ks):
            for v, w in zip(s, t):
                B.claim_eq(list(v), w, 'wave vectors ' + when)
        for s, t in zip(c.kgrid, ks):
            B.claim_eq(s, mean(B, [knorm(B, k) for k in t]), 'wave numbers ' + when)
    same('after setting them')
    g, v = c.compute()
    same('after the calculation')
    B.claim_eq(list(g), list(c.kgrid), 'grid returned')
    for x, klist in zip(v, ks):
        B.claim_eq(x * N, mean(B, [abs2(B, rho(B, k, T.u[0])) for k in klist]), 'structure factor')


def harness(B, kind, side=None, n=1, nk=1, kmax=(8, 5), dkmax=(1, 5), kmin=None, cls='sk', D=0, sign=0, dkfix=None, gi=0, req=None):
    if kind == 'given':
        return given(B, D, sign)
    pp = B.pp
    D = len(side)
    # k0 is 1 / side
    k0 = [1.0 / s for s in side]
    q0 = [B.q(1, s) for s in side]
    N = 1 if kind != 'partial' else 4
    species = ['A', 'B', 'B', 'B'] if kind == 'partial' else None
    if kind == 'partial' and D == 3:
        raise ValueError
    pos = [[[0.0] * D for i in range(N)]]
    L = [2 * B.pi * s for s in side]
    th = trajectory(B, [system(B, p, L, species) for p in pos], [0], 1.0)
    kmax = B.q(*kmax)
    if dkfix:
        dk = B.num(B.q(*dkfix))
    else:
        dk = B.real('dk', pos=True)
        B.assume(B.le(dk, B.q(*dkmax)))
    kw = dict(nk=nk, dk=dk)
    top = kmax + B.q(*dkmax)
    vecs = allowed(B, k0, float(top) + 1)
    norm = {n2: B.sqrt(B.num(B.q(int(round(n2 * 144)), 144))) for n2 in set(x[0] for x in vecs)}
    if kind == 'range':
        kw.update(kmin=float(kmin[0]), kmax=float(kmax), ksamples=n)
        lo = min(q0) if kmin[0] < 0 else B.q(*kmin)
        want = [lo + (kmax - lo) * i / (n - 1) for i in range(n)]
        grid = None
        B.assume(B.le(B.q(1, 3), dk))
    else:
        bounds, req = req, [B.real('k%d' % i, nonneg=True) for i in range(n)]
        for x, (lo, hi) in zip(req, bounds or []):
            B.assume(B.all(B.le(B.q(*lo), x), B.le(x, B.q(*hi))))
        if kind == 'negative':
            req = [B.num(B.q(-1))] + req
        for x in req:
            B.assume(B.le(x, kmax))
        for i, x in enumerate(req):
            for y in req[:i]:
                # distinct wave numbers
                B.assume(B.any(B.lt(x + B.q(1, 100), y), B.lt(y + B.q(1, 100), x)))
        grid = list(req)
        want = sorted_(B, req)
        if kind == 'negative':
            want[0] = min(q0)
            B.assume(B.lt(want[0], want[1]))
    # grown widths
    grown = [dk] * len(want)
    for i, k in enumerate(want):
        some = [close(B, norm[m], k, dk) for m in sorted(norm)]
        if kind == 'grow' and i == gi:
            B.assume(B.no(B.any(*some)))
            for j in range(1, 5):
                grown[i] = grown[i] * B.q(6, 5)
                if j == 4:
                    B.assume(False)
                if B.decide(B.any(*[close(B, norm[m], k, grown[i]) for m in sorted(norm)])):
                    break
        else:
            # no vector is taken by an earlier shell only
            B.assume(B.any(*[B.all(c, *[B.no(close(B, norm[m], k2, d2)) for k2, d2 in zip(want[:i], grown)])
                             for m, c in zip(sorted(norm), some)]))
    given_grid = list(grid) if grid is not None else None
    C = {'sk': pp.StructureFactorLegacy, 'fskt': pp.SelfIntermediateScatteringLegacy, 'fkt': pp.IntermediateScattering}[cls]
    args = [] if cls == 'sk' else [[0.0]]
    if cls != 'sk':
        kw['normalize'] = False
    if kind == 'partial':
        P = pp.Partial(C, ['A', 'B'], th, grid, *args, **kw)
        P.compute()
        todo = [P.partial[x] for x in (['A', 'B'] if cls == 'fskt' else [('A', 'A'), ('A', 'B'), ('B', 'B')])]
    else:
        c = C(th, grid, *args, **kw)
        g, v = c.compute()
        B.claim(g is c.grid and v is c.value, 'compute returns grid and values')
        todo = [c]
    if grid is not None:
        B.claim_eq(grid, given_grid, 'the list of wave numbers given is not changed')
    first = None
    for c in todo:
        got = c.kvectors
        B.claim(len(got) == len(want), 'one shell per wave number')
        ints = [[tuple(int(round(x / k)) for x, k in zip(v, q0)) for v in s] for s in got]
        for s, v in zip(got, ints):
            for a, b in zip(s, v):
                B.claim_eq(list(a), [q * x for q, x in zip(q0, b)], 'allowed wave vectors')
        if first is None:
            first = ints
        B.claim(ints == first, 'the same wave vectors for all species')
        kg = c.grid if cls == 'sk' else c.grid[0]
        taken = []
        for i, (k, s) in enumerate(zip(want, ints)):
            B.claim(len(set(s)) == len(s), 'wave vectors are distinct')
            ns = [norm[sum((q * x)**2 for q, x in zip(k0, v))] for v in s]
            for x in ns:
                B.claim(close(B, x, k, grown[i]), 'norm within dk of the wave number')
            B.claim_eq(kg[i], mean(B, ns), 'wave number is the average norm')
            # all the allowed vectors which are close enough, up to nk
            here = [B.all(close(B, norm[m], k, grown[i]),
                          *[B.no(close(B, norm[m], k2, d2)) for k2, d2 in zip(want[:i], grown)])
                    for m, _ in vecs]
            if kind != 'grow' or i == gi or gi:
                cnt = msum(B.ind(x) for x in here)
                B.claim(B.any(B.eqi(cnt, len(s)) if len(s) < nk else B.le(nk, cnt)), 'number of wave vectors')
                B.claim(len(s) <= nk, 'at most nk wave vectors')


def sorted_(B, xs):
    """Sort, branching on comparisons"""
    out = []
    for x in xs:
        i = 0
        while i < len(out) and B.decide(B.lt(out[i], x)):
            i += 1
        out.insert(i, x)
    return out
