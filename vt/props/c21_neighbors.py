"""C21: neighbor lists and distances of the Fortran module"""

from ..common import *

BOUNDS = ('2 particles anywhere in the cell or 3-4 particles in its inner half, in 2 or 3 dimensions, 1-2 species with arbitrary '
          'cutoff distances, indices from 0 or from 1, arbitrary sides and distances from the surface')
ASSUMPTIONS = ['the arrays of neighbors are large enough', 'pairs in the subset of candidate neighbors are given once']


def configs(tier):
    big = tier == 'thorough'
    out = []
    for k in ('neighbors_list', 'neighbors_full', 'neighbors_subset'):
        out += [dict(k=k, N=2, D=2), dict(k=k, N=3, D=2, inner=True, species='ABA'), dict(k=k, N=2, D=3, offset='F', species='AB')]
        if big:
            out += [dict(k=k, N=4, D=3, inner=True, species='ABAB'), dict(k=k, N=2, D=4, species='BA'), dict(k=k, N=4, D=2, inner=True, species='ABBC')]
    out += [dict(k='neighbors', N=1, D=2), dict(k='neighbors', N=3, D=2, inner=True, species='ABA'),
            dict(k='neighbors', N=1, D=3, species='B'), dict(k='neighbors', N=2, D=3, offset='F', inner=True, species='BA')]
    out += [dict(k='distances_self', N=2, D=2), dict(k='distances_self', N=4, D=2, inner=True), dict(k='distances_self', N=2, D=3),
            dict(k='distances_distinct', N=1, D=3), dict(k='distances_distinct', N=2, D=2, inner=True),
            dict(k='distances_single', N=1, D=3), dict(k='distances_single', N=3, D=2, inner=True)]
    out += [dict(k=k, N=n, D=d) for k in ('on_surface', 'on_surface_c') for n, d in ((3, 2), (2, 3), (1, 1))]
    return out


def separation(B, x, y, L, inner):
    """Squared minimum-image distance"""
    t = 0
    for a, b, l in zip(x, y, L):
        d = a - b
        if not inner:
            if B.decide(B.lt(l, d * 2)):
                d = d - l
            elif B.decide(B.lt(d * 2, -l)):
                d = d + l
        t = t + d * d
    return t


def harness(B, k, N, D, offset='C', species=None, inner=False):
    if B.symbolic:
        B.E.settle = True
    K = B.kernel('compute')
    L = sides(B, D)
    two = k in ('distances_distinct', 'distances_single', 'neighbors')
    M = 1 if k in ('neighbors', 'distances_single') else 2
    x = positions(B, 1, N, D)[0]
    y = positions(B, 1, M, D, 'w')[0] if two else []
    for p in x + y:
        for a, l in zip(p, L):
            B.assume(B.lt(a * (4 if inner else 2), l))
            B.assume(B.lt(-l, a * (4 if inner else 2)))
    box = B.arr(L)
    half = B.arr([l / 2 for l in L])
    pos = B.arr(x).transpose()
    if k.startswith('on_surface'):
        d = B.real('delta', pos=True)
        mask = K.on_surface(pos, box, d) if k == 'on_surface' else K.on_surface_c(B.arr(x), box, d)
        B.claim(len(mask) == N, 'size of the mask')
        for i in range(N):
            close = False
            for a, l in zip(x[i], L):
                if B.decide(B.lt(l - d * 2, a * 2)) or B.decide(B.lt(l - d * 2, -a * 2)):
                    close = True
                    break
            B.claim(bool(mask[i]) == close, 'close to the surface')
        return
    if k.startswith('distances'):
        num = N * (N - 1) // 2 if k == 'distances_self' else N * M
        out = B.arr([B.num(0) / 2 for _ in range(num)])
        if k == 'distances_self':
            kk = K.distances_self(1, N, pos, box, half, out)
            want = [separation(B, x[j], x[i], L, inner) for i, j in pairs(N)]
        elif k == 'distances_distinct':
            kk = K.distances_distinct(1, M, B.arr(y).transpose(), pos, box, half, out)
            want = [separation(B, x[j], y[i], L, inner) for i in range(M) for j in range(N)]
        else:
            kk = K.distances_single(B.arr(y[0]), pos, box, half, out)
            want = [separation(B, x[j], y[0], L, inner) for j in range(N)]
        B.claim(int(kk) == num, 'number of distances')
        for i in range(num):
            B.claim_eq(out[i], B.sqrt(want[i]), 'distance')
        return
    species = species or 'A' * N
    names = sorted(set('AB' + species))
    sp = [names.index(s) for s in species]
    rc = [[B.real('rc_%s%s' % tuple(sorted(a + b)), pos=True) for b in names] for a in names]
    c = -1 if offset == 'C' else 0
    if k == 'neighbors':
        nn = B.iarr(0)
        neigh = B.iarr([0] * N)
        ids = B.iarr([s + 1 + c for s in sp])
        want = []
        for j in range(N):
            t = separation(B, y[0], x[j], L, inner)
            r = rc[1][sp[j]]
            if B.decide(B.lt(t, r * r)):
                want.append(j + 1 + c)
        K.neighbors(offset, box, B.arr(y[0]), pos, ids, B.arr(rc[1]), nn, neigh)
        B.claim(int(nn) == len(want), 'number of neighbors')
        B.claim([int(j) for j in neigh[:len(want)]] == want, 'neighbors')
        return
    want = [[] for _ in range(N)]
    for i, j in pairs(N):
        t = separation(B, x[i], x[j], L, inner)
        r = rc[sp[i]][sp[j]]
        if B.decide(B.lt(t, r * r)):
            want[i].append(j + 1 + c)
            want[j].append(i + 1 + c)
    nn = B.iarr([0] * N)
    neigh = B.iarr([[0] * N for _ in range(N)], order='F')
    ids = B.iarr([s + 1 for s in sp])
    if k == 'neighbors_subset':
        # candidates: each pair in the list of one of the two
        sub = [[] for _ in range(N)]
        for n, (i, j) in enumerate(pairs(N)):
            a, b = (i, j) if n % 2 else (j, i)
            sub[a].append(b + 1 + c)
        K.neighbors_subset(offset, box, pos, B.iarr([(s + [0] * N)[:N] for s in sub], order='F'), B.iarr([len(s) for s in sub]),
                           ids, B.arr(rc), nn, neigh)
    else:
        getattr(K, k)(offset, box, pos, ids, B.arr(rc), nn, neigh)
    B.claim([int(n) for n in nn] == [len(w) for w in want], 'numbers of neighbors')
    for i in range(N):
        B.claim(sorted(int(j) for j in neigh[i][:len(want[i])]) == sorted(want[i]), 'neighbors')
