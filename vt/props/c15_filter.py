"""C15: filters by conditions on the particles"""

from ..common import *

BOUNDS = ('3-7 particles in 2 or 3 dimensions, 1-3 frames, arbitrary positions, velocities, masses, radii and cell sides; '
          'conditions on species, masses, radii and positions with comparisons and logical operators')
ASSUMPTIONS = ['every selection has at least one particle and not as many particles as dimensions',
               'two-body correlations of overlapping sets include the pairs of a particle with itself']


def configs(tier):
    out = [dict(what='msd', cond="species == 'A'", N=4, F=2), dict(what='msd', cond='mass > 1.5', N=4, F=2),
           dict(what='vacf', cond="mass > 0.5 and species != 'B'", N=4, F=2), dict(what='qst', cond='radius < 0.25', N=3, F=2, D=1),
           dict(what='vacf', cond="species == 'A' or mass <= 2.0", N=3, F=3, D=1),
           dict(what='fskt', cond="mass >= radius", N=3, F=2, D=1), dict(what='msd', cond="not mass > 1.5", N=3, F=2, D=1)]
    for cls in ('sk', 'sk_fast'):
        D = 2 if cls == 'sk' else 3
        out += [dict(what=cls, cond="species == 'A'", N=4 if D == 2 else 6, F=2, D=D), dict(what=cls, cond="species == 'A', species == 'B'", N=7 if D == 2 else 9, F=1, D=D),
                dict(what=cls, cond="mass > 1.5", N=4, F=1, D=D), dict(what=cls, cond="mass > 1.5, radius < 0.5", N=3, F=1, D=2 if D == 2 else 3)]
    out += [dict(what='sk', cond="position[0] > 0.25", N=3, F=2, D=1 + 1), dict(what='sk', cond="position[0] > 0.25, position[1] < 0.5", N=3, F=1)]
    out += [dict(what='fkt', cond="species == 'A'", N=4, F=2), dict(what='fkt', cond="mass > 1.5, species != 'A'", N=4, F=2)]
    for cls in ('gr', 'gr_legacy'):
        out += [dict(what=cls, cond="species == 'A', species != 'A'", N=4, F=1), dict(what=cls, cond="mass > 1.5, not mass > 1.5", N=3, F=1, D=3),
                dict(what=cls, cond="position[0] > 0.25, not position[0] > 0.25", N=2, F=2, D=3 if cls == 'gr' else 2)]
    out += [dict(what='limits', cond='', N=4, F=1)]
    if tier == 'thorough':
        out += [dict(what=w, cond='mass > radius', N=5, F=3) for w in ('msd', 'vacf', 'fskt')]
        out += [dict(what=w, cond='mass > radius, mass < 1.5', N=5, F=2) for w in ('sk', 'fkt')]
    return out


def test(B, cond, T, f, i):
    """The condition on particle i at frame f"""
    def value(x):
        x = x.strip()
        if x in ("'A'", "'B'"):
            return x[1]
        if x == 'species':
            return T.species[i]
        if x == 'mass':
            return T.mass[i]
        if x == 'radius':
            return T.radius[i]
        if x.startswith('position'):
            return T.u[f][i][int(x[-2])]
        return B.num(B.q(int(float(x) * 4), 4)) if B.symbolic else float(x)
    cond = cond.strip()
    if ' and ' in cond:
        return all([test(B, x, T, f, i) for x in cond.split(' and ')])
    if ' or ' in cond:
        return any([test(B, x, T, f, i) for x in cond.split(' or ')])
    if cond.startswith('not '):
        return not test(B, cond[4:], T, f, i)
    x, op, y = cond.split(' ')
    x, y = value(x), value(y)
    if op == '==':
        return x == y
    if op == '!=':
        return x != y
    if op == '<':
        return B.decide(B.lt(x, y))
    if op == '>':
        return B.decide(B.lt(y, x))
    if op == '<=':
        return B.decide(B.le(x, y))
    if op == '>=':
        return B.decide(B.le(y, x))
    raise ValueError(op)


def harness(B, what, cond, N, F, D=2):
    pp = B.pp
    species = list(('BABB' if D == 2 else 'ABAABBBABA')[:N] if N < 7 else 'ABABABB')
    if what == 'sk_fast':
        species = list('AABABAB'[:N] if N < 7 else 'BABABAAAB'[:N])
    T = make(B, N=N, D=D, F=F, species=species, step='uniform', mass=True, radius=True, velocities=what == 'vacf',
             unfolded=what not in ('gr', 'gr_legacy'), fold='cell' if what in ('gr', 'gr_legacy') else None)
    if what == 'limits':
        return limits(B, T)
    conds = cond.split(',')
    two = what in ('sk', 'sk_fast', 'fkt', 'gr', 'gr_legacy')
    sel = [[[i for i in range(N) if test(B, x, T, f, i)] for f in range(F)] for x in conds]
    if two and len(conds) == 1:
        sel.append([list(range(N))] * F)
    for s in sel:
        for x in s:
            B.assume(len(x) > 0 and len(x) != D)
    C = {'msd': 'MeanSquareDisplacement', 'vacf': 'VelocityAutocorrelation', 'qst': 'SelfOverlap', 'fskt': 'SelfIntermediateScattering',
         'fkt': 'IntermediateScattering', 'sk': 'StructureFactorLegacy', 'sk_fast': 'StructureFactorFast',
         'gr': 'RadialDistributionFunctionFast', 'gr_legacy': 'RadialDistributionFunctionLegacy'}[what]
    C = getattr(pp, C)
    tg = [T.dt * s if i else 0 * T.dt for i, s in enumerate(T.steps)]
    ks = kvecs(B, T.L, {1: [[(1,), (-2,)], [(3,)]], 2: SHELLS2, 3: SHELLS3}[D])
    if what in ('gr', 'gr_legacy'):
        dr = B.real('dr', pos=True)
        for l in T.L:
            B.assume(dr * 4 <= l)
        c = C(T.th, [dr * (2 * i + 1) / 2 for i in range(2)], norigins=-1)
    elif what in ('sk', 'sk_fast'):
        c = C(T.th, norigins=-1)
    elif what in ('fskt', 'fkt'):
        c = C(T.th, None, tg, norigins=-1, normalize=False)
    elif what == 'qst':
        a = B.real('a', pos=True)
        c = C(T.th, tg, a=a, norigins=-1)
    else:
        c = C(T.th, tg, norigins=-1)
    if what in ('sk', 'sk_fast', 'fskt', 'fkt'):
        set_kvectors(B, c, ks)
    keys = [sorted(p.__dict__.keys()) for s in T.systems for p in s.particle]
    r = pp.Filter(c, cond)
    B.claim(r is c, 'the correlation itself is returned')
    c.compute()
    B.claim(keys == [sorted(p.__dict__.keys()) for s in T.systems for p in s.particle], 'particles are not modified')
    B.claim([len(s.particle) for s in T.systems] == [N] * F, 'particles are not removed')
    if what in ('gr', 'gr_legacy'):
        edges = [dr * i for i in range(3)]
        vols = shells(B, edges, D)
        V = msum([1])
        for l in T.L:
            V = V * l
        n0, n1 = (mean(B, [B.num(len(x)) for x in s]) for s in sel)
        tot = [0, 0]
        for f in range(F):
            d2 = [minimage(B, T.u[f][i], T.u[f][j], T.L) for i in sel[0][f] for j in sel[1][f]]
            if what == 'gr_legacy':
                for x in d2:
                    B.assume(B.no(B.eq(x, edges[2] * edges[2])))
            for k, h in enumerate(hist(B, d2, edges)):
                tot[k] = tot[k] + h
        B.claim(len(c.value) == 2 - (what == 'gr'), 'number of bins')
        for k in range(len(c.value)):
            B.claim_eq(c.value[k] * B.div(vols[k], V) * n0 * n1, tot[k] / B.num(F), 'g(r)')
    elif what in ('sk', 'sk_fast'):
        n0, n1 = (mean(B, [B.num(len(x)) for x in s]) for s in sel)
        for s, klist in enumerate(ks):
            v = []
            for f in range(F):
                for k in klist:
                    v.append(B.re(rho(B, k, [T.u[f][i] for i in sel[0][f]]) * B.conj(rho(B, k, [T.u[f][i] for i in sel[1][f]]))))
            B.claim_eq(c.value[s] * B.sqrt(n0 * n1), mean(B, v), 'S(k)')
    elif what in ('fskt', 'fkt'):
        for s, klist in enumerate(ks):
            for j in range(F):
                v = []
                for i0 in range(F - j):
                    for k in klist:
                        a, b = [[plane(B, k, T.u[f][i]) for i in x[f]] for f, x in ((i0 + j, sel[0]), (i0, sel[-1]))]
                        if what == 'fskt':
                            v.append(mean(B, [B.re(x * B.conj(y)) for x, y in zip(a, b)]))
                        else:
                            v.append(B.re(msum(a) * B.conj(msum(b))))
                B.claim_eq(c.value[s][j], mean(B, v), 'F(k,t)')
    else:
        for j in range(F):
            v = []
            for i0 in range(F - j):
                for i in sel[0][0]:
                    if what == 'vacf':
                        v.append(msum(x * y for x, y in zip(T.vel[i0][i], T.vel[i0 + j][i])))
                    else:
                        d = dist2(T.u[i0][i], T.u[i0 + j][i])
                        v.append(d if what == 'msd' else B.ind(B.lt(d, a * a)))
            B.claim_eq(c.value[j], mean(B, v), 'correlation')


def limits(B, T):
    """There cannot be more conditions than bodies"""
    pp = B.pp
    f = B.load('atooms.postprocessing.helpers').filter_species
    one = pp.MeanSquareDisplacement(T.th, [0.0 * T.dt], norigins=-1)
    pp.Filter(one, "species == 'A'")
    B.claim(B.raises(lambda: pp.Filter(one, 'mass > 1.0'), ValueError), 'two conditions on a one-body correlation')
    B.claim(B.raises(lambda: one.add_filter(f, 'A'), ValueError), 'two filters on a one-body correlation')
    two = pp.StructureFactor(T.th, norigins=-1)
    B.claim(B.raises(lambda: pp.Filter(two, "species == 'A',species == 'A',species == 'B'"), ValueError), 'three conditions')
    two = pp.StructureFactor(T.th, norigins=-1)
    two.add_filter(f, 'A')
    two.add_filter(f, 'B')
    B.claim(B.raises(lambda: two.add_filter(f, 'A'), ValueError), 'three filters on a two-body correlation')
    s = f(T.systems[0], 'A')
    B.claim([p.species for p in s.particle] == [x for x in T.species if x == 'A'], 'particles of a species')
    B.claim([p is q for p, q in zip(s.particle, [q for q in T.systems[0].particle if q.species == 'A'])] == [True] * len(s.particle),
            'the particles themselves')
    s = f(T.systems[0], None)
    B.claim(len(s.particle) == T.N, 'no species: all particles')
    s = f(T.systems[0], 'C')
    B.claim(len(s.particle) == 0 and len(T.systems[0].particle) == T.N, 'no particle of a species')
