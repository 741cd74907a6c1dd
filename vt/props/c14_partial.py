"""C14: partial correlation functions"""

from ..common import *

BOUNDS = ('4-7 particles of 2 or 3 species in 2 or 3 dimensions, 1-3 frames, arbitrary positions, velocities and cell sides; '
          'one given set of wave vectors')

ONE = ('msd', 'vacf', 'qst', 'alpha2', 'fskt', 'fskt_legacy', 'chi4')
TWO = ('gr', 'gr_legacy', 'sk', 'sk_fast', 'fkt')


def configs(tier):
    out = []
    for k in ('msd', 'vacf', 'fskt', 'fskt_legacy'):
        out += [dict(what=k, species='ABAA', F=3), dict(what=k, species='CABCC', F=2)]
    out += [dict(what='qst', species='ABAA', F=2), dict(what='chi4', species='BABB', F=3), dict(what='alpha2', species='ABAA', F=2),
            dict(what='msd', species='ABAACCC', F=2, only='CA'), dict(what='msd', species='12111', F=2, D=3)]
    out += [dict(what='gr_legacy', species='ABBB', F=1),
            dict(what='gr', species='BAC', F=2, n=1), dict(what='gr', species='2112', F=1, n=1, D=3)]
    out += [dict(what='sk', species='ABBB', F=2), dict(what='sk', species='CABCCBB', F=1, only='CAB'),
            dict(what='sk_fast', species='ABBAAA', F=2, D=3), dict(what='sk', species='ABBBCCC', F=1, only='CB', norigins=1),
            dict(what='sk', species='1222', F=2), dict(what='sk', species='ABBB', F=2, weight=True)]
    out += [dict(what='fkt', species='ABBB', F=2), dict(what='fkt', species='ABBB', F=3, norigins='1'),
            dict(what='fkt', species='CABCCBB', F=2), dict(what='fkt', species='BAABBB', F=2, only='BA', D=3)]
    # a correlation which is not symmetric in the two sets of particles
    out += [dict(what='other', species='ABBB', F=2), dict(what='other', species='CABCCBB', F=1), dict(what='other', species='BAAABBB', F=1, only='BA')]
    if tier == 'thorough':
        out += [dict(what='gr', species='ABBB', F=1)]
        for k in ('msd', 'vacf', 'fskt', 'fskt_legacy', 'sk', 'fkt'):
            out += [dict(what=k, species='CABCBCCAAB', F=3), dict(what=k, species='DABCDD', F=2, D=2)]
        out += [dict(what='qst', species='ABAA', F=3), dict(what='gr_legacy', species='BBBABB', F=1, n=1), dict(what='gr_legacy', species='ABBBCCC', F=1, n=1)]
    return out


def harness(B, what, species, F, D=2, only=None, norigins=-1, n=2, weight=False):
    pp = B.pp
    N = len(species)
    ints = species[0] in '12'
    sp = [int(x) for x in species] if ints else list(species)
    T = make(B, N=N, D=D, F=F, species=sp, step='uniform', velocities=what == 'vacf', mass=weight,
             unfolded=what not in ('gr', 'gr_legacy'), fold='cell' if what in ('gr', 'gr_legacy') else None)
    if only:
        names = [int(x) if ints else x for x in only]
    else:
        names = sorted(set(sp))
    C = {'msd': 'MeanSquareDisplacement', 'vacf': 'VelocityAutocorrelation', 'qst': 'SelfOverlap',
         'alpha2': 'NonGaussianParameter', 'chi4': 'Chi4SelfOverlap', 'fskt': 'SelfIntermediateScatteringFast',
         'fskt_legacy': 'SelfIntermediateScatteringLegacy', 'fkt': 'IntermediateScattering', 'sk': 'StructureFactorLegacy',
         'sk_fast': 'StructureFactorFast', 'gr': 'RadialDistributionFunctionFast',
         'gr_legacy': 'RadialDistributionFunctionLegacy'}.get(what)
    C = asymmetric(B) if what == 'other' else getattr(pp, C)
    tg = [T.dt * s if i else 0 * T.dt for i, s in enumerate(T.steps)]
    kw = dict(norigins=norigins)
    args = []
    if what in ('gr', 'gr_legacy'):
        dr = B.real('dr', pos=True)
        n += what == 'gr'
        for l in T.L:
            B.assume(dr * (2 * n) <= l)
        grid = [dr * (2 * i + 1) / 2 for i in range(max(2, n))]
        args = [grid]
    elif what in ('sk', 'sk_fast'):
        pass
    elif what in ('fskt', 'fskt_legacy', 'fkt'):
        args = [None, tg]
        kw['normalize'] = False
    elif what == 'other':
        args = [[T.dt * 0]]
    else:
        args = [tg]
    if what in ('qst', 'chi4'):
        kw['a'] = B.real('a', pos=True)
    ks = kvecs(B, T.L, {2: SHELLS2, 3: SHELLS3}[D])

    def prepare(c):
        if what in ('sk', 'sk_fast', 'fskt', 'fskt_legacy', 'fkt'):
            set_kvectors(B, c, ks)

    c = pp.Partial(C, names, T.th, *args, **kw)
    for p in c.partial.values():
        prepare(p)
    if weight:
        c.add_weight(field='mass')
    c.compute()
    keys = names if what in ONE else [(a, b) for a in names for b in names]
    B.claim(sorted(c.partial.keys()) == sorted(keys), 'one correlation per species or pair of them')
    # as if each of them was computed by itself with filters
    alone = {}
    for key in keys:
        p = c.partial[key]
        a, b = (key, key) if what in ONE else key
        x = C(T.th, *args, **kw)

        def select(system, name):
            import copy
            s = copy.copy(system)
            s.particle = [q for q in system.particle if q.species == name]
            return s
        if a != b and names.index(a) > names.index(b) and what != 'other':
            a, b = b, a
        x.add_filter(select, a)
        if a != b:
            x.add_filter(select, b)
        prepare(x)
        if weight:
            x.add_weight(field='mass')
        if (a, b) not in alone:
            alone[(a, b)] = x
            x.compute()
        x = alone[(a, b)]
        B.claim_eq(flat(p.grid), flat(x.grid), 'grid of %s' % str(key))
        B.claim_eq(flat(p.value), flat(x.value), 'correlation of %s' % str(key))
    if only and set(only) != set(species) or weight or what in ('alpha2', 'chi4', 'fkt', 'other'):
        return
    # the total correlation is the sum of the partial ones
    t = C(T.th, *args, **kw)
    prepare(t)
    t.compute()
    num = {x: sp.count(x) for x in names}
    tot = flat(t.value)
    vals = {k: flat(c.partial[k].value) for k in keys}
    for k in keys:
        B.claim(len(vals[k]) == len(tot), 'number of values')
    for i, v in enumerate(tot):
        if what in ONE:
            B.claim_eq(v * N, msum(vals[k][i] * num[k] for k in keys), 'sum of partial correlations')
        elif what in ('sk', 'sk_fast'):
            B.claim_eq(v * N, msum(vals[(a, b)][i] * B.sqrt(B.num(num[a] * num[b])) for a, b in keys), 'sum of partial correlations')
        else:
            B.claim_eq(v * N * N, msum(vals[(a, b)][i] * num[a] * num[b] for a, b in keys), 'sum of partial correlations')


def asymmetric(B):
    """Average of the product of the first coordinates of one set and the squares of those of the other"""

    class Other(B.load('atooms.postprocessing.correlation').Correlation):

        nbodies = 2
        symbol = 'o'
        short_name = 'O(t)'
        long_name = 'other'
        phasespace = 'pos'
        _symmetric = False

        def _compute(self):
            tot = 0
            for x, y in zip(self._pos_0, self._pos_1):
                for a in x:
                    for b in y:
                        tot = tot + a[0] * b[0]**2
            self.value = [tot]
    return Other


def flat(x):
    out = []
    for y in x:
        if isinstance(y, (list, tuple)) or hasattr(y, 'ndim') and y.ndim > 0:
            out += flat(y)
        else:
            out.append(y)
    return out
