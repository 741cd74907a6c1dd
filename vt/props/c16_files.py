"""C16: files with the results"""

from ..common import *
import os
import shutil
import tempfile

BOUNDS = ('2-7 particles in 2 or 3 dimensions, 2-4 frames, arbitrary positions, velocities, cells and steps; the files themselves are '
          'written to and read from a scratch directory')
ASSUMPTIONS = ['numbers written with six or more significant digits are exact, fewer digits or decimals are not',
               'functions of two variables are not read back (the code warns that it cannot)']


def configs(tier):
    big = tier == 'thorough'
    out = []
    for c, F in (('msd', 3), ('msd', 2), ('msd', 1), ('vacf', 3), ('qst', 2), ('qt', 2), ('chi4', 4), ('alpha2', 2), ('gr', 2), ('sk', 2), ('sk_fast', 1)):
        out.append(dict(cls=c, F=F))
    for c in ('fskt', 'fskt_legacy', 'fkt'):
        out += [dict(cls=c, F=3), dict(cls=c, F=2, nk=1), dict(cls=c, F=2, norm=False)]
    out += [dict(cls='msd', F=3, partial=True), dict(cls='sk', F=2, partial=True), dict(cls='fkt', F=2, partial=True, nk=1),
            dict(cls='fskt', F=2, partial=True), dict(cls='gr_legacy', F=1, partial=True)]
    out += [dict(cls='msd', F=2, path=p) for p in ('{symbol}_{tag}.txt', 'sub/dir/{short_name}.{trajectory.block_size}', '..{symbol}--{tag}..')]
    out += [dict(cls='sk', F=1, path='{long_name}.{tag_description}.{tag}', partial=True),
            dict(cls='fkt', F=2, path='x/{symbol}', partial=False), dict(cls='msd', F=2, cond="mass>1.5"), dict(cls='sk', F=1, cond="species == 'A',species == 'B'")]
    out += [dict(cls=c, F=2, memory=True) for c in ('msd', 'fskt', 'fkt', 'gr', 'sk')]
    out += [dict(cls='msd', F=2, memory=True, partial=True)]
    out += [dict(cls='msd', F=2, path='x__y/z--w..v/{symbol}'), dict(cls='sk', F=1, path='x__y/z--w..v/{symbol}')]
    # without the analysis
    out += [dict(cls='msd', F=2, partial=True, how='write'), dict(cls='sk', F=1, partial=True, how='write'), dict(cls='vacf', F=2, how='write'),
            dict(cls='msd', F=2, how='call'), dict(cls='sk', F=1, how='call')]
    if big:
        out += [dict(cls=c, F=5) for c in ('msd', 'vacf', 'fskt', 'fkt')] + [dict(cls='fkt', F=2, partial=True)]
    return out


CLS = {'msd': 'MeanSquareDisplacement', 'vacf': 'VelocityAutocorrelation', 'qst': 'SelfOverlap', 'qt': 'CollectiveOverlap',
       'chi4': 'Chi4SelfOverlap', 'alpha2': 'NonGaussianParameter', 'gr': 'RadialDistributionFunctionFast',
       'gr_legacy': 'RadialDistributionFunctionLegacy', 'sk': 'StructureFactorLegacy', 'sk_fast': 'StructureFactorFast',
       'fskt': 'SelfIntermediateScatteringFast', 'fskt_legacy': 'SelfIntermediateScatteringLegacy', 'fkt': 'IntermediateScattering'}
SYMBOL = {'msd': 'msd', 'vacf': 'vacf', 'qst': 'qst', 'qt': 'qt', 'chi4': 'chi4qs', 'alpha2': 'alpha2', 'gr': 'gr', 'gr_legacy': 'gr',
          'sk': 'sk', 'sk_fast': 'sk', 'fskt': 'fskt', 'fskt_legacy': 'fskt', 'fkt': 'fkt'}
NAME = {'sk': 'S(k)', 'sk_fast': 'S(k)', 'msd': 'dr^2(t)', 'vacf': 'Z(t)', 'qst': 'Q_s(t)', 'qt': 'Q(t)', 'chi4': 'chi_4(t)', 'alpha2': 'alpha_2(t)',
        'gr': 'g(r)', 'gr_legacy': 'g(r)', 'fskt': 'F_s(k,t)', 'fskt_legacy': 'F_s(k,t)', 'fkt': 'F(k,t)'}


def harness(B, **kw):
    B.TOL = 2e-5
    d = tempfile.mkdtemp(prefix='vt16.')
    try:
        run(B, d, **kw)
    finally:
        shutil.rmtree(d)


def files(d):
    out = []
    for a, _, c in os.walk(d):
        out += [os.path.relpath(os.path.join(a, x), d) for x in c]
    return sorted(out)


def run(B, d, cls, F, nk=2, norm=True, partial=False, path=None, cond=None, memory=False, how='do'):
    pp = B.pp
    D = 3 if cls == 'gr' else 2
    two = cls in ('gr', 'gr_legacy', 'sk', 'sk_fast', 'fkt', 'fskt', 'fskt_legacy', 'qt') and cls not in ('fskt', 'fskt_legacy')
    N, species = 1, None
    if partial or cond:
        N, species = 4, list('ABAA')
        if cls == 'gr_legacy':
            N, species = 2, list('AB')
        elif cond and ',' in cond:
            N, species = 7, list('ABBABBA')
    elif cls in ('gr', 'gr_legacy'):
        N = 2
    T = make(B, N=N, D=D, F=F, species=species, step='uniform', velocities=cls == 'vacf', mass=bool(cond),
             unfolded=cls not in ('gr', 'gr_legacy'), fold='cell' if cls in ('gr', 'gr_legacy') else None)
    if cond and 'mass' in cond:
        for i, m in enumerate(T.mass):
            B.assume(B.lt(B.q(3, 2), m) if i != 1 else B.lt(m, B.q(3, 2)))
    T.th.filename = None if memory else os.path.join(d, 'a.xyz')
    tg = [T.dt * s if i else 0 * T.dt for i, s in enumerate(T.steps)]
    args, kw = [T.th], dict(norigins=-1)
    if cls in ('gr', 'gr_legacy'):
        dr = B.real('dr', pos=True)
        for l in T.L:
            B.assume(dr * 6 <= l)
        args.append([dr * (2 * i + 1) / 2 for i in range(3)])
        if cls == 'gr_legacy':
            args[-1] = args[-1][:2]
    elif cls in ('sk', 'sk_fast'):
        pass
    elif cls in ('fskt', 'fskt_legacy', 'fkt'):
        args += [None, tg]
        kw['normalize'] = norm
    else:
        args.append(tg)
    if cls in ('qst', 'qt', 'chi4'):
        kw['a'] = B.real('a', pos=True)
    C = getattr(pp, CLS[cls])
    ks = kvecs(B, T.L, SHELLS2[:nk] if D == 2 else SHELLS3[:nk])

    def new():
        c = pp.Partial(C, ['A', 'B'], *args, **kw) if partial else C(*args, **kw)
        if cond:
            c = pp.Filter(c, cond)
        if path:
            c.output_path = os.path.join(d, path)
        if cls in ('sk', 'sk_fast', 'fskt', 'fskt_legacy', 'fkt'):
            for p in (c.partial.values() if partial else [c]):
                set_kvectors(B, p, ks)
        return c
    c = new()
    if how == 'do':
        c.do()
    elif how == 'call':
        c()
    else:
        c.compute()
        B.claim(files(d) == [], 'nothing is written before the results')
        c.write()
    if memory:
        B.claim(files(d) == [], 'nothing is written without a file')
        for p in (c.partial.values() if partial else [c]):
            B.claim(p.value is not None and len(p.value) == len(p.grid[0] if cls in ('fskt', 'fkt') else p.grid), 'values')
        return
    tau = cls in ('fskt', 'fskt_legacy', 'fkt')
    parts = {}
    if not partial:
        parts[''] = c
    else:
        for k, p in c.partial.items():
            parts[k if isinstance(k, str) else '%s-%s' % k] = p
    names = {}
    for t in parts:
        tag = t
        if cond:
            tag = {'mass>1.5': 'mass>1.5', "species == 'A',species == 'B'": 'speciesA-speciesB'}[cond]
        s = SYMBOL[cls]
        if path is None:
            n = 'a.xyz.pp.' + s + ('.' + tag if tag else '')
        elif path == '{symbol}_{tag}.txt':
            n = s + '_.txt'
        elif path.startswith('sub'):
            n = 'sub/dir/' + parts[t].short_name 
        elif path.startswith('..'):
            n = s
        elif path.endswith('/{symbol}'):
            n = path.replace('{symbol}', s)
        else:
            n = 'structure_factor.species_pair_%s.%s' % (t, t)
        names[t] = n
    want = sorted(list(names.values()) + ([n + '.tau' for n in names.values()] if tau else []))
    if cls == 'chi4':
        # the moments of the overlap are also written
        want = sorted(want + ['a.xyz.pp.qsu', 'a.xyz.pp.q2su'])
    if path and path.startswith('sub'):
        B.claim(len(files(d)) == 1 and files(d)[0].startswith('sub/dir/'), 'output file')
        names[''] = files(d)[0]
    else:
        B.claim(files(d) == want, 'output files: %s' % files(d))
        if files(d) != want:
            return
    for t, p in parts.items():
        rows, head = parse(B, os.path.join(d, names[t]))
        if tau:
            k, x = p.grid
            B.claim(len(p.value) == len(k) and all(len(v) == len(x) for v in p.value), 'as many values as points')
            full = [[k[i], x[j], p.value[i][j]] for i in range(len(k)) for j in range(len(x))]
        else:
            full = [[x, y] for x, y in zip(p.grid, p.value)]
            B.claim(len(p.grid) == len(p.value), 'as many values as points')
        B.claim(len(rows) == len(full), 'number of rows of %s' % names[t])
        for a, b in zip(rows, full):
            B.claim(len(a) == len(b), 'number of columns of %s' % names[t])
            for x, y in zip(a, b):
                B.claim_eq(x, y, 'numbers in %s' % names[t])
        # header
        B.claim(any(h.startswith('# title: ' + p.long_name) for h in head), 'title')
        if partial:
            about = ('of species pair ' if '-' in t else 'of species ') + t
            B.claim(any(h.startswith('# title: ') and h.endswith(about) for h in head), 'title: species')
        B.claim(p.short_name == NAME[cls], 'name of the function')
        cols = [h for h in head if h.startswith('# columns: ')]
        v = p.short_name[p.short_name.index('(') + 1:-1].split(',')
        B.claim(len(cols) == 1 and cols[0] == '# columns: ' + ', '.join(v + [p.short_name]), 'names of the columns')
        for key, val in p.analysis.items():
            lines = [h for h in head if h.startswith('# %s: ' % key)]
            B.claim(len(lines) == (val is not None), 'results of the analysis')
            if lines and not isinstance(val, dict):
                B.claim_eq(B.fromtext(lines[0].split(': ')[1]), val, 'analysis: %s' % key)
        if tau:
            rows, head = parse(B, os.path.join(d, names[t] + '.tau'))
            db = p.analysis['relaxation times tau']
            B.claim(len(rows) == len(db) == len(p.grid[0]), 'relaxation times')
            for r, q in zip(rows, p.grid[0]):
                B.claim_eq(r[0], q, 'wave number')
                B.claim(len(r) == (2 if db[q] is not None else 1), 'relaxation time')
                if len(r) > 1 and db[q] is not None:
                    B.claim_eq(r[1], db[q], 'relaxation time')
    if cls == 'chi4':
        for n, p in (('qsu', c.average), ('q2su', c.variance)):
            rows, head = parse(B, os.path.join(d, 'a.xyz.pp.' + n))
            B.claim(len(rows) == len(p.value) == len(p.grid), 'moments of the overlap')
            for r, x, y in zip(rows, p.grid, p.value):
                B.claim_eq(r[0], x, 'time')
                B.claim_eq(r[1], y, 'moment of the overlap')
    # read the results in another correlation
    if tau:
        return
    o = new()
    for t, p in parts.items():
        q = o.partial[[k for k in o.partial if (k if isinstance(k, str) else '%s-%s' % k) == t][0]] if partial else o
        q.read()
        B.claim(len(q.grid) == len(p.grid) and len(q.value) == len(p.value), 'number of points read')
        for x, y in list(zip(q.grid, p.grid)) + list(zip(q.value, p.value)):
            B.claim_eq(x, y, 'numbers read')


def parse(B, path):
    rows, head = [], []
    with open(path) as fh:
        for line in fh:
            if line.startswith('#'):
                head.append(line.strip())
            else:
                rows.append([B.fromtext(x) for x in line.split()])
    return rows, head
