"""C22: high-level functions behind the command line"""

from ..common import *
import os
import shutil
from fractions import Fraction
import tempfile

BOUNDS = ('1-5 particles of one or two species in 1-3 dimensions, 2-6 frames of two trajectory files, arbitrary positions, velocities, masses and radii; '
          'arbitrary cell sides except for wave-vector grids (sides 4, 5 and 6); the files with the results are written to a scratch directory')
ASSUMPTIONS = ['trajectories are opened through the factory of the underlying library; here they are kept in memory',
               'numbers written with six significant digits are exact',
               'the correlation functions themselves, with the same options, are covered by the other properties']

TIME = ('msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt')
LAG = dict(func='linear', tsamples=2)


def configs(tier):
    big = tier == 'thorough'
    out = []
    for fn in ('msd', 'vacf', 'chi4qs', 'alpha2', 'qst', 'qt'):
        t = dict(fn=fn, F=3)
        out += [dict(t, o=dict(LAG, tmax='@')), dict(t, o=dict(LAG, tmax_fraction='@')), 
                dict(t, species='ABAA', F=2, o=dict(LAG, tmax='@'))]
        if fn in ('msd', 'vacf', 'alpha2'):
            out.append(dict(t, o=dict(tmax=-1.0, tmax_fraction=-1.0, **({} if fn == 'msd' else dict(tsamples=2))), F=2, **({} if fn == 'msd' else dict(dt=1))))
        if fn != 'chi4qs':
            out += [dict(t, species='ABAA', F=2, o=dict(LAG, tmax='@', no_partial=True))]
        if fn in ('msd', 'vacf', 'qst'):
            out += [dict(t, F=4, o=dict(LAG, tmax_fraction='@', norigins=n)) for n in ('0.5', '2', '1', '-1')]
    out += [dict(fn='msd', F=2, o=dict(LAG, tmax='@big')), dict(fn='vacf', F=2, o=dict(LAG, tmax='@big')), dict(fn='chi4qs', F=2, o=dict(LAG, tmax='@big')),
            dict(fn='msd', F=3, o=dict(LAG, tmax='@', sigma='@')), dict(fn='msd', F=3, o=dict(LAG, tmax='@', rmsd_max='@')),
            dict(fn='msd', F=2, species='ABAA', o=dict(LAG, tmax='@', fix_cm=True, rmsd_max='@', sigma='@')),
            dict(fn='msd', F=6, size=2, o=dict(LAG, tmax='@', no_offset=True)),
            dict(fn='msd', F=3, size=2, species='AB', D=3, o=dict(LAG, tmax='@', no_offset=True)),
            dict(fn='vacf', F=3, o=dict(tsamples=2, func='logx', tmax_fraction=0.75), dt=1),
            dict(fn='qst', F=3, o=dict(tsamples=2, func='logx_grid', tmax_fraction=0.75), dt=1),
            dict(fn='chi4qs', F=3, species='ABAA', o=dict(LAG, tmax='@', a='@', total=True)),
            dict(fn='chi4qs', F=3, species='AB', D=3, o=dict(LAG, tmax='@', a='@')),
            dict(fn='chi4qs', F=3, o=dict(LAG, tmax='@', a='@', fast=True))]
    # first, last, skip
    for s in (dict(first=1), dict(last=3), dict(skip=2), dict(first=1, last=4, skip=2), dict(first=0.4), dict(last=0.5), dict(first=-3)):
        out.append(dict(fn='msd', F=5, o=dict(dict(LAG, tmax_fraction='@'), **s)))
    out += [dict(fn='msd', F=6, size=2, o=dict(LAG, tmax_fraction='@', first=3)), dict(fn='vacf', F=6, size=2, o=dict(LAG, tmax_fraction='@', last=5)),
            dict(fn='vacf', F=5, o=dict(LAG, tmax='@', first=2)), dict(fn='sk', F=3, N=1, pin=1, o=dict(kgrid='1.6', dk=0.4, nk=100, norigins='-1', first=1)),
            dict(fn='gr', F=3, N=2, D=3, o=dict(dr=0.75, rmax=1.625, norigins='-1', first=1, last=2))]
    # static
    for s in (None, 'AB'):
        N, D = 2, 3
        for leg in (False, True):
            for x in (dict(rmax=1.625), dict()):
                out.append(dict(fn='gr', F=1, N=N, D=D, species=s, o=dict(dict(dr=0.75, norigins='-1', legacy=leg), **x)))
    out += [dict(fn='gr', F=1, N=2, D=3, species='AB', o=dict(dr=0.75, norigins='-1', no_partial=True)),
            dict(fn='gr', F=1, N=2, D=3, species='AB', o=dict(dr=0.75, norigins='-1', filter="species == 'A',species == 'B'")),
            dict(fn='gr', F=2, N=2, D=3, o=dict(dr=0.75, norigins='1', grandcanonical=True)),
            dict(fn='gr', F=1, N=2, D=3, o=dict(dr=0.75, rmax=1.625, norigins='-1', ndim=2))]
    ks = dict(kgrid='1.6,2.3', dk=0.4, nk=100)
    for f in (False, True):
        out += [dict(fn='sk', F=1, N=1, pin=1, o=dict(ks, fast=f)), dict(fn='sk', F=2, species='ABAA', pin=1, o=dict(ks, fast=f, norigins='-1')),
                dict(fn='sk', F=1, N=4, pin=1, o=dict(ks, fast=f, weight='mass')),
                dict(fn='sk', F=1, N=4, pin=1, o=dict(ks, fast=f, weight='mass', weight_fluctuations=True)),
                dict(fn='sk', F=1, N=1, pin=1, o=dict(kmin=1.5, kmax=2.5, ksamples=2, dk=0.4, nk=2, fast=f)),
                dict(fn='sk', F=1, N=1, pin=1, o=dict(kmax=2.5, ksamples=2, dk=0.4, nk=3, fast=f))]
    out += [dict(fn='sk', F=1, species='ABAA', pin=1, o=dict(ks, weight='mass')), dict(fn='sk', F=1, species='ABAA', pin=1, o=dict(ks, filter="species == 'A'")),
            dict(fn='sk', F=1, species='ABAA', pin=1, o=dict(ks, no_partial=True))]
    for fn in ('fkt', 'fskt'):
        leg = [False, True] if fn == 'fskt' else [False]
        out += [dict(fn=fn, F=2, N=1, pin=1, o=dict(dict(ks, tmax='@', legacy=l, nk=100), **LAG)) for l in leg]
        out += [dict(fn=fn, F=3, N=1, pin=1, o=dict(LAG, kmin=1.5, kmax=2.5, ksamples=2, dk=0.4, nk=2, tmax_fraction='@', norigins='2'))]
        out += [dict(fn=fn, F=2, species='ABAA', pin=1, o=dict(dict(ks, tmax='@', kgrid='1.6', nk=3), **x)) for x in (LAG, dict(LAG, total=True), dict(LAG, total=True, no_partial=True), dict(LAG, no_partial=True))]
        out += [dict(fn=fn, F=2, N=3, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@', fix_cm=True))]
        out += [dict(fn=fn, F=2, species=s, D=3 if s == 'AB' else 2, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@', fix_cm=True, **x)) for s, x in (('AB', dict(total=True)), ('AB', {}), ('AABA', {}))]
    out += [dict(fn='fskt', F=2, N=3, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@', lookup_mb=0.001)),
            dict(fn='ik', F=1, N=2, D=3, pin=1, o=dict(kgrid='1.5', dk=0.125, nk=50)), dict(fn='ik', F=1, N=2, D=3, pin=1, o=dict(kgrid='1.5', dk=0.125, nk=50, trajectory_radius='b.vtm')),
            dict(fn='ik', F=2, N=1, D=3, pin=1, o=dict(kmin=1.5, kmax=2.5, ksamples=2, dk=0.4, nk=2, norigins='-1'))]
    # several files, format, species layout, centering, cache, update
    for fn in ('msd', 'vacf'):
        out += [dict(fn=fn, F=2, o=dict(LAG, tmax='@'), two=True)]
    out += [dict(fn='gr', F=1, N=2, D=3, o=dict(dr=0.75, norigins='-1'), two=True), dict(fn='sk', F=1, N=1, pin=1, o=ks, two=True),
            dict(fn='fskt', F=2, N=1, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@'), two=True)]
    out += [dict(fn='msd', F=2, o=dict(LAG, tmax='@', fmt='vtmemory')), dict(fn='vacf', F=2, species='ABAA', o=dict(LAG, tmax='@', species_layout='C')),
            dict(fn='msd', F=2, species='ABAA', o=dict(LAG, tmax='@', no_cache=True)), dict(fn='vacf', F=2, species='ABAA', o=dict(LAG, tmax='@', no_cache=True)),
            dict(fn='msd', F=2, o=dict(LAG, tmax='@', center=True)), dict(fn='msd', F=2, N=1, o=dict(LAG, tmax='@', center=True, no_cache=True)),
            dict(fn='msd', F=3, o=dict(LAG, tmax='@', center=True, first=1)),
            dict(fn='qst', F=2, o=dict(LAG, tmax='@', center=True)), dict(fn='gr', F=1, N=2, D=3, species='AB', o=dict(dr=0.75, norigins='-1', center=True)),
]
    for fn in ('msd', 'vacf', 'qst', 'alpha2', 'qt', 'chi4qs'):
        out.append(dict(fn=fn, F=2, species='ABAA', o=dict(LAG, tmax='@', update=True), old=True))
    out += [dict(fn='gr', F=1, N=2, D=3, species='AB', o=dict(dr=0.75, update=True), old=True), dict(fn='sk', F=1, species='ABAA', pin=1, o=dict(ks, update=True), old=True),
            dict(fn='fskt', F=2, species='ABAA', pin=1, o=dict(LAG, kgrid='1.6', dk=0.4, tmax='@', update=True, total=True), old=True)]
    out += [dict(fn=fn, F=4, species='BA', D=3, o=dict(LAG, tmax_fraction='@', norigins=n)) for fn in ('msd', 'vacf') for n in ('2', '1')]
    out += [dict(fn=fn, F=4, o=dict(LAG, tsamples=3, tmax='@big')) for fn in ('vacf',)]
    out += [dict(fn='sk', F=1, species='ABAA', pin=1, o=dict(ks, weight='mass', weight_fluctuations=True)),
            dict(fn='sk', F=3, species='AB', D=3, pin=1, o=dict(ks, kgrid='1.6', norigins='1')),
            dict(fn='gr', F=2, N=2, D=3, species='AB', o=dict(dr=0.75, norigins='1')),
            dict(fn='fskt', F=4, species='AB', D=3, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@', norigins='2', total=True)),
            dict(fn='fkt', F=3, species='AB', D=3, pin=1, o=dict(LAG, kgrid='1.6', nk=2, dk=0.4, tmax='@', norigins='1', total=True))]
    for fn in ('msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4qs', 'fkt', 'fskt'):
        k = dict(kgrid='1.6', nk=2, dk=0.4) if fn[0] == 'f' else {}
        pin = dict(pin=1) if k else {}
        out += [dict(fn=fn, F=2, species='ABAA', o=dict(LAG, tmax='@', filter="species == 'A'", **k), **pin)]
    out += [dict(fn='chi4qs', F=2, species='ABAA', o=dict(LAG, tmax='@', total=True, filter="species == 'B'")),
            dict(fn='fskt', F=2, species='ABAA', pin=1, o=dict(LAG, tmax='@', total=True, filter="species == 'B'", kgrid='1.6', nk=2, dk=0.4))]
    out += [dict(fn='ba', F=1, N=3, pin=1, o=dict(dtheta=36.0)), dict(fn='ba', F=2, N=3, pin=1, o=dict(dtheta=36.0, norigins='1')),
            dict(fn='ba', F=1, N=3, pin=1, o=dict(dtheta=36.0, filter='species == "A"')), dict(fn='ba', F=1, species='AAAB', pin=1, o=dict(dtheta=36.0)),
            dict(fn='ba', F=1, species='AAAB', pin=1, o=dict(dtheta=36.0, no_partial=True)), dict(fn='ba', F=1, N=3, pin=1, o=dict(dtheta=36.0), two=True)]
    if big:
        out += [dict(fn=fn, F=6, o=dict(LAG, tmax_fraction='@', norigins='-1')) for fn in ('msd', 'vacf')]
    return out


def harness(B, **kw):
    B.TOL = 2e-5
    d = tempfile.mkdtemp(prefix='vt22.')
    F = B.load('atooms.trajectory').Trajectory
    old = dict(F.suffixes), dict(F.formats)
    store = {}

    def opener(filename, mode='r'):
        systems, steps, dt, size = store[filename]
        th = trajectory(B, systems, steps, dt)
        th.filename = filename
        if size:
            th.block_size = size
        return th
    F.suffixes['vtm'] = opener
    F.formats['vtmemory'] = opener
    m = B.load('atooms.postprocessing.partial')
    partial = m.Partial
    try:
        run(B, d, store, opener, **kw)
    finally:
        m.Partial = partial
        F.suffixes.clear(), F.formats.clear()
        F.suffixes.update(old[0]), F.formats.update(old[1])
        shutil.rmtree(d)


def listing(d):
    return sorted(x for x in os.listdir(d) if '.pp.' in x)


def rows(B, path):
    with open(path) as fh:
        return [[B.fromtext(x) for x in line.split()] for line in fh if not line.startswith('#')]


def times(B, o, T, steps, fn, h):
    dt, total = T.dt, T.dt * B.num(steps[-1] - steps[0])
    n = o.get('tsamples')
    if T.given['tmax']:
        end = o['tmax']
        if fn in ('msd', 'vacf', 'chi4qs') and not B.decide(B.le(end, total)):
            end = total
    elif T.given['fraction']:
        end = o['tmax_fraction'] * total
    else:
        return None
    if o['func'] == 'linear':
        return [0.0, dt] + [dt + (end - dt) * i / B.num(n - 1) for i in range(1, n)]
    return [0.0] + h.logx_grid(dt, end, n)


CLS = {'msd': 'MeanSquareDisplacement', 'vacf': 'VelocityAutocorrelation', 'fkt': 'IntermediateScattering', 'alpha2': 'NonGaussianParameter',
       'qst': 'SelfOverlap', 'qt': 'CollectiveOverlap', 'ba': 'BondAngleDistribution', 'ik': 'SpectralDensity'}


def direct(B, fn, T, th, steps, o, radius):
    """The same correlation functions, from the classes"""
    pp = B.pp
    h = B.load('atooms.postprocessing.helpers')
    names = sorted(set(T.names)) if T.names else []
    many = len(names) > 1 and not o.get('no_partial') and not o.get('filter')
    kw = dict(norigins=o.get('norigins'))
    args = [th]

    def opt(**names):
        for k, v in names.items():
            if v in o:
                kw[k] = o[v]
    name = CLS.get(fn)
    total = True
    if fn == 'gr':
        name = 'RadialDistributionFunctionLegacy' if o.get('legacy') else 'RadialDistributionFunctionFast'
        opt(dr='dr', rmax='rmax', ndim='ndim')
        th._grandcanonical = o.get('grandcanonical', False)
    elif fn == 'ba':
        opt(dtheta='dtheta')
    elif fn in ('sk', 'ik', 'fkt', 'fskt'):
        if fn == 'sk':
            name = 'StructureFactorFast' if o.get('fast') else 'StructureFactorLegacy'
        elif fn == 'fskt':
            name = 'SelfIntermediateScatteringLegacy' if o.get('legacy') else 'SelfIntermediateScatteringFast'
        grid = [float(x) for x in o['kgrid'].split(',')] if 'kgrid' in o else None
        opt(nk='nk', dk='dk')
        if fn in ('sk', 'ik'):
            kw['kgrid'] = grid
            opt(kmin='kmin', kmax='kmax', ksamples='ksamples')
        else:
            if grid is None:
                n = o['ksamples']
                grid = [o['kmin'] + (o['kmax'] - o['kmin']) * i / (n - 1) for i in range(n)]
            args += [grid, times(B, o, T, steps, fn, h)]
            opt(fix_cm='fix_cm', lookup_mb='lookup_mb')
            total = o.get('total') or len(names) < 2 or o.get('filter')
        if fn == 'ik':
            args += [radius]
            many = False
    else:
        args += [times(B, o, T, steps, fn, h)]
        if fn == 'chi4qs':
            name = 'Chi4SelfOverlapOptimized' if o.get('fast') else 'Chi4SelfOverlap'
            total = o.get('total') or len(names) < 2 or o.get('filter')
            many = len(names) > 1 and not total
            opt(a='a')
        elif fn == 'msd':
            opt(sigma='sigma', rmax='rmsd_max', no_offset='no_offset', fix_cm='fix_cm')
    C = getattr(pp, name)
    out = []
    if total:
        c = C(*args, **kw)
        out.append(pp.Filter(c, o['filter']) if o.get('filter') else c)
    if many:
        out.append(pp.Partial(C, names, *args, **kw))
    for c in out:
        if o.get('weight'):
            c.add_weight(field=o['weight'], fluctuations=o.get('weight_fluctuations', False))
        c.do()


def frames(n, size, o):
    def at(x):
        if x is None:
            return None
        x = int(x * n) if 0 < x < 1 else int(x)
        return x // size * size if size > 1 else x
    return list(range(n))[at(o.get('first')):at(o.get('last')):o.get('skip')]


def run(B, d, store, opener, fn, F, o, N=1, D=2, species=None, size=0, pin=0, dt=True, two=False, old=False):
    api = B.load('atooms.postprocessing.api')
    if fn == 'ba':
        if B.symbolic:
            B.E.settle = True
        # the partial g(r) that defines the cutoff distances is the one of property C20
        B.load('atooms.postprocessing.partial').Partial = lambda *args, **kws: GR(B, *args, **kws)
    N = len(species) if species else N
    mem = fn == 'gr'
    kw = dict(N=N, D=D, F=F, species=list(species) if species else None, velocities=fn == 'vacf', mass=bool(o.get('fix_cm') or o.get('weight')),
              radius=fn == 'ik', unfolded=fn in ('msd', 'qst', 'chi4qs', 'alpha2'), dt=dt)
    if pin:
        kw['pin'] = (4, 5, 6)[:D]
    if size > 1:
        kw['step'] = [0, 1, 3, 4, 6, 7][:F]
    elif dt == 1 or any(x in o for x in ('first', 'last', 'skip', 'tmax_fraction')):
        kw['step'] = list(range(F))
    else:
        kw['step'] = 'uniform'
    if mem:
        # two particles along a line
        kw['pin'] = (4, 5, 6)[:D]
    T = make(B, **kw)
    place = line if mem else triangle if fn == 'ba' else None
    if place:
        place(B, T)
    T.names = kw['species']
    U = None
    if two:
        # a second trajectory, with its own positions and cell
        U = make(Renamed(B), **dict(kw, unfolded=kw['unfolded']))
        U.names = T.names
        if place:
            place(Renamed(B), U)
    o = dict(o)
    if B.symbolic:
        o = {k: B.num(Fraction(v)) if k in ('dr', 'rmax', 'dtheta') else v for k, v in o.items()}
    fr = frames(F, size, o)
    given = {}
    for X in [T, U]:
        if X is not None:
            X.given = dict(tmax=o.get('tmax', -1) in ('@', '@big'), fraction=o.get('tmax_fraction', -1) not in (None, -1.0) and 'tmax' not in o)
            X.part = [X.steps[f] for f in fr]
    for k, v in o.items():
        if isinstance(v, str) and v.startswith('@'):
            o[k] = B.real(k, pos=True)
            for X in [T, U]:
                if X is None:
                    continue
                total = X.dt * B.num(X.part[-1] - X.part[0]) if F > 1 else None
                if k == 'tmax':
                    B.assume(B.le(X.dt, o[k]))
                    B.assume(B.le(total, o[k]) if v == '@big' else B.le(o[k], total))
                elif k == 'tmax_fraction':
                    B.assume(B.le(1, o[k] * (X.part[-1] - X.part[0])))
                    B.assume(B.le(o[k], 1))
    x, y = os.path.join(d, 'x'), os.path.join(d, 'y')
    os.mkdir(x), os.mkdir(y)
    ext = 'dat' if o.get('fmt') else 'vtm'
    paths = []
    for n, X in (('a', T), ('c', U)):
        if X is None:
            continue
        p = os.path.join(x, '%s.%s' % (n, ext))
        store[p] = X.systems, X.steps, X.dt, size
        paths.append((p, X))
    radius = None
    if 'trajectory_radius' in o:
        R = [B.real('R%d' % i, pos=True) for i in range(N)]
        radius = os.path.join(x, o['trajectory_radius'])
        store[radius] = [system(B, T.p[f], T.L, None, radius=R) for f in range(F)], T.steps, T.dt, size
        o['trajectory_radius'] = radius
    # the oracle
    for p, X in paths:
        q = os.path.join(y, os.path.basename(p))
        s = [X.systems[f] for f in fr]
        if o.get('species_layout'):
            X.names = [sorted(set(species)).index(z) for z in species]
            s = [system(B, X.p[f], X.L, X.names, X.vel[f] if X.vel else None) for f in fr]
        store[q] = s, X.part, X.dt, size
        direct(B, fn, X, opener(q), X.part, dict(o), radius or q)
    want = listing(y)
    B.claim(all(w.split('.pp.')[1].split('.')[0] in SYMBOLS.get(fn, [fn]) for w in want), 'only the results of the function')
    if old:
        # results newer than the trajectory
        for w in want:
            with open(os.path.join(x, w), 'w') as fh:
                fh.write('# title: old\n1 2\n3 4\n')
        for p, _ in paths:
            open(p, 'w').close()
            os.utime(p, (1000, 1000))
    # the function
    import inspect
    f = getattr(api, fn)
    par = list(inspect.signature(f).parameters.values())
    loc = {q.name: q.default for q in par if q.default is not inspect.Parameter.empty}
    args = [o.pop(k) if k in o else v for k, v in loc.items()]
    if B.symbolic:
        args = [B.num(Fraction(z)) if isinstance(z, float) else z for z in args]
    f(paths[0][0], *(args + [p for p, _ in paths[1:]]), **o)
    got = listing(x)
    B.claim(got == want, 'files with the results')
    for w in want:
        if w not in got:
            continue
        r, s = rows(B, os.path.join(x, w)), rows(B, os.path.join(y, w))
        if old:
            r = [[B.concrete(z) for z in line] for line in r]
            B.claim(r == [[1, 2], [3, 4]], 'existing results are kept')
            continue
        B.claim(len(r) == len(s), 'number of lines')
        for a, b in zip(r, s):
            B.claim(len(a) == len(b), 'number of columns')
            for u, v in zip(a, b):
                B.claim_eq(u, v, 'results')


SYMBOLS = {'chi4qs': ['chi4qs', 'qsu', 'q2su']}


def triangle(B, T):
    """Triangles of a given shape and an arbitrary size per frame"""
    T.p = []
    for f in range(T.F):
        x = B.real('x%d' % f, pos=True)
        B.assume(B.lt(B.num(Fraction(3, 4)), x))
        B.assume(B.lt(x, B.num(Fraction(5, 4))))
        z = B.num(B.q(0))
        T.p.append([[z, z], [x, z], [z, x], [x, x]][:T.N])
    T.systems = [system(B, T.p[f], T.L, T.species) for f in range(T.F)]


def line(B, T):
    """One arbitrary distance between two particles per frame"""
    z = B.num(B.q(0))
    T.p = [[[z, z, z], [B.real('x%d' % f, pos=True), z, z]] for f in range(T.F)]
    for f in range(T.F):
        B.assume(B.lt(T.p[f][1][0], 2))
    T.systems = [system(B, T.p[f], T.L, T.species) for f in range(T.F)]


class GR(object):
    """Partial radial distribution functions with a minimum at 7/4"""

    def __init__(self, B, cls, ids, th, *args, **kwargs):
        self.B, self.ids, self.th, self.partial = B, list(ids), th, {}

    def compute(self):
        B = self.B
        for a in self.ids:
            for b in self.ids:
                p = type('P', (), {})()
                p.grid = [B.num(B.q(i, 4)) for i in (3, 5, 7, 9)]
                p.value = [B.num(B.q(i)) for i in (0, 3, 1, 2)]
                self.partial[a, b] = p

    def write(self):
        if self.th.filename is not None:
            open(self.th.filename + '.pp.gr.X', 'w').close()

    def do(self, update=False):
        self.compute()
        self.write()


class Renamed(object):
    """The same inputs under other names"""

    def __init__(self, B):
        self.B = B

    def __getattr__(self, name):
        return getattr(self.B, name)

    def real(self, name, **kw):
        return self.B.real('z_' + name, **kw)

    def int(self, name, *a):
        return self.B.int('z_' + name, *a)
