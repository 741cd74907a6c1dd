"""C17: updates of existing results"""

from ..common import *
import os
import shutil
import tempfile
import types

KERNELS = False
BOUNDS = ('arbitrary modification times of the trajectory and of the output files, each of which may be missing; mean square '
          'displacement, its partials and structure factor of 1-4 particles and 2 frames')
ASSUMPTIONS = ['the file system reports modification times through os.stat']


def configs(tier):
    out = []
    for cls in ('msd', 'sk', 'vacf', 'qst'):
        out += [dict(cls=cls, exists=(True,)), dict(cls=cls, exists=(False,)), dict(cls=cls, exists=(True,), update=False)]
    for e in ((True, True), (True, False), (False, True), (False, False)):
        out.append(dict(cls='msd', exists=e))
    out += [dict(cls='msd', exists=(True, True), update=False), dict(cls='sk', exists=(True,) * 4), dict(cls='sk', exists=(True, False, True, True)),
            dict(cls='msd', exists=()), dict(cls='msd', exists=(), stdout=True)]
    # the results are not looked up by default
    out += [dict(cls='msd', exists=(True,), update=None), dict(cls='msd', exists=(True, True), update=None), dict(cls='sk', exists=(True,), update=None)]
    if tier == 'thorough':
        out += [dict(cls='sk', exists=tuple(i != j for i in range(4))) for j in range(4)]
        out += [dict(cls='msd', exists=(True, True, True)), dict(cls='vacf', exists=(True, True)), dict(cls='vacf', exists=(False, True))]
    return out


CLS = {'msd': 'MeanSquareDisplacement', 'sk': 'StructureFactorLegacy', 'vacf': 'VelocityAutocorrelation', 'qst': 'SelfOverlap'}


def harness(B, **kw):
    B.TOL = 2e-5
    d = tempfile.mkdtemp(prefix='vt17.')
    stat = os.stat
    times = {}

    def fake(path, *a, **k):
        r = stat(path, *a, **k)
        t = times.get(path if not hasattr(path, '__fspath__') else path.__fspath__())
        if t is None:
            return r
        x = types.SimpleNamespace(**{n: getattr(r, n) for n in dir(r) if n.startswith('st_')})
        x.st_mtime = t
        return x
    os.stat = fake
    try:
        run(B, d, times, **kw)
    finally:
        os.stat = stat
        shutil.rmtree(d)


def run(B, d, times, cls, exists, update=True, stdout=False):
    pp = B.pp
    species = list('AABA'[:4]) if len(exists) in (2, 4) else list('ABCABA')[:6] if len(exists) == 3 else None
    if len(exists) == 3:
        species = list('ABC')
    T = make(B, N=len(species) if species else 1, D=2, F=2, species=species, step='uniform', velocities=cls == 'vacf')
    a = os.path.join(d, 'a.xyz')
    open(a, 'w').close()
    if exists or stdout:
        T.th.filename = a
    times[a] = B.real('t')
    tg = [0.0 * T.dt, T.dt * T.steps[1]]
    args = [T.th] + ([] if cls == 'sk' else [tg])
    kw = {'a': B.real('a', pos=True)} if cls == 'qst' else {}
    C = getattr(pp, CLS[cls])
    names = []
    if len(exists) > 1:
        names = sorted(set(species))
        c = pp.Partial(C, names, *args, norigins=-1, **kw)
        keys = names if len(exists) < 4 else [(x, y) for x in names for y in names]
        parts = [c.partial[k] for k in keys]
        tags = ['.' + (k if isinstance(k, str) else '%s-%s' % k) for k in keys]
    else:
        c = C(*args, norigins=-1, **kw)
        parts, tags = [c], ['']
    if stdout:
        c.output_path = '/dev/stdout'
        # the file is never taken as the result of a previous calculation
        times['/dev/stdout'] = B.real('o0')
        B.claim(c.need_update(), 'standard output')
        return
    for p in parts:
        if cls == 'sk':
            set_kvectors(B, p, kvecs(B, T.L, [SHELLS2[0], SHELLS2[1]]))
    if not exists:
        B.claim(c.need_update(), 'no output file')
        c.do(update=update)
        B.claim(len(c.value) == 2, 'computed')
        return
    old = update
    for i, e in enumerate(exists):
        o = a + '.pp.' + cls + tags[i]
        if e:
            with open(o, 'w') as fh:
                fh.write('# title: old\n%g %g\n%g %g\n%g %g\n' % (1, 17 + i, 2, 3.5, 7, 4))
            times[o] = B.real('o%d' % i)
            if old and not B.decide(B.lt(times[a], times[o])):
                old = False
        else:
            old = False
    if update is None:
        c.do()
    else:
        c.do(update=update)
    for i, p in enumerate(parts):
        o = a + '.pp.' + cls + tags[i]
        with open(o) as fh:
            rows = [line.split() for line in fh if not line.startswith('#')]
        if old:
            for x, y in list(zip(p.grid, (1, 2, 7))) + list(zip(p.value, (17 + i, 3.5, 4))):
                B.claim_eq(x, B.q(int(y * 2), 2), 'results from the file')
            B.claim(len(p.grid) == len(p.value) == 3, 'results from the file')
        else:
            B.claim(len(p.grid) == len(p.value) == 2, 'new results')
        B.claim(len(rows) == len(p.grid), 'output file')
        for r, x, y in zip(rows, p.grid, p.value):
            B.claim_eq(B.fromtext(r[0]), x, 'output file')
            B.claim_eq(B.fromtext(r[1]), y, 'output file')
    if not old:
        new = C(*args, norigins=-1, **kw)
        for p, t in zip(parts, tags):
            new = C(*args, norigins=-1, **kw)
            if cls == 'sk':
                set_kvectors(B, new, kvecs(B, T.L, [SHELLS2[0], SHELLS2[1]]))
            f = B.load('atooms.postprocessing.helpers').filter_species
            for x in sorted(set(t[1:].split('-')), key=t.index) if t else []:
                new.add_filter(f, x)
            new.compute()
            for x, y in list(zip(new.grid, p.grid)) + list(zip(new.value, p.value)):
                B.claim_eq(x, y, 'new results')
