"""C13: selection of time origins"""

from ..common import *

KERNELS = False
BOUNDS = ('arbitrary numbers of frames up to 10000 and particles up to 10^6, periodic blocks of 1-8 frames, 2-50 requested '
          'origins, arbitrary fractions between 1/7 and 1')
ASSUMPTIONS = ['a fraction is not exactly one over an integer in the symbolic configurations (the given fractions 0.5, 0.25, 0.2, '
               '0.1 are)']


def configs(tier):
    out = []
    for b in (1, 2, 5) + ((3, 8, 10) if tier == 'thorough' else ()):
        out += [dict(b=b, n=-1), dict(b=b, n='-1'), dict(b=b, n=1), dict(b=b, n='1'), dict(b=b, n=-1.0)]
        for n in (2, 3, 10, 50) + ((4, 5, 7, 20, 100) if tier == 'thorough' else ()):
            out.append(dict(b=b, n=n))
        out += [dict(b=b, n='3'), dict(b=b, n=4.0), dict(b=b, n='20')]
        for q in range(1, 7 if tier == 'quick' else 20):
            out.append(dict(b=b, frac=q))
        out += [dict(b=b, given=x) for x in (0.5, 0.25, '0.5', '0.2', '0.3', 0.75, '0.75')]
        out.append(dict(b=b, default=True))
    return out


class Frames(object):

    def __init__(self, n):
        self.vt_len = n

    def __len__(self):
        return int(self.vt_len)


class Traj(object):
    filename = None

    def __init__(self, F, b, N):
        self.steps = Frames(F)
        self.block_size = b
        self.vt_len = F
        self.N = N

    def __len__(self):
        return int(self.vt_len)

    def __getitem__(self, i):
        return self

    @property
    def particle(self):
        return Frames(self.N)


def harness(B, b, n=None, frac=None, given=None, default=False):
    C = B.load('atooms.postprocessing.correlation').Correlation
    Partial = B.load('atooms.postprocessing.partial').Partial
    r = B.int('r', 0, b - 1)
    if n is not None and float(n) > 1:
        # blocks = n q + s
        k = int(float(n))
        q, s = B.int('q', 0, 10000 // b // k), B.int('s', 0, k - 1)
        m = q * k + s
    else:
        m = B.int('m', 0, 10000 // b)
    F = m * b + r
    B.assume(B.le(1, F))
    th = Traj(F, b, B.int('N', 1, 10 ** 6))
    arg = n
    if frac:
        arg = B.real('f', pos=True)
        B.assume(B.lt(arg * frac, 1))
        B.assume(B.lt(1, arg * (frac + 1)))
    elif given:
        arg = given
        frac = int(1 / float(given))
    skip = C(th, None, norigins=arg).skip
    if n is not None and float(n) > 1:
        want = B.ite(B.eqi(q, 0), b, q * b)
    elif n is not None and float(n) < 0:
        want = b
    elif n is not None:
        want = F
    elif frac:
        want = frac * b
    elif b > 1:
        want = b
    else:
        # one origin for every 40000 particles in the trajectory
        x = B.floor(B.div(F * th.N, B.num(40000)))
        want = B.ite(B.lt(x, 1), 1, x)
    want = B.ite(B.lt(F, want), F, want)
    B.claim_eq(B.num(skip), want, 'interval between time origins')
