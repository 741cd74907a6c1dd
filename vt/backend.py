"""
The two faces of a harness: the same harness text runs over symbolic inputs
(SymBackend: every path of the real code, claims decided by z3) and over
concrete floats against the normally imported package (ConcBackend: replay).
"""

import math
import cmath
from fractions import Fraction


class Invalid(Exception):
    """The concrete inputs do not satisfy an assumption of the harness"""


class Tie(Exception):
    """A comparison of the oracle is too close to call in floating point"""


class Broken(Exception):
    """A claim is false on the concrete run"""


# ----------------------------------------------------------------------
class SymBackend(object):

    symbolic = True

    def __init__(self, E, L):
        from . import sym, shims
        self.E, self.L = E, L
        self._sym, self._sh = sym, shims
        self.np = L.numpy
        self.pi = sym.PI()
        self.reached = set()

    # modules of the code under test
    def load(self, name):
        return self.L.load(name)

    @property
    def pp(self):
        return self.L.load('atooms.postprocessing')

    def kernel(self, name):
        """Fortran module as Python sees it"""
        n = {'compute': 'realspace_wrap', 'fourierspace_module': 'fourierspace_wrap'}[name]
        return getattr(self.L.load('atooms.postprocessing.' + n), name)

    # inputs
    def real(self, name, pos=False, nonneg=False):
        return self.E.declare(name, 'r', pos=pos, nonneg=nonneg)

    def int(self, name, lo, hi):
        x = self.E.declare(name, 'i', pos=lo > 0, nonneg=lo >= 0)
        self.E.assume(x >= lo)
        self.E.assume(x <= hi)
        return x

    def bool(self, name):
        x = self.E.declare(name, 'i')
        self.E.assume(x >= 0)
        self.E.assume(x <= 1)
        return bool(x == 1)

    def choose(self, name, n):
        """An arbitrary integer 0 <= i < n, concrete on every path"""
        x = self.int(name, 0, n - 1)
        return self._sym.concretise(x)

    def assume(self, c):
        self.E.assume(c)

    def decide(self, c):
        """Split on a condition"""
        return bool(c)

    def feasible(self):
        if not self.E.feasible():
            raise self._sym.AbandonPath()

    # claims
    def claim(self, c, label):
        self.E.claim(c, label)

    def claim_eq(self, a, b, label):
        if _isarr(a) or _isarr(b):
            a, b = list(_flat(a)), list(_flat(b))
            self.E.claim(len(a) == len(b), label + ' (length)')
            for i, (x, y) in enumerate(zip(a, b)):
                self.claim_eq(x, y, '%s[%d]' % (label, i))
            return
        self.E.claim_eq(a, b, label)

    def fail(self, label):
        self.E.claim(False, label)

    # arithmetic
    def q(self, a, b=1):
        return self._sh.real_const(Fraction(a, b))

    def ite(self, c, a, b):
        return self._sym.ite(c, a, b)

    def ind(self, c):
        return self._sym.ite(c, self._sym.lift(1), self._sym.lift(0))

    def all(self, *c):
        return self._sym.sym_and(*c)

    def any(self, *c):
        return self._sym.sym_or(*c)

    def no(self, c):
        return self._sym.sym_not(c)

    def lt(self, a, b):
        return self._sym.lift(a) < self._sym.lift(b)

    def le(self, a, b):
        return self._sym.lift(a) <= self._sym.lift(b)

    def eq(self, a, b):
        """Equality as a condition"""
        return self._sym.lift(a) == self._sym.lift(b)

    eqi = eq

    def div(self, a, b):
        """a / b for b assumed to be non zero"""
        return self._sym.lift(a) / self._sym.lift(b)

    def sqrt(self, x):
        return self._sym.sqrt(self._sym.lift(x))

    def root(self, x, n):
        return self._sym.root(self._sym.lift(x), n)

    def floor(self, x):
        return self._sym.floor(self._sym.lift(x))

    def rint(self, x):
        return self._sym.rint(self._sym.lift(x))

    def cos(self, x):
        return self._sym.cos(x)

    def sin(self, x):
        return self._sym.sin(x)

    def acos(self, x):
        return self._sym.acos(self._sym.lift(x))

    def cis(self, x):
        """exp(i x)"""
        L = self._sym.lift(x)
        return self._sym.SymNum(self._sym.exp_i(L.p), 'c')

    def conj(self, z):
        return self._sym.lift(z).conjugate()

    def re(self, z):
        return self._sym.lift(z).real

    def im(self, z):
        return self._sym.lift(z).imag

    def absv(self, x):
        return abs(self._sym.lift(x))

    def arr(self, x):
        return self.np.array(x)

    def iarr(self, x, dtype='int32', order=None):
        return self.np.array(x, dtype=dtype, order=order)

    def num(self, x):
        return self._sym.lift(x)

    def fromtext(self, s):
        return self._sh.number_of(s)

    def exp(self, x):
        return self._sym.rexp(self._sym.lift(x))

    def isnan(self, x):
        return x is self._sym.NAN

    def concrete(self, x):
        """Value of a symbolic integer on this path"""
        return self._sym.concretise(x)

    def raises(self, f, *exc):
        """True if f raises one of the exceptions"""
        try:
            f()
        except exc:
            return True
        return False


class FixedBackend(SymBackend):
    """The symbolic run with given inputs: exact arithmetic on one input"""

    def __init__(self, E, L, inputs):
        SymBackend.__init__(self, E, L)
        self.given = inputs

    def _given(self, name):
        if name not in self.given:
            raise Invalid('input %s has no value' % name)
        return Fraction(self.given[name])

    def real(self, name, pos=False, nonneg=False):
        return self._sh.real_const(self._given(name))

    def int(self, name, lo, hi):
        v = int(self._given(name))
        if not lo <= v <= hi:
            raise Invalid(name)
        return self._sym.lift(v)

    def bool(self, name):
        return int(self._given(name)) == 1

    def choose(self, name, n):
        return int(self._given(name))


def _isarr(x):
    return isinstance(x, (list, tuple)) or (hasattr(x, 'shape') and getattr(x, 'ndim', 0) > 0)


def _flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in _flat(y):
                yield z
    elif hasattr(x, 'flat') and getattr(x, 'ndim', 0) > 0:
        for y in x.flat:
            yield y
    else:
        yield x


# ----------------------------------------------------------------------
class ConcBackend(object):

    symbolic = False
    TIE = 1e-9
    TOL = 1e-6

    def __init__(self, inputs):
        import numpy
        self.inputs = inputs
        self.np = numpy
        self.pi = math.pi
        self.claims = 0
        self.ties = 0
        self.broken = None

    def load(self, name):
        import importlib
        return importlib.import_module(name)

    @property
    def pp(self):
        import atooms.postprocessing as pp
        return pp

    def kernel(self, name):
        n = {'compute': 'realspace_wrap', 'fourierspace_module': 'fourierspace_wrap'}[name]
        return getattr(self.load('atooms.postprocessing.' + n), name)

    # inputs
    def _get(self, name):
        if name not in self.inputs:
            raise Invalid('input %s has no value' % name)
        return Fraction(self.inputs[name])

    def real(self, name, pos=False, nonneg=False):
        v = float(self._get(name))
        if (pos and not v > 0) or (nonneg and v < 0):
            raise Invalid(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name))
        if not lo <= v <= hi:
            raise Invalid(name)
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def assume(self, c):
        if not c:
            raise Invalid('assumption')

    def decide(self, c):
        return bool(c)

    def feasible(self):
        pass

    # claims
    def claim(self, c, label):
        self.claims += 1
        if not bool(c) and self.broken is None:
            self.broken = label

    def claim_eq(self, a, b, label):
        if _isarr(a) or _isarr(b):
            a, b = list(_flat(a)), list(_flat(b))
            self.claim(len(a) == len(b), label + ' (length)')
            for i, (x, y) in enumerate(zip(a, b)):
                self.claim_eq(x, y, '%s[%d]' % (label, i))
            return
        self.claims += 1
        if a is None or b is None:
            ok = a is b
            d = None
        else:
            a, b = complex(a), complex(b)
            if cmath.isnan(a) or cmath.isnan(b):
                ok = cmath.isnan(a) == cmath.isnan(b)
            elif cmath.isinf(a) or cmath.isinf(b):
                ok = a == b
            else:
                ok = abs(a - b) <= self.TOL * (1 + abs(a) + abs(b))
        if not ok and self.broken is None:
            self.broken = '%s: %r != %r' % (label, a, b)

    def fail(self, label):
        self.claim(False, label)

    # arithmetic
    def q(self, a, b=1):
        return a / b

    def _near(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return      # exact
        if abs(a - b) <= self.TIE * (1 + abs(a) + abs(b)):
            self.ties += 1

    def ite(self, c, a, b):
        return a if c else b

    def ind(self, c):
        return 1 if c else 0

    def all(self, *c):
        return all(c)

    def any(self, *c):
        return any(c)

    def no(self, c):
        return not c

    def lt(self, a, b):
        self._near(a, b)
        return a < b

    def le(self, a, b):
        self._near(a, b)
        return a <= b

    def eq(self, a, b):
        if a != b:
            self._near(a, b)
        return a == b

    def eqi(self, a, b):
        return a == b

    def div(self, a, b):
        return a / b

    def sqrt(self, x):
        return math.sqrt(max(0.0, x)) if x > -1e-9 else math.nan

    def root(self, x, n):
        return x ** (1.0 / n)

    def floor(self, x):
        self._near(x, round(x))
        return math.floor(x)

    def rint(self, x):
        self._near(x - math.floor(x), 0.5)
        return int(round(x))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def acos(self, x):
        return math.acos(min(1.0, max(-1.0, x)))

    def cis(self, x):
        return cmath.exp(1j * x)

    def conj(self, z):
        return complex(z).conjugate()

    def re(self, z):
        return complex(z).real

    def im(self, z):
        return complex(z).imag

    def absv(self, x):
        return abs(x)

    def arr(self, x):
        return self.np.array(x)

    def iarr(self, x, dtype='int32', order=None):
        return self.np.array(x, dtype=dtype, order=order)

    def num(self, x):
        return x

    def fromtext(self, s):
        return float(s)

    def exp(self, x):
        import math
        return math.exp(x)

    def isnan(self, x):
        return x != x

    def concrete(self, x):
        return x

    def raises(self, f, *exc):
        try:
            f()
        except exc:
            return True
        return False
