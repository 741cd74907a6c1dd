"""
Stand-ins for numpy, math and the numeric builtins over symbolic values.

Arrays are ordinary numpy arrays of dtype object (class SArr) whose elements
are `SymNum`/`SymBool`/native ints; numpy's own machinery does the shape
handling, every numeric operation is redirected to the exact ones of `sym`.
"""

import builtins as _bi
import math as _math
import operator as _operator
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import (SymNum, SymBool, NAN, EngineLimit, lift, ite, sym_and, sym_or, sym_not)

_O = object


# ----------------------------------------------------------------------------
# scalar helpers

def isnum(x):
    return isinstance(x, (SymNum, SymBool, sym._Nan, _bi.int, _bi.float, _bi.complex, Fraction, np.number, np.bool_))


def real_const(x):
    return SymNum(sym.pconst(Fraction(x)), 'r')


def exact(x):
    """Exact value of a native number (ints stay)"""
    if isinstance(x, (_bi.bool, np.bool_)):
        return _bi.bool(x)
    if isinstance(x, (_bi.int, np.integer)):
        return _bi.int(x)
    if isinstance(x, (_bi.float, np.floating)):
        if x != x:
            return NAN
        return lift(_bi.float(x))
    if isinstance(x, (_bi.complex, np.complexfloating, Fraction)):
        return lift(x)
    return x


def to_real(x):
    """Conversion to a floating-point (real) value"""
    if x is NAN:
        return x
    x = lift(x)
    if x is NAN:
        return x
    if x.k == 'c':
        if sym.is_complex(x.p):
            raise TypeError("can't convert complex to float")
        return SymNum(x.p, 'r')
    return SymNum(x.p, 'r') if x.k == 'i' else x


def to_complex(x):
    x = lift(x)
    return x if x is NAN else SymNum(x.p, 'c')


def to_kind(x, k):
    if k == 'i':
        if isinstance(x, (SymBool, _bi.bool, np.bool_)):
            return x.num() if isinstance(x, SymBool) else _bi.int(x)
        if x is NAN:
            return _nan_int()
        r = sym.trunc(x)
        if isinstance(x, SymNum) and x.k == 'r' and isinstance(r, SymNum):
            r = sym._fixed(r)
        return r
    if k == 'r':
        return to_real(x)
    if k == 'c':
        return to_complex(x)
    if k == 'b':
        return sym.to_bool(x) if not isinstance(x, (_bi.bool, np.bool_)) else _bi.bool(x)
    return x


def _nan_int():
    return -2 ** 63


def kind_of(x):
    if x is NAN:
        return 'r'
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, (SymBool, _bi.bool, np.bool_)):
        return 'b'
    if isinstance(x, (_bi.int, np.integer)):
        return 'i'
    if isinstance(x, (_bi.float, np.floating, Fraction)):
        return 'r'
    if isinstance(x, (_bi.complex, np.complexfloating)):
        return 'c'
    return 'o'


_KORD = {'b': 0, 'i': 1, 'r': 2, 'c': 3, 'o': 4}


def kind_of_array(a):
    if isinstance(a, SArr):
        if a.kind is not None:
            return a.kind
    elif a.dtype != _O:
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'r', 'c': 'c'}.get(a.dtype.kind, 'o')
    k = 'b' if a.size else 'r'
    for x in a.flat:
        kk = kind_of(x)
        if _KORD[kk] > _KORD[k]:
            k = kk
    return k


def dtype_kind(dt):
    """'i', 'r', 'c', 'b' or 'o' of a dtype argument"""
    if dt is None:
        return None
    if dt is Int:
        return 'i'
    if dt is Float:
        return 'r'
    if dt is Complex:
        return 'c'
    if dt is Bool:
        return 'b'
    if isinstance(dt, _bi.type) and issubclass(dt, _NpScalar):
        return dt._k
    if dt is _O:
        return 'o'
    if isinstance(dt, DType):
        return dt._k
    dt = np.dtype(dt)
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'r', 'c': 'c'}.get(dt.kind, 'o')


class DType(object):
    """dtype of a symbolic array"""

    def __init__(self, k):
        self._k = k
        self.kind = {'i': 'i', 'r': 'f', 'c': 'c', 'b': 'b', 'o': 'O'}[k]
        self.itemsize = {'i': 8, 'r': 8, 'c': 16, 'b': 1, 'o': 8}[k]
        self.name = {'i': 'int64', 'r': 'float64', 'c': 'complex128', 'b': 'bool', 'o': 'object'}[k]

    def __eq__(self, o):
        try:
            return dtype_kind(o) == self._k
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return 'dtype(%s)' % self.name


def is_intk(x):
    return kind_of(x) in ('i', 'b')


# division, power and comparisons of scalars
def sdiv(a, b):
    return _npdiv(a, b)


def _npdiv(a, b):
    a, b = lift(a), lift(b)
    return sym.div(a, b)


def sfloordiv(a, b):
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        return a // b if b != 0 else 0
    return lift(a) // lift(b)


def smod(a, b):
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        return a % b if b != 0 else 0
    return lift(a) % lift(b)


def spow(a, b):
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        if b >= 0:
            return a ** b
        return lift(1) / lift(a ** -b)
    return lift(a) ** lift(b)


def smin(a, b):
    if a is NAN or b is NAN:
        return NAN
    c = a <= b
    if isinstance(c, (_bi.bool, np.bool_)):
        return a if c else b
    return ite(c, a, b)


def smax(a, b):
    if a is NAN or b is NAN:
        return NAN
    c = a >= b
    if isinstance(c, (_bi.bool, np.bool_)):
        return a if c else b
    return ite(c, a, b)


def ssign(a):
    a = lift(a)
    if a is NAN:
        return NAN
    p = sym.cmp0(a.p, '>')
    n = sym.cmp0(sym.pscale(a.p, -1), '>')
    r = ite(p, 1, ite(n, -1, 0))
    return to_kind(r, a.k) if a.k != 'i' else r


def sabs(a):
    if isinstance(a, _bi.bool):
        return a
    return abs(a)


def srint(a):
    if isinstance(a, _bi.int):
        return to_real(a)
    r = sym.rint(a)
    return r if r is NAN else to_real(r)


def sfloor(a):
    return a if a is NAN else to_real(sym.floor(a))


def sceil(a):
    return a if a is NAN else to_real(-lift(sym.floor(-lift(a))))


def strunc(a):
    return a if a is NAN else to_real(sym.trunc(a))


def ssqrt(a):
    return sym.sqrt(to_real(a) if kind_of(a) in 'ib' else a)


def sexp(a):
    return sym.cexp(lift(a))


def sconj(a):
    return a.conjugate() if isinstance(a, SymNum) else a


def sisnan(a):
    return a is NAN


def slog(a):
    a = lift(a)
    if a is NAN:
        return NAN
    if sym.isconst(a.p) and sym.constval(a.p) == 1:
        return SymNum({}, 'r')
    return sym.uninterpreted('log', a)


def sarctan2(a, b):
    return sym.uninterpreted('atan2', a, b)


def sand(a, b):
    if _isbool(a) and _isbool(b):
        return sym_and(a, b)
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        return a & b
    raise EngineLimit('bitwise and of symbolic integers')


def sor(a, b):
    if _isbool(a) and _isbool(b):
        return sym_or(a, b)
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        return a | b
    raise EngineLimit('bitwise or of symbolic integers')


def sxor(a, b):
    if _isbool(a) and _isbool(b):
        return sym_or(sym_and(a, sym_not(b)), sym_and(sym_not(a), b))
    raise EngineLimit('bitwise xor of symbolic integers')


def sinv(a):
    if _isbool(a):
        return sym_not(a)
    if isinstance(a, _bi.int):
        return ~a
    return -lift(a) - 1


def _isbool(x):
    return isinstance(x, (SymBool, _bi.bool, np.bool_))


_UF = {
    'add': _operator.add, 'subtract': _operator.sub, 'multiply': _operator.mul,
    'true_divide': sdiv, 'divide': sdiv, 'floor_divide': sfloordiv, 'remainder': smod, 'mod': smod,
    'power': spow, 'float_power': spow, 'negative': _operator.neg, 'positive': lambda a: a,
    'absolute': sabs, 'fabs': sabs, 'rint': srint, 'floor': sfloor, 'ceil': sceil, 'trunc': strunc,
    'sqrt': ssqrt, 'square': lambda a: a * a, 'exp': sexp, 'cos': sym.cos, 'sin': sym.sin,
    'arccos': sym.acos, 'conjugate': sconj, 'isnan': sisnan, 'log': slog, 'arctan2': sarctan2,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin, 'sign': ssign,
    'less': _operator.lt, 'less_equal': _operator.le, 'greater': _operator.gt,
    'greater_equal': _operator.ge, 'equal': _operator.eq, 'not_equal': _operator.ne,
    'logical_and': lambda a, b: sym_and(sym.to_bool(a), sym.to_bool(b)),
    'logical_or': lambda a, b: sym_or(sym.to_bool(a), sym.to_bool(b)),
    'logical_not': lambda a: sym_not(sym.to_bool(a)),
    'bitwise_and': sand, 'bitwise_or': sor, 'bitwise_xor': sxor, 'invert': sinv,
    'reciprocal': lambda a: sdiv(1, a), 'hypot': lambda a, b: ssqrt(a * a + b * b),
    'isfinite': lambda a: a is not NAN, 'isinf': lambda a: False,
    'degrees': lambda a: lift(a) * 180 / sym.PI(), 'rad2deg': lambda a: lift(a) * 180 / sym.PI(),
    'radians': lambda a: lift(a) * sym.PI() / 180, 'deg2rad': lambda a: lift(a) * sym.PI() / 180,
    'cbrt': lambda a: sym.root(to_real(a), 3),
}
_BOOLUF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
           'logical_or', 'logical_not', 'isnan', 'isfinite', 'isinf'}
_REALUF = {'true_divide', 'divide', 'rint', 'floor', 'ceil', 'trunc', 'sqrt', 'exp', 'cos', 'sin', 'arccos'}
_NARGS = {}
_FP = {}


def _fp(name):
    f = _FP.get(name)
    if f is None:
        uf = getattr(np, name)
        f = _FP[name] = np.frompyfunc(_UF[name], uf.nin, 1)
    return f


def base(x):
    """Base-class view (object dtype) of an argument of a ufunc"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            return _exact_arr(x)
        if x.dtype != _O:
            return x.astype(_O)
        return x
    if isinstance(x, (list, tuple)):
        return base(array(x))
    return exact(x)


def _exact_arr(x):
    out = np.empty(x.shape, dtype=_O)
    for i, v in enumerate(x.flat):
        out.flat[i] = exact(v)
    return out


def wrap(x, kind=None):
    """SArr (or native boolean array) of an object array; scalars pass"""
    if isinstance(x, np.ndarray):
        if x.dtype == _O:
            if x.ndim == 0:
                return x.item()
            if kind == 'b' and all(isinstance(v, (_bi.bool, np.bool_)) for v in x.flat):
                return x.astype(_bi.bool)
            r = x.view(SArr)
            r.kind = kind
            return r
        return x
    return x


class SArr(np.ndarray):
    kind = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if name == 'divide':
            name = 'true_divide'
        out = kw.pop('out', None)
        kw.pop('casting', None)
        dt = kw.pop('dtype', None)
        kw.pop('subok', None)
        where = kw.pop('where', True)
        if where is not True:
            raise EngineLimit('ufunc with where')
        if name == 'matmul':
            return dot(*inputs)
        if name not in _UF:
            raise EngineLimit('numpy.%s of symbolic values' % name)
        ins = [base(x) for x in inputs]
        if method == '__call__':
            r = _fp(name)(*ins, **kw)
            k = 'b' if name in _BOOLUF else None
            if name in _REALUF and isinstance(r, np.ndarray) and r.size == 0:
                k = 'r'
            if out is not None:
                o = out[0]
                if not isinstance(r, np.ndarray):
                    r = np.array(r, dtype=_O)
                if isinstance(o, SArr):
                    ok = kind_of_array(o)
                    rk = kind_of_array(r) if r.size else ok
                    if _KORD[rk] > _KORD[ok]:
                        raise TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'"
                                        % (name, rk, ok))
                    if o.size:
                        np.ndarray.__setitem__(o, Ellipsis, _conv(r, ok))
                    return o
                ok = kind_of_array(o)
                raise EngineLimit('in-place operation of symbolic values into a native array')
            r = wrap(r, k)
            if dt is not None:
                r = astype(r, dt)
            return r
        if method == 'reduce':
            axis = kw.get('axis', 0)
            keep = kw.get('keepdims', False)
            return reduce_(name, ins[0], axis, keep, kw.get('initial', None))
        if method == 'accumulate':
            r = _fp(name).accumulate(ins[0], kw.get('axis', 0), dtype=_O)
            return wrap(r)
        if method == 'outer':
            r = _fp(name).outer(*ins)
            return wrap(r)
        if method == 'at':
            a, idx = inputs[0], inputs[1]
            return add_at(name, a, idx, inputs[2] if len(inputs) > 2 else None)
        raise EngineLimit('ufunc method %s' % method)

    # -- indexing
    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, _index(idx, self))
        if isinstance(r, SArr):
            if r.ndim == 0:
                return r.view(np.ndarray).item()
            r.kind = self.kind
        return r

    def __setitem__(self, idx, v):
        k = kind_of_array(self) if self.kind is None else self.kind
        idx = _index(idx, self)
        if isinstance(v, np.ndarray):
            v = _conv(base(v), k)
        elif isinstance(v, (list, tuple)):
            v = _conv(base(array(v)), k)
        else:
            v = to_kind(exact(v), k) if isnum(v) else v
            if isinstance(v, sym._Nan) or not isinstance(v, (list, tuple)):
                w = np.empty((), dtype=_O)
                w[()] = v
                v = w
        np.ndarray.__setitem__(self, idx, v)

    @property
    def dtype_(self):
        return DType(kind_of_array(self))

    def astype(self, dt, *a, **kw):
        return astype(self, dt)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        r = reduce_('add', self.view(np.ndarray), axis, keepdims, None)
        return r if dtype is None else astype(r, dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('multiply', self.view(np.ndarray), axis, keepdims, None)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return var(self, axis, ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return std(self, axis, ddof=ddof)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_or', self.view(np.ndarray), axis, keepdims, None)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_and', self.view(np.ndarray), axis, keepdims, None)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('minimum', self.view(np.ndarray), axis, keepdims, None)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('maximum', self.view(np.ndarray), axis, keepdims, None)

    def argmin(self, axis=None, out=None, **kw):
        return argext(self, axis, smallest=True)

    def argmax(self, axis=None, out=None, **kw):
        return argext(self, axis, smallest=False)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        self[...] = sort(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis)

    def dot(self, o):
        return dot(self, o)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    @property
    def real(self):
        return _map1(lambda x: x.real if isinstance(x, SymNum) else x, self)

    @property
    def imag(self):
        return _map1(lambda x: x.imag if isinstance(x, SymNum) else (0 if x is not NAN else NAN), self)

    def nonzero(self):
        return nonzero(self)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def clip(self, lo=None, hi=None, out=None, **kw):
        return clip(self, lo, hi)

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return _bi.bool(self.view(np.ndarray).flat[0])
        return np.ndarray.__bool__(self.view(np.ndarray))

    def __int__(self):
        return _bi.int(self.view(np.ndarray).item())

    def __index__(self):
        return _operator.index(self.view(np.ndarray).item())

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def __contains__(self, x):
        return _bi.bool((self == x).any())

    def __truediv__(self, o):
        return np.true_divide(self, o)

    def __rtruediv__(self, o):
        return np.true_divide(o, self)

    def __pow__(self, o):
        return np.power(self, o)

    def __iter__(self):
        if self.ndim == 1:
            return iter(self.view(np.ndarray).tolist())
        return (self[i] for i in range(self.shape[0]))

    def __repr__(self):
        return 'SArr(%s)' % (self.view(np.ndarray).tolist(),)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)


def _map1(f, a):
    out = np.empty(a.shape, dtype=_O)
    b = a.view(np.ndarray)
    for i in np.ndindex(*a.shape):
        out[i] = f(b[i])
    return wrap(out)


def _conv(a, k):
    """Object array with elements converted to kind k"""
    if k == 'o':
        return a
    out = np.empty(a.shape, dtype=_O)
    if a.ndim == 0:
        out[()] = to_kind(a.item() if isinstance(a, np.ndarray) else a, k)
        return out
    for i in np.ndindex(*a.shape):
        out[i] = to_kind(a[i], k)
    return out


def _index(idx, a=None):
    if isinstance(idx, tuple):
        return tuple(_index1(i) for i in idx)
    return _index1(idx)


def _index1(i):
    if isinstance(i, SymNum):
        return _operator.index(i)
    if isinstance(i, SymBool):
        return _bi.bool(i)
    if isinstance(i, SArr):
        k = kind_of_array(i)
        if k == 'b':
            return np.array([_bi.bool(x) for x in i.view(np.ndarray).flat], dtype=_bi.bool).reshape(i.shape)
        if k == 'i' or i.size == 0:
            return np.array([_operator.index(x) for x in i.view(np.ndarray).flat], dtype=np.int64).reshape(i.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, list) and any(isinstance(x, (SymNum, SymBool)) for x in i):
        return _index1(array(i))
    if isinstance(i, slice):
        f = lambda x: x if x is None else _operator.index(x)
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def reduce_(name, a, axis, keep, initial):
    if axis is not None and not isinstance(axis, tuple) and not isinstance(axis, _bi.int):
        axis = _operator.index(axis)
    ident = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True, 'bitwise_or': False,
             'bitwise_and': True}
    if isinstance(axis, tuple):
        axes = sorted((x % a.ndim for x in axis), reverse=True)
        r = a
        for x in axes:
            r = reduce_(name, base(r), x, keep, None)
        return r
    if axis is None:
        items = list(a.flat)
        r = _fold(name, items, ident)
        if keep:
            out = np.empty((1,) * a.ndim, dtype=_O)
            out[(0,) * a.ndim] = r
            return wrap(out)
        return r
    axis = axis % a.ndim
    if a.ndim == 1 and not keep:
        return _fold(name, list(a), ident)
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=_O)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _fold(name, list(m[i]), ident)
    if keep:
        out = np.expand_dims(out, axis)
    return wrap(out, 'b' if name.startswith('logical') else None)


def _fold(name, items, ident):
    f = _UF[name]
    if name in ('logical_or', 'logical_and'):
        items = [sym.to_bool(x) for x in items]
    if not items:
        if name in ident:
            v = ident[name]
            return to_real(v) if name in ('add', 'multiply') else v
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    if name == 'add':
        return psum(items)
    r = items[0]
    if _isbool(r) and name == 'multiply':
        r = lift(r)
    for x in items[1:]:
        r = f(r, x)
    return r


def psum(items):
    """Sum without intermediate polynomials"""
    if any(x is NAN for x in items):
        return NAN
    if all(isinstance(x, (_bi.int, np.integer)) and not isinstance(x, _bi.bool) for x in items):
        return sym.NInt(sum(items))
    p, k = {}, 'i'
    for x in items:
        if isinstance(x, np.ndarray) or not sym._canlift(x):
            r = items[0]
            for y in items[1:]:
                r = r + y
            return r
        x = lift(x)
        k = sym._join(k, x.k)
        for m, c in x.p.items():
            v = p.get(m, 0) + c
            if v == 0:
                p.pop(m, None)
            else:
                p[m] = v
    return sym.mk(p, k)


# ----------------------------------------------------------------------------
# numpy functions

def _flatten(x, out):
    if isinstance(x, np.ndarray):
        out.extend(x.flat)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _flatten(y, out)
    else:
        out.append(x)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    r = _array(x, dtype, copy, None, ndmin, subok)
    if order == 'F' and isinstance(r, np.ndarray) and not r.flags.f_contiguous:
        k = getattr(r, 'kind', None)
        r2 = np.array(r, order='F', subok=True)
        if k is not None:
            r2.kind = k
        return r2
    return r


def _array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    k = dtype_kind(dtype)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            x = x.item()
        else:
            if not isinstance(x, SArr) and x.dtype.kind not in 'fcO' and k in (None, 'i' if x.dtype.kind in 'iu' else k):
                if k in (None, 'o') or (k == 'i' and x.dtype.kind in 'iu') or (k == 'b' and x.dtype.kind == 'b'):
                    return np.array(x, copy=True, ndmin=ndmin)
            b = base(x)
            kk = k or kind_of_array(x)
            out = _conv(b, kk)
            r = out.view(SArr)
            r.kind = kk
            if ndmin > r.ndim:
                r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
            return r
    if isinstance(x, (types.GeneratorType, range, dict().keys().__class__, dict().values().__class__, set)) \
       or type(x).__name__ in ('map', 'zip', 'filter'):
        if isinstance(x, range):
            x = list(x)
        else:
            return np.array(x, dtype=_O)
    if not isinstance(x, (list, tuple)):
        if isinstance(x, (str, bytes)) or not isnum(x):
            return np.array(x)
        v = exact(x)
        if k:
            v = to_kind(v, k)
        out = np.empty((), dtype=_O)
        out[()] = v
        r = out.view(SArr)
        r.kind = k or kind_of(v)
        if ndmin:
            r = r.reshape((1,) * ndmin)
        return r
    flat = []
    _flatten(x, flat)
    if all(isinstance(v, (_bi.int, np.integer, np.bool_)) and not isinstance(v, (SymNum,)) for v in flat) and flat \
       and k in (None, 'i', 'b'):
        return np.array(x, dtype=None if k is None else (np.int64 if k == 'i' else np.bool_), ndmin=ndmin)
    if flat and not all(isnum(v) for v in flat):
        if any(isinstance(v, str) for v in flat):
            if any(isinstance(v, (SymNum, SymBool)) for v in flat):
                raise EngineLimit('array of mixed strings and symbolic numbers')
            return np.array(x)
        return np.array(x, dtype=_O)
    shape = _shape(x)
    out = np.empty(len(flat), dtype=_O)
    kk = k
    if kk is None:
        kk = 'b' if flat else 'r'
        for v in flat:
            t = kind_of(v)
            if _KORD[t] > _KORD[kk]:
                kk = t
    for i, v in enumerate(flat):
        out[i] = to_kind(exact(v), kk)
    r = out.reshape(shape).view(SArr)
    r.kind = kk
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        return (len(x),) + s[0]
    return ()


def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, np.ndarray) and (dtype is None or dtype_kind(dtype) == kind_of_array(x)):
        return x
    return array(x, dtype)


def astype(x, dt):
    k = dtype_kind(dt)
    if not isinstance(x, np.ndarray):
        return to_kind(x, k)
    if k == 'o' and not isinstance(x, SArr):
        return x.astype(dt)
    r = _conv(base(x), k).view(SArr)
    r.kind = k
    return r


def _dims(shape):
    if isinstance(shape, (tuple, list, np.ndarray)):
        return tuple(_operator.index(s) for s in shape)
    return (_operator.index(shape),)


def _filled(shape, v, k, order=None):
    out = np.empty(_dims(shape), dtype=_O, order=order if order in ('C', 'F') else 'C')
    out.fill(v)
    r = out.view(SArr)
    r.kind = k
    return r


def zeros(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or 'r'
    return _filled(shape, to_kind(0, k), k, order)


def ones(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or 'r'
    return _filled(shape, to_kind(1, k), k, order)


def full(shape, v, dtype=None, **kw):
    k = dtype_kind(dtype) or kind_of(v)
    return _filled(shape, to_kind(exact(v), k), k)


def empty(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or 'r'
    if k == 'o':
        return np.empty(_dims(shape), dtype=_O)
    out = np.empty(_dims(shape), dtype=_O, order=order if order in ('C', 'F') else 'C')
    for i in np.ndindex(*out.shape):
        g = sym.fresh_garbage()
        out[i] = SymNum(g.p, k if k != 'b' else 'i')
    r = out.view(SArr)
    r.kind = k
    return r


def zeros_like(a, dtype=None, **kw):
    a = asarray(a)
    return zeros(a.shape, dtype if dtype is not None else DType(kind_of_array(a)))


def ones_like(a, dtype=None, **kw):
    a = asarray(a)
    return ones(a.shape, dtype if dtype is not None else DType(kind_of_array(a)))


def empty_like(a, dtype=None, **kw):
    a = asarray(a)
    return empty(a.shape, dtype if dtype is not None else DType(kind_of_array(a)))


def full_like(a, v, dtype=None, **kw):
    a = asarray(a)
    return full(a.shape, v, dtype if dtype is not None else DType(kind_of_array(a)))


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __call__(cls, shape, dtype=None, *a, **kw):
        return empty(shape, dtype)


class ndarray(metaclass=_NdMeta):
    pass


class _NpMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, np.ndarray):
            return False
        if isinstance(x, SymNum):
            return x.k in cls._ks
        return isinstance(x, cls._np)

    def __call__(cls, x=0, *a):
        if isinstance(x, (list, tuple, np.ndarray)):
            return array(x, cls)
        if isinstance(x, str):
            x = Float(x) if cls._k == 'r' else (Complex(x) if cls._k == 'c' else _bi.int(x))
        return to_kind(exact(x), cls._k)


class _NpScalar(metaclass=_NpMeta):
    _k = 'r'
    _ks = 'r'
    _np = np.floating


def _mkscalar(name, k, ks, npt):
    return _NpMeta(name, (_NpScalar,), {'_k': k, '_ks': ks, '_np': npt})


# ---- builtins

class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == 'i'
        return isinstance(x, _bi.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _bi.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray):
            x = x.item()
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymNum):
            if x.k == 'c':
                raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
            return sym.trunc(x)
        if x is NAN:
            raise ValueError('cannot convert float NaN to integer')
        if isinstance(x, Fraction):
            return _bi.int(x)
        return _bi.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is _bi.int

    def __hash__(cls):
        return hash(_bi.int)


class Int(metaclass=_IntMeta):
    from_bytes = _bi.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == 'r'
        return x is NAN or isinstance(x, _bi.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, _bi.float)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray):
            x = x.item()
        if isinstance(x, str):
            v = sym.fromtext(x)
            if v is not None:
                return to_real(v)
            f = _bi.float(x)      # same errors
            if f != f:
                return NAN
            if f in (_math.inf, -_math.inf):
                return f
            return real_const(Fraction(x.strip()))
        if isinstance(x, (_bi.float, np.floating)) and (x in (_math.inf, -_math.inf)):
            return x
        if not isnum(x):
            return exact(_bi.float(x))
        return to_real(exact(x))

    def __eq__(cls, o):
        return o is cls or o is _bi.float

    def __hash__(cls):
        return hash(_bi.float)


class Float(metaclass=_FloatMeta):
    pass


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == 'c'
        return isinstance(x, _bi.complex)

    def __call__(cls, re=0, im=0):
        if isinstance(re, str):
            return to_complex(exact(_bi.complex(re)))
        return to_complex(lift(re) + lift(im) * sym.IM())


class Complex(metaclass=_ComplexMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_bi.bool, SymBool))

    def __call__(cls, x=False):
        return _bi.bool(x)


class Bool(metaclass=_BoolMeta):
    pass


# ---- shape functions: numpy's own on base arrays

def _pass(name):
    f = getattr(np, name)

    def g(*a, **kw):
        a = [_unwrap(x) for x in a]
        kw = {k: _unwrap(v) for k, v in kw.items()}
        r = f(*a, **kw)
        return _rewrap(r)
    g.__name__ = name
    return g


def _unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
        return _exact_arr(x)
    if isinstance(x, SymNum) and x.k == 'i':
        return _operator.index(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (SymNum, SymBool, sym._Nan, _bi.float)) for y in x):
            return array(x).view(np.ndarray)
        return type(x)(_unwrap(y) for y in x) if not hasattr(x, '_fields') else x
    return x


def _rewrap(r):
    if isinstance(r, (tuple, list)):
        return type(r)(_rewrap(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype == _O and r.ndim > 0:
        return r.view(SArr)
    if isinstance(r, np.ndarray) and r.dtype == _O:
        return r.item()
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fc':
        return _exact_arr(r).view(SArr)
    if isinstance(r, (np.integer,)):
        return _bi.int(r)
    return r


_PASS = ['concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'dstack', 'transpose', 'reshape', 'ravel',
         'repeat', 'tile', 'roll', 'flip', 'fliplr', 'flipud', 'expand_dims', 'squeeze', 'swapaxes', 'moveaxis',
         'atleast_1d', 'atleast_2d', 'append', 'split', 'array_split', 'triu_indices', 'tril_indices', 'diag',
         'meshgrid', 'broadcast_to', 'broadcast_arrays', 'ix_', 'indices', 'ndindex', 'ndim', 'shape', 'size',
         'delete', 'insert', 'ndenumerate', 'take', 'diagonal', 'trace', 'iterable', 'isscalar', 'rollaxis',
         'unravel_index', 'ravel_multi_index', 'kron', 'fill_diagonal', 'may_share_memory', 'shares_memory',
         'triu_indices_from', 'resize', 'eye', 'identity']


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, types.GeneratorType):
        return psum(list(a))
    return _asarr(a).sum(axis=axis, keepdims=keepdims)


def _asarr(a):
    a = asarray(a)
    if not isinstance(a, SArr) and a.dtype.kind in 'iubfcO':
        b = base(a).view(SArr)
        b.kind = kind_of_array(a)
        return b
    return a


def prod(a, axis=None, **kw):
    return _asarr(a).prod(axis=axis)


def any_(a, axis=None, **kw):
    return _asarr(a).any(axis=axis)


def all_(a, axis=None, **kw):
    return _asarr(a).all(axis=axis)


def amin(a, axis=None, **kw):
    return _asarr(a).min(axis=axis)


def amax(a, axis=None, **kw):
    return _asarr(a).max(axis=axis)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = _asarr(a)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
    else:
        n = a.shape[axis]
    s = a.sum(axis=axis, keepdims=keepdims)
    if n == 0:
        return NAN if not isinstance(s, np.ndarray) else _map1(lambda x: NAN, s)
    return _sdiv_any(s, n)


def _sdiv_any(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.true_divide(a if isinstance(a, SArr) else (base(a).view(SArr) if isinstance(a, np.ndarray) else a), b)
    return sdiv(a, b)


def average(a, axis=None, weights=None, returned=False, **kw):
    a = _asarr(a)
    if weights is None:
        return mean(a, axis)
    w = _asarr(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    s = np.multiply(a, w).sum(axis=axis)
    tot = np.multiply(ones(a.shape), w).sum(axis=axis)
    return _sdiv_any(s, tot)


def var(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    a = _asarr(a)
    m = mean(a, axis, keepdims=axis is not None)
    d = a - m
    d = d * np.conjugate(d) if kind_of_array(a) == 'c' else d * d
    n = a.size if axis is None else a.shape[axis]
    s = d.sum(axis=axis)
    return _sdiv_any(s.real if kind_of_array(a) == 'c' else s, n - ddof)


def std(a, axis=None, ddof=0, **kw):
    v = var(a, axis, ddof=ddof)
    return np.sqrt(v) if isinstance(v, np.ndarray) else ssqrt(v)


def median(a, axis=None, **kw):
    if axis is not None:
        raise EngineLimit('median along an axis')
    s = sort(_asarr(a).ravel()).tolist()
    n = len(s)
    if n % 2:
        return to_real(s[n // 2])
    return (lift(s[n // 2 - 1]) + lift(s[n // 2])) / 2


def cumsum(a, axis=None, **kw):
    a = _asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.add.accumulate(a, axis)


def cumprod(a, axis=None, **kw):
    a = _asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.multiply.accumulate(a, axis)


def diff(a, n=1, axis=-1, **kw):
    a = _asarr(a)
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = a[1:] - a[:-1]
        a = np.moveaxis(a, 0, axis)
    return a


def dot(a, b, out=None):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        return np.multiply(a, b) if isinstance(b, np.ndarray) else a * b
    a, b = _asarr(a), _asarr(b)
    if b.ndim == 0:
        return a * b.item()
    A, Bm = a.view(np.ndarray), b.view(np.ndarray)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        return psum([x * y for x, y in zip(A, Bm)])
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=_O)
        for i in np.ndindex(*out.shape):
            out[i] = psum([x * y for x, y in zip(A[i], Bm)])
        return wrap(out)
    if a.ndim == 1:
        return dot(np.moveaxis(b, -2, -1), a)
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=_O)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = psum([A[i, k] * Bm[k, j] for k in range(a.shape[1])])
        return wrap(out)
    raise EngineLimit('dot of high dimensional arrays')


def vdot(a, b):
    return dot(np.conjugate(_asarr(a).ravel()), _asarr(b).ravel())


def inner(a, b):
    a, b = _asarr(a), _asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, np.moveaxis(b, -1, 0)) if b.ndim > 1 else dot(a, b)


def outer(a, b, out=None):
    a, b = _asarr(a).ravel(), _asarr(b).ravel()
    return np.multiply(a[:, np.newaxis], b[np.newaxis, :])


def tensordot(a, b, axes=2):
    a, b = _asarr(a), _asarr(b)
    if isinstance(axes, (_bi.int, np.integer)):
        na = list(_bi.range(a.ndim - _bi.int(axes), a.ndim))
        nb = list(_bi.range(_bi.int(axes)))
    else:
        na, nb = axes
        na = [na] if isinstance(na, (_bi.int, np.integer)) else list(na)
        nb = [nb] if isinstance(nb, (_bi.int, np.integer)) else list(nb)
    na = [i % a.ndim for i in na]
    nb = [i % b.ndim for i in nb]
    if len(na) != len(nb) or [a.shape[i] for i in na] != [b.shape[i] for i in nb]:
        raise ValueError('shape-mismatch for sum')
    fa = [i for i in _bi.range(a.ndim) if i not in na]
    fb = [i for i in _bi.range(b.ndim) if i not in nb]
    A = np.transpose(a.view(np.ndarray), fa + na)
    Bm = np.transpose(b.view(np.ndarray), fb + nb)
    out = np.empty(tuple(a.shape[i] for i in fa) + tuple(b.shape[i] for i in fb), dtype=_O)
    inner_ = list(np.ndindex(*(a.shape[i] for i in na)))
    for i in np.ndindex(*out.shape):
        ia, ib = i[:len(fa)], i[len(fa):]
        out[i] = psum([A[ia + j] * Bm[ib + j] for j in inner_])
    return wrap(out)


def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ops = [_asarr(o) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise EngineLimit('einsum with ellipsis')
    size = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            size[c] = n
    inner_ = [c for c in size if c not in out]
    res = np.empty(tuple(size[c] for c in out), dtype=_O)
    vs = [o.view(np.ndarray) for o in ops]
    for i in np.ndindex(*res.shape):
        e = dict(zip(out, i))
        terms = []
        for j in np.ndindex(*(size[c] for c in inner_)):
            e.update(zip(inner_, j))
            t = None
            for s, v in zip(ins, vs):
                x = v[tuple(e[c] for c in s)]
                t = x if t is None else t * x
            terms.append(t)
        res[i] = psum(terms)
    if res.ndim == 0:
        return res.item()
    return wrap(res)


def cross(a, b, **kw):
    raise EngineLimit('cross')


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise EngineLimit('norm')
    x = _asarr(x)
    y = x * np.conjugate(x) if kind_of_array(x) == 'c' else x * x
    s = y.sum(axis=axis, keepdims=keepdims)
    return np.sqrt(s) if isinstance(s, np.ndarray) else ssqrt(s)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    if not isinstance(c, np.ndarray):
        c = asarray(c)
    arrs = np.broadcast_arrays(base(c), *[np.array(base(v), dtype=_O) if not isinstance(base(v), np.ndarray) else base(v)
                                          for v in (a, b)])
    out = np.empty(arrs[0].shape, dtype=_O)
    for i in np.ndindex(*out.shape):
        out[i] = ite(sym.to_bool(arrs[0][i]), arrs[1][i], arrs[2][i])
    return wrap(out)


def nonzero(c):
    c = asarray(c)
    if isinstance(c, SArr):
        c = np.array([_bi.bool(sym.to_bool(x)) for x in c.view(np.ndarray).flat], dtype=_bi.bool).reshape(c.shape)
    return np.nonzero(c)


def flatnonzero(c):
    return nonzero(_asarr(c).ravel())[0]


def argwhere(c):
    return np.transpose(nonzero(c))


def count_nonzero(c, axis=None, **kw):
    c = _asarr(c)
    return _map1(lambda x: sym.to_bool(x), c).sum(axis=axis) + 0


def compress(c, a, axis=None):
    return a[asarray(c)] if axis in (None, 0) else a.compress(c, axis)


def select(*a, **kw):
    raise EngineLimit('select')


def clip(a, lo, hi, out=None, **kw):
    r = a
    if lo is not None:
        r = np.maximum(r, lo) if isinstance(r, np.ndarray) else smax(exact(r), exact(lo))
    if hi is not None:
        r = np.minimum(r, hi) if isinstance(r, np.ndarray) else smin(exact(r), exact(hi))
    return r


def around(a, decimals=0, out=None):
    if decimals == 0:
        return np.rint(a) if isinstance(a, np.ndarray) else srint(a)
    s = Fraction(10) ** decimals
    return rint(a * lift(s)) / lift(s)


def argext(a, axis, smallest):
    a = _asarr(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(m.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*out.shape):
            out[i] = argext(m[i].view(SArr), None, smallest)
        return out
    x = list(a.view(np.ndarray).flat)
    if not x:
        raise ValueError('attempt to get argmin of an empty sequence')
    best = 0
    for i in range(1, len(x)):
        if _bi.bool(x[i] < x[best] if smallest else x[i] > x[best]):
            best = i
    return best


def _cmpsort(items):
    """Stable insertion sort by branching comparisons, returns the permutation"""
    order = []
    for i, x in enumerate(items):
        j = len(order)
        while j > 0 and _bi.bool(x < items[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def argsort(a, axis=-1, **kw):
    a = _asarr(a)
    if a.ndim == 1:
        return np.array(_cmpsort(a.view(np.ndarray).tolist()), dtype=np.int64)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(m.shape, dtype=np.int64)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _cmpsort(list(m[i]))
    return np.moveaxis(out, -1, axis)


def sort(a, axis=-1, **kw):
    a = _asarr(a)
    if a.dtype.kind in 'US':
        return np.sort(a)
    if a.ndim == 1:
        x = a.view(np.ndarray).tolist()
        return wrap(_objs([x[i] for i in _cmpsort(x)]))
    raise EngineLimit('sort of multidimensional arrays')


def _objs(x):
    out = np.empty(len(x), dtype=_O)
    for i, v in enumerate(x):
        out[i] = v
    return out


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a0 = asarray(a)
    if not isinstance(a0, SArr):
        return np.unique(a0, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
    x = a0.view(np.ndarray).ravel().tolist()
    order = _cmpsort(x)
    vals, idx, cnt, inv = [], [], [], [0] * len(x)
    for i in order:
        if vals and _bi.bool(x[i] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(x[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    out = (wrap(_objs(vals)),)
    if return_index:
        out += (np.array(idx),)
    if return_inverse:
        out += (np.array(inv),)
    if return_counts:
        out += (np.array(cnt),)
    return out if len(out) > 1 else out[0]


def in1d(a, b, **kw):
    a, b = _asarr(a), _asarr(b)
    return wrap(_objs([sym_or(*[x == y for y in b.flat]) for x in a.flat]), 'b')


def histogram(a, bins=10, range=None, density=None, weights=None):
    a = _asarr(a).ravel()
    if not isinstance(bins, (np.ndarray, list, tuple)):
        n = _operator.index(bins)
        if range is None:
            if a.size == 0:
                lo, hi = real_const(0), real_const(1)
            else:
                lo, hi = a.min(), a.max()
        else:
            lo, hi = [to_real(exact(v)) for v in range]
        edges = [lo + (hi - lo) * lift(Fraction(i, n)) for i in _bi.range(n + 1)]
    else:
        edges = [exact(v) for v in asarray(bins).ravel().tolist()] if not isinstance(bins, SArr) \
            else bins.view(np.ndarray).ravel().tolist()
        ok = sym_and(*[edges[i] <= edges[i + 1] for i in _bi.range(len(edges) - 1)])
        if not _bi.bool(ok):
            raise ValueError('`bins` must increase monotonically, when an array')
    n = len(edges) - 1
    w = None if weights is None else _asarr(weights).ravel()
    cols = [[] for _ in _bi.range(n)]
    for j, x in enumerate(a.view(np.ndarray).tolist()):
        if x is NAN:
            continue
        ge = [sym.to_bool(x >= e) for e in edges[:-1]]
        last = sym.to_bool(x <= edges[-1])
        for i in _bi.range(n):
            # nested thresholds: x in [e_i, e_i+1[
            hi = sym_not(ge[i + 1]) if i + 1 < n else last
            lo_p = lift(ge[i])
            if i + 1 < n:
                v = lo_p - lift(ge[i + 1]) if True else None
            else:
                v = lift(sym_and(ge[i], last))
            if w is not None:
                v = v * w[j]
            cols[i].append(v)
    counts = [psum(c) if c else (0 if w is None else real_const(0)) for c in cols]
    if density:
        raise EngineLimit('histogram density')
    r = wrap(_objs(counts))
    r.kind = 'i' if w is None else 'r'
    e = wrap(_objs(edges))
    return r, e


def digitize(x, bins, right=False):
    xs = _asarr(x)
    b = _asarr(bins).view(np.ndarray).tolist()

    def f(v):
        return psum([lift(sym.to_bool((v > e) if right else (v >= e))) for e in b])
    if xs.ndim == 0:
        return f(xs.item())
    return _map1(f, xs)


def searchsorted(a, v, side='left', sorter=None):
    b = _asarr(a).view(np.ndarray).tolist()

    def f(x):
        return psum([lift(sym.to_bool((e < x) if side == 'left' else (e <= x))) for e in b])
    if not isinstance(v, (np.ndarray, list, tuple)):
        return f(exact(v))
    return _map1(f, _asarr(v))


def bincount(x, weights=None, minlength=0):
    xs = _asarr(x).view(np.ndarray).tolist()
    w = None if weights is None else _asarr(weights).view(np.ndarray).tolist()
    n = minlength
    for v in xs:
        n = _bi.max(n, _operator.index(v) + 1)
    out = [0 if w is None else real_const(0)] * n
    for i, v in enumerate(xs):
        out[_operator.index(v)] = out[_operator.index(v)] + (1 if w is None else w[i])
    r = wrap(_objs(out))
    r.kind = 'i' if w is None else 'r'
    return r


def add_at(name, a, idx, v):
    idx = _index(idx)
    f = _UF[name]
    ii = np.atleast_1d(np.asarray(idx))
    if ii.ndim != 1 or a.ndim != 1:
        raise EngineLimit('ufunc.at')
    vv = None if v is None else np.broadcast_to(np.asarray(base(v), dtype=_O), ii.shape)
    for n, i in enumerate(ii):
        a[i] = f(a[i], vv[n])


def interp(*a, **kw):
    raise EngineLimit('interp')


def linspace(a, b, num=50, endpoint=True, **kw):
    num = _operator.index(num)
    d = num - 1 if endpoint else num
    a, b = to_real(exact(a)), to_real(exact(b))
    return array([a + (b - a) * lift(Fraction(i, d)) if d else a for i in range(num)], Float)


def arange(*a, **kw):
    if all(isinstance(x, (_bi.int, np.integer)) for x in a) and dtype_kind(kw.get('dtype')) in (None, 'i'):
        return np.arange(*a)
    a = [exact(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else ((a[0], a[1], 1) if len(a) == 2 else a)
    n = _operator.index(sym.mk(lift(-lift(sym.floor((lift(lo) - lift(hi)) / lift(st)))).p, 'i'))
    r = array([lo + st * i for i in range(_bi.max(0, n))], kw.get('dtype'))
    return r


def allclose(a, b, rtol=None, atol=None, **kw):
    rtol = real_const(Fraction(1, 10**5)) if rtol is None else rtol
    atol = real_const(Fraction(1, 10**8)) if atol is None else atol
    return _bi.bool(all_(isclose(a, b, rtol, atol)))


def isclose(a, b, rtol=None, atol=None, **kw):
    rtol = real_const(Fraction(1, 10**5)) if rtol is None else rtol
    atol = real_const(Fraction(1, 10**8)) if atol is None else atol
    a, b = (_asarr(x) if isinstance(x, (np.ndarray, list, tuple)) else lift(x) for x in (a, b))
    return abs(a - b) <= atol + rtol * abs(b)


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'US' or b.dtype.kind in 'US':
        return np.array_equal(a, b)
    return _bi.bool(all_(_asarr(a) == _asarr(b)))


def real(a):
    return a.real if hasattr(a, 'real') else array(a).real


def imag(a):
    return a.imag if hasattr(a, 'imag') else array(a).imag


def isscalar(x):
    return isinstance(x, (SymNum, SymBool)) or np.isscalar(x)


def asfortranarray(a, dtype=None):
    a = asarray(a, dtype)
    return a


def ascontiguousarray(a, dtype=None):
    return asarray(a, dtype)


def copy(a, *k, **kw):
    return array(a)


def op_mod(a, b):
    if isinstance(a, str):
        return sym.percent(a, b)
    return a % b


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
    X = asarray(X)
    if X.ndim == 0 or X.ndim > 2:
        raise ValueError('Expected 1D or 2D array, got %dD array instead' % X.ndim)
    rows = [list(r) if X.ndim == 2 else [r] for r in X]
    if isinstance(fname, str) or hasattr(fname, '__fspath__'):
        with _bi.open(fname, 'w') as fh:
            return savetxt(fh, X, fmt, delimiter, newline, header, footer, comments)
    if header:
        fname.write(comments + header.replace('\n', '\n' + comments) + newline)
    for r in rows:
        if isinstance(fmt, (list, tuple)):
            fname.write(delimiter.join(sym.percent(f, (x,)) for f, x in _bi.zip(fmt, r)) + newline)
        elif fmt.count('%') == 1:
            fname.write(delimiter.join(sym.percent(fmt, (x,)) for x in r) + newline)
        else:
            fname.write(sym.percent(fmt, tuple(r)) + newline)
    if footer:
        fname.write(comments + footer.replace('\n', '\n' + comments) + newline)


def loadtxt(fname, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0,
            **kw):
    if converters is not None or kw or dtype not in (float, Float, np.float64):
        raise EngineLimit('loadtxt with options')
    if isinstance(fname, str) or hasattr(fname, '__fspath__'):
        with _bi.open(fname) as fh:
            lines = list(fh)
    else:
        lines = list(fname)
    rows = []
    for line in lines[skiprows:]:
        line = line.split(comments)[0].strip()
        if not line:
            continue
        x = line.split(delimiter)
        if usecols is not None:
            x = [x[i] for i in ([usecols] if isinstance(usecols, _bi.int) else usecols)]
        if rows and len(x) != len(rows[0]):
            raise ValueError('the number of columns changed')
        rows.append([number_of(t) for t in x])
    if not rows:
        X = zeros((0,))
    else:
        X = array(rows)
        if X.ndim == 2 and X.shape[1] == 1 and ndmin < 2:
            X = X[:, 0]
        elif X.ndim == 2 and X.shape[0] == 1 and ndmin < 2:
            X = X[0]
    if unpack and X.ndim == 2:
        return X.T
    return X


def number_of(text):
    x = sym.fromtext(text)
    if x is not None:
        return to_real(x)
    v = _bi.float(text)
    if v != v:
        return sym.NAN
    return real_const(Fraction(text)) if v not in (_bi.float('inf'), -_bi.float('inf')) else v


def fromiter(it, dtype, count=-1, **kw):
    return array(list(it), dtype)


def vectorize(f, *a, **kw):
    raise EngineLimit('vectorize')


def apply_along_axis(*a, **kw):
    raise EngineLimit('apply_along_axis')


def isreal(x):
    return True


def nansum(a, **kw):
    raise EngineLimit('nansum')


def can_cast(*a, **kw):
    raise EngineLimit('can_cast')


class _Errstate(object):
    def __init__(self, *a, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _ufunc(name):
    uf = getattr(np, name)

    class U(object):
        __name__ = name
        nin = uf.nin

        def __call__(self, *a, **kw):
            args = []
            for x in a[:uf.nin]:
                if isinstance(x, (list, tuple)):
                    x = array(x)
                args.append(x)
            if not any(isinstance(x, np.ndarray) for x in args):
                if all(isinstance(x, str) for x in args):
                    return uf(*args)
                if not all(isnum(x) for x in args):
                    return uf(*args)
                return _UF[name](*[exact(x) for x in args])
            nat = all(isinstance(x, (np.ndarray, _bi.int, np.integer, _bi.bool, str, np.str_)) and
                      not isinstance(x, SArr) and
                      (not isinstance(x, np.ndarray) or x.dtype.kind in 'iubUS') for x in args)
            if nat and name not in _REALUF and name not in ('power', 'degrees', 'reciprocal'):
                return uf(*args, *a[uf.nin:], **kw)
            args = [x if not isinstance(x, np.ndarray) or isinstance(x, SArr) else base(x).view(SArr) for x in args]
            return uf(*args, *a[uf.nin:], **kw)

        def reduce(self, a, axis=0, **kw):
            return reduce_(name, base(asarray(a)), axis, kw.get('keepdims', False), None)

        def accumulate(self, a, axis=0, **kw):
            return uf.accumulate(_asarr(a), axis)

        def outer(self, a, b):
            return uf.outer(_asarr(a), _asarr(b))

        def at(self, a, idx, v=None):
            if not isinstance(a, SArr):
                return uf.at(a, idx, v)
            return add_at(name, a, idx, v)
    return U()


def build_numpy():
    m = types.ModuleType('numpy')
    m.__path__ = []
    g = globals()
    for n in _PASS:
        setattr(m, n, _pass(n))
    for n in _UF:
        setattr(m, n, _ufunc(n))
    m.abs = m.absolute
    m.conj = m.conjugate
    m.acos = m.arccos
    m.product = prod        # numpy 1.26 still has it
    for n in ['array', 'asarray', 'zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'empty_like',
              'full_like', 'prod', 'amin', 'amax', 'mean', 'average', 'var', 'std', 'median', 'cumsum', 'cumprod',
              'diff', 'dot', 'vdot', 'inner', 'outer', 'tensordot', 'einsum', 'cross', 'where', 'nonzero',
              'flatnonzero', 'argwhere', 'count_nonzero', 'compress', 'select', 'clip', 'around', 'argsort', 'sort',
              'unique', 'in1d', 'histogram', 'digitize', 'searchsorted', 'bincount', 'interp', 'linspace', 'arange',
              'allclose', 'isclose', 'array_equal', 'real', 'imag', 'isscalar', 'asfortranarray',
              'ascontiguousarray', 'copy', 'savetxt', 'loadtxt', 'fromiter', 'vectorize', 'apply_along_axis',
              'ndarray', 'isreal', 'nansum', 'can_cast']:
        setattr(m, n, g[n])
    m.asanyarray = asarray
    m.sum, m.any, m.all, m.min, m.max = sum_, any_, all_, amin, amax
    m.round = m.round_ = around
    m.isin = in1d
    m.matmul = dot
    m.argmin = lambda a, axis=None: argext(a, axis, True)
    m.argmax = lambda a, axis=None: argext(a, axis, False)
    m.pi = None       # set below as a property-like constant
    m.inf, m.nan, m.newaxis = _math.inf, NAN, None
    m.NaN = NAN
    m.errstate = _Errstate
    m.seterr = lambda **kw: {}
    for n, k, ks, t in [('float64', 'r', 'r', np.float64), ('float32', 'r', 'r', np.float32),
                        ('int32', 'i', 'i', np.int32), ('int64', 'i', 'i', np.int64),
                        ('intp', 'i', 'i', np.intp), ('int8', 'i', 'i', np.int8), ('int16', 'i', 'i', np.int16),
                        ('uint8', 'i', 'i', np.uint8), ('uint32', 'i', 'i', np.uint32),
                        ('uint64', 'i', 'i', np.uint64),
                        ('complex128', 'c', 'c', np.complex128), ('complex64', 'c', 'c', np.complex64),
                        ('bool_', 'b', 'b', np.bool_), ('floating', 'r', 'r', np.floating),
                        ('integer', 'i', 'i', np.integer), ('number', 'r', 'irc', np.number),
                        ('generic', 'r', 'irc', np.generic), ('double', 'r', 'r', np.float64),
                        ('longdouble', 'r', 'r', np.longdouble), ('single', 'r', 'r', np.float32),
                        ('cdouble', 'c', 'c', np.complex128), ('intc', 'i', 'i', np.intc),
                        ('int_', 'i', 'i', np.int_), ('float_', 'r', 'r', np.float64),
                        ('complex_', 'c', 'c', np.complex128)]:
        setattr(m, n, _mkscalar(n, k, ks, t))
    m.str_, m.character, m.object_ = np.str_, np.character, np.object_
    m.dtype = lambda x, *a: DType(dtype_kind(x)) if not isinstance(x, str) or dtype_kind(x) != 'o' else np.dtype(x)
    m.ndarray = ndarray
    m.ufunc = np.ufunc
    m.finfo = np.finfo
    m.iinfo = np.iinfo
    m.set_printoptions = np.set_printoptions
    m.testing = np.testing
    la = types.ModuleType('numpy.linalg')
    la.norm = norm
    m.linalg = la
    rnd = types.ModuleType('numpy.random')
    m.random = rnd
    m.__version__ = np.__version__
    m.VisibleDeprecationWarning = getattr(np, 'VisibleDeprecationWarning', Warning)

    def missing(n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np, n):
            raise AttributeError("module 'numpy' has no attribute '%s'" % n)
        raise EngineLimit('numpy.%s is not modelled' % n)
    m.__getattr__ = missing

    def la_missing(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineLimit('numpy.linalg.%s is not modelled' % n)
    la.__getattr__ = la_missing
    rnd.__getattr__ = la_missing
    return m


def rint(a):
    return np.rint(a) if isinstance(a, np.ndarray) else srint(exact(a))


def build_math():
    m = types.ModuleType('math')

    def one(x):
        if isinstance(x, np.ndarray):
            x = x.item()
        x = exact(x)
        if kind_of(x) == 'c':
            raise TypeError('must be real number, not complex')
        return x
    m.sqrt = lambda x: sym.sqrt(to_real(one(x)), raises=True)
    m.exp = lambda x: sym.cexp(to_real(one(x)))
    m.cos = lambda x: sym.cos(one(x))
    m.sin = lambda x: sym.sin(one(x))
    m.acos = lambda x: sym.acos(one(x))
    m.log = lambda x: slog(one(x))
    m.floor = lambda x: sym.floor(one(x))
    m.ceil = lambda x: -lift(sym.floor(-lift(one(x)))) if not isinstance(one(x), _bi.int) else one(x)
    m.trunc = lambda x: sym.trunc(one(x))
    m.fabs = lambda x: abs(to_real(one(x)))
    m.pow = lambda x, y: spow(to_real(one(x)), exact(y))
    m.hypot = lambda *a: sym.sqrt(psum([to_real(x) * to_real(x) for x in a]))
    m.dist = lambda a, b: sym.sqrt(psum([(x - y) * (x - y) for x, y in zip(a, b)]))
    m.fsum = lambda a: to_real(psum([exact(x) for x in a]))
    m.prod = lambda a: _fold('multiply', [exact(x) for x in a], {'multiply': 1})
    m.isnan = lambda x: x is NAN
    m.isinf = lambda x: isinstance(x, _bi.float) and _math.isinf(x)
    m.isfinite = lambda x: x is not NAN
    m.isclose = lambda a, b, rel_tol=None, abs_tol=0: isclose(a, b)
    m.radians = lambda x: lift(x) * sym.PI() / 180
    m.degrees = lambda x: lift(x) * 180 / sym.PI()
    m.gcd, m.factorial, m.inf, m.nan, m.comb = _math.gcd, _math.factorial, _math.inf, NAN, _math.comb
    m.isqrt = _math.isqrt

    def gamma(x):
        x = lift(one(x))
        c = sym.constval(x.p)
        if not sym.isconst(x.p):
            raise EngineLimit('gamma')
        if c.denominator == 1:
            return real_const(_math.factorial(_bi.int(c) - 1))
        if c.denominator == 2:
            # Gamma(n + 1/2) = sqrt(pi) (2n)!/(4^n n!)
            n = _bi.int(c - Fraction(1, 2))
            v = Fraction(_math.factorial(2 * n), 4 ** n * _math.factorial(n))
            return sym.sqrt(sym.PI()) * lift(v)
        raise EngineLimit('gamma')
    m.gamma = gamma

    def missing(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineLimit('math.%s is not modelled' % n)
    m.__getattr__ = missing
    return m


# ----------------------------------------------------------------------------
# operators the loader redirects

def op_div(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, SArr) or isinstance(b, SArr):
            return _operator.truediv(a, b)
        a = base(a).view(SArr) if isinstance(a, np.ndarray) else a
        b = base(b).view(SArr) if isinstance(b, np.ndarray) else b
        return np.true_divide(a, b)
    if isnum(a) and isnum(b):
        if isinstance(a, _bi.float) and isinstance(b, (_bi.float, _bi.int)) and b:
            if a in (_math.inf, -_math.inf):
                return a / b
        return _scalar_div(exact(a), exact(b))
    return a / b


class _PyDiv(object):
    npz = False


def _scalar_div(a, b):
    """Python scalar division; native zero divisors raise, numpy's give nan"""
    if isinstance(b, (_bi.int, _bi.bool)) and b == 0:
        if isinstance(a, (_bi.int, _bi.bool)):
            raise ZeroDivisionError('division by zero')
    return sym.div(lift(a), lift(b))


def op_pow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, SArr) or isinstance(b, SArr):
            return a ** b
        if isinstance(a, np.ndarray) and isinstance(b, _bi.int) and b >= 0:
            return a ** b
        a = base(a).view(SArr) if isinstance(a, np.ndarray) else a
        return np.power(a, b)
    if isnum(a) and isnum(b):
        return spow(exact(a), exact(b))
    return a ** b


def op_idiv(a, b):
    if isinstance(a, SArr):
        a /= b
        return a
    return op_div(a, b)


def op_ipow(a, b):
    if isinstance(a, SArr):
        a **= b
        return a
    return op_pow(a, b)


def py_round(x, n=None):
    if isinstance(x, np.ndarray):
        return around(x, n or 0)
    return _bi.round(x, n) if n is not None else _bi.round(x)


def py_sum(x, start=0):
    x = list(x)
    if x and all(isnum(v) for v in x) and isnum(start):
        return psum([exact(v) for v in [start] + x]) if not (isinstance(start, _bi.int) and start == 0) else psum([exact(v) for v in x])
    return _bi.sum(x, start)
