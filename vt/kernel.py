"""
The Fortran kernels as seen from Python: f2py's argument conventions on top of
the GIMPLE interpreter.  Both the GIMPLE and the argument intents are derived
from the current .f90 source.
"""

import contextlib
import hashlib
import io
import os
import re
import sys
import types

import numpy as np

from . import sym
from . import shims
from . import gimple
from .sym import EngineLimit, SymNum

_CACHE = {}


def _crack(path):
    from numpy.f2py import crackfortran as c
    c.verbose = 0
    c.quiet = 1
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r = c.crackfortran([path])
    return r


def load(path):
    with open(path, 'rb') as fh:
        key = (path, hashlib.sha256(fh.read()).hexdigest())
    if key not in _CACHE:
        _CACHE[key] = (gimple.dump(path), _crack(path))
    text, blocks = _CACHE[key]
    return gimple.Module(gimple.parse(text)), blocks


def preload(repo):
    """Fill the cache before forking"""
    for n in ('realspace', 'fourierspace'):
        p = os.path.join(repo, 'atooms', 'postprocessing', n + '.f90')
        try:
            with open(p, 'rb') as fh:
                key = (p, hashlib.sha256(fh.read()).hexdigest())
            if key not in _CACHE:
                _CACHE[key] = (gimple.dump(p), _crack(p))
        except (EngineLimit, OSError):
            pass


def install(loader):
    for n in ('realspace', 'fourierspace'):
        path = os.path.join(loader.repo, 'atooms', 'postprocessing', n + '.f90')
        name = 'atooms.postprocessing.%s_wrap' % n
        if not os.path.isfile(path):
            continue
        loader.files[name] = path
        m = types.ModuleType(name)
        m.__file__ = path
        try:
            mod, blocks = load(path)
        except EngineLimit as e:
            msg = str(e)

            def missing(attr, msg=msg):
                if attr.startswith('__'):
                    raise AttributeError(attr)
                raise EngineLimit(msg)
            m.__getattr__ = missing
            loader.modules[name] = m
            sys.modules[name] = m
            continue
        m.vt = mod
        for b in blocks:
            if b['block'] != 'module':
                continue
            ns = types.SimpleNamespace()
            for r in b['body']:
                if r['block'] in ('subroutine', 'function'):
                    setattr(ns, r['name'], Routine(mod, r))
            setattr(m, b['name'], ns)
        loader.modules[name] = m
        sys.modules[name] = m
        setattr(loader, '%s_mod' % n, mod)


def _kind(v):
    t = v['typespec']
    kk = v.get('kindselector', {})
    k = kk.get('kind') or kk.get('*')
    if t == 'integer':
        return 'i', int(k or 4)
    if t == 'logical':
        return 'b', int(k or 4)
    if t == 'complex':
        return 'c', 16 if k in ('8', None) else 8
    if t == 'character':
        return 's', 1
    if t == 'double precision':
        return 'r', 8
    return 'r', int(k or 4)


def _elem(x, k):
    if k == 'r':
        return shims.to_real(x)
    if k == 'c':
        return shims.to_complex(x)
    if k == 'i':
        if isinstance(x, SymNum) and x.k == 'i':
            if sym.isconst(x.p):
                return int(sym.constval(x.p))
            return x
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        if x is sym.NAN:
            raise EngineLimit('NaN passed to a kernel as an integer')
        y = sym.trunc(sym.lift(x))
        if isinstance(y, SymNum) and sym.isconst(y.p):
            return int(sym.constval(y.p))
        return y
    if k == 'b':
        return sym.to_bool(x)
    return x


class Routine(object):

    def __init__(self, mod, block):
        self.mod = mod
        self.name = block['name']
        self.args = block['args']
        self.vars = block['vars']
        self.isfun = block['block'] == 'function'
        self.result = block.get('result', self.name)
        self.inp = [a for a in self.args if not self._intent(a) & {'out', 'hide'} or 'in' in self._intent(a)]
        self.out = [a for a in self.args if 'out' in self._intent(a)]
        self.__name__ = self.name
        self.__doc__ = 'kernel %s' % self.name

    def _intent(self, a):
        return set(self.vars[a].get('intent', ['in']))

    def __call__(self, *args, **kw):
        given = dict(zip(self.inp, args))
        if len(args) > len(self.inp):
            raise TypeError('%s() takes at most %d arguments (%d given)' % (self.name, len(self.inp), len(args)))
        for k, v in kw.items():
            if k not in self.inp:
                raise TypeError('%r is an invalid keyword argument' % k)
            given[k] = v
        for a in self.inp:
            if a not in given:
                raise TypeError("%s() missing required argument '%s'" % (self.name, a))
        bound = {}
        back = []
        nchar = 0
        dims = {}
        for a in self.args:
            v = self.vars[a]
            intent = self._intent(a)
            k, size = _kind(v)
            dim = v.get('dimension')
            if a in given:
                x = given[a]
                if k == 's':
                    s = x if isinstance(x, str) else x.decode()
                    bound[a] = gimple.Ptr(gimple.Buf(a, 1, [ord((s + ' ')[0])], 'i'), 0)
                    nchar += 1
                    continue
                if dim is None:
                    if 'inout' in intent:
                        arr = x
                        if not isinstance(arr, np.ndarray):
                            raise TypeError('%s: inout argument is not an array' % a)
                        self._check_inout(a, arr, k, 0)
                        b = gimple.Buf(a, size, [_elem(e, k) for e in np.asarray(arr).view(np.ndarray).flatten()], k)
                        back.append((arr, b))
                    else:
                        if isinstance(x, np.ndarray):
                            if x.size != 1:
                                raise TypeError('only length-1 arrays can be converted to Python scalars')
                            x = x.view(np.ndarray).flatten()[0]
                        b = gimple.Buf(a, size, [_elem(x, k)], k)
                    bound[a] = gimple.Ptr(b, 0)
                    continue
                bound[a], b, shape = self._array(a, x, k, size, dim, intent)
                dims[a] = shape
                if 'inout' in intent:
                    back.append((x, b))
            else:
                # intent(out)
                if dim is None:
                    b = gimple.Buf(a, size, [0 if k == 'i' else sym.lift(0)], k)
                    bound[a] = gimple.Ptr(b, 0)
                else:
                    bound[a] = None
        # automatic output arrays
        for a in self.out:
            if bound.get(a) is None:
                v = self.vars[a]
                k, size = _kind(v)
                shape = tuple(self._dim(d, dims) for d in v['dimension'])
                n = int(np.prod(shape))
                z = 0 if k == 'i' else (False if k == 'b' else (sym.lift(0)))
                b = gimple.Buf(a, size, [z] * n, k)
                bound[a] = gimple.Ptr(b, 0)
                dims[a] = shape
        # the dummy arguments: descriptors for assumed shapes, else data pointers
        actual = []
        f = self.mod.funcs.get(self.name)
        if f is None:
            raise EngineLimit('kernel %s has no body' % self.name)
        for n, t, ref in f.params[:len(self.args)]:
            a = self.args[len(actual)]
            p = bound[a]
            if t.startswith('struct array'):
                actual.append(_descriptor(p, dims[a]))
            else:
                actual.append(p)
        actual += [1] * (len(f.params) - len(actual))
        r = self.mod.call(self.name, actual)
        # copy back
        for arr, b in back:
            flat = [c for c in b.cells]
            _copy_back(arr, b)
        outs = []
        if self.isfun:
            k, _ = _kind(self.vars[self.result])
            outs.append(_elem(r, k))
        for a in self.out:
            b = bound[a].buf
            k = b.kind
            if a in dims:
                outs.append(_to_array(b, dims[a]))
            else:
                v = b.cells[0]
                if v is gimple.UNINIT:
                    v = sym.fresh_garbage()
                outs.append(v)
        if not outs:
            return None
        return outs[0] if len(outs) == 1 else tuple(outs)

    def _dim(self, d, dims):
        m = re.match(r'^\s*(?:size|shape)\s*\(\s*(\w+)\s*(?:,\s*(\d+)\s*)?\)\s*$', d)
        if m and m.group(1) in dims:
            sh = dims[m.group(1)]
            if m.group(2) is None:
                return int(np.prod(sh))
            return sh[int(m.group(2)) - (1 if d.strip().startswith('size') else 0)]
        if d.strip().isdigit():
            return int(d)
        raise EngineLimit('dimension %s of kernel %s' % (d, self.name))

    def _check_inout(self, a, arr, k, rank):
        ka = shims.kind_of_array(arr)
        if ka != k and not (ka == 'o'):
            raise ValueError('failed to initialize intent(inout) array -- expected elsize/dtype of %s (%s is %s)' % (k, a, ka))
        if arr.ndim >= 2 and not arr.flags.f_contiguous:
            raise ValueError('failed to initialize intent(inout) array -- input not fortran contiguous')
        if arr.ndim == 1 and not arr.flags.f_contiguous:
            raise ValueError('failed to initialize intent(inout) array -- input not contiguous')

    def _array(self, a, x, k, size, dim, intent):
        if 'inout' in intent and not isinstance(x, np.ndarray):
            raise TypeError('failed to initialize intent(inout|inplace|cache) array, input not an array')
        arr = x if isinstance(x, np.ndarray) else shims.array(x)
        if 'inout' in intent:
            self._check_inout(a, arr, k, len(dim))
        arr = arr.view(np.ndarray)
        rank = len(dim)
        shape = arr.shape
        if len(shape) < rank:
            shape = tuple(shape) + (1,) * (rank - len(shape))
        elif len(shape) > rank:
            eff = [s for s in shape if s != 1]
            if len(eff) > rank:
                raise ValueError('too many axes: %d (effrank=%d), expected rank=%d' % (len(shape), len(eff), rank))
            shape = tuple(eff) + (1,) * (rank - len(eff))
        for i, d in enumerate(dim):
            if d.strip() != ':' and d.strip() != '*':
                pass
        cells = [_elem(e, k) for e in arr.flatten(order='F')]
        b = gimple.Buf(a, size, cells, k)
        return gimple.Ptr(b, 0), b, tuple(int(s) for s in shape)


def _descriptor(p, shape):
    d = {'data': p, 'offset': 0, 'span': p.buf.item, 'dtype.elem_len': p.buf.item, 'dtype.rank': len(shape),
         'dtype.type': 0}
    st = 1
    off = 0
    for i, n in enumerate(shape):
        d['dim[%d].lbound' % i] = 1
        d['dim[%d].ubound' % i] = n
        d['dim[%d].stride' % i] = st
        off -= st
        st *= n
    d['offset'] = off
    return d


def _copy_back(arr, b):
    base = arr.view(np.ndarray)
    cells = []
    for c in b.cells:
        if c is gimple.UNINIT:
            c = sym.fresh_garbage()
        cells.append(c)
    if base.ndim == 0:
        base[()] = cells[0]
        return
    if base.dtype != object:
        if all(isinstance(c, (int, bool)) for c in cells):
            base[...] = np.array(cells).reshape(base.shape, order='F')
            return
        raise EngineLimit('symbolic result written to a native array')
    new = np.empty(len(cells), dtype=object)
    for i, c in enumerate(cells):
        new[i] = c
    base[...] = new.reshape(base.shape, order='F')


def _to_array(b, shape):
    n = len(b.cells)
    new = np.empty(n, dtype=object)
    for i, c in enumerate(b.cells):
        if c is gimple.UNINIT:
            c = sym.fresh_garbage()
        if b.kind == 'b' and isinstance(c, bool):
            c = int(c)
        elif b.kind == 'b':
            c = SymNum(sym.ite(c, sym.lift(1), sym.lift(0)).p, 'i')
        new[i] = c
    return shims.wrap(new.reshape(shape, order='F')) if n else shims.wrap(new.reshape(shape))
