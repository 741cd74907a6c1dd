"""
Loads the packages under test from their current source, with numeric
literals, division, powers, the numeric builtins, numpy and math replaced by
their symbolic counterparts (an AST transformation; nothing else is changed).
"""

import ast
import builtins as _bi
import importlib
import os
import random as _random
import sys
import types
from fractions import Fraction

from . import sym
from . import shims

REPO = os.environ.get('VT_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


class Transform(ast.NodeTransformer):

    def visit_Constant(self, node):
        if isinstance(node.value, (float, complex)):
            return ast.copy_location(
                ast.Call(ast.Name('__vt_const__', ast.Load()), [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        name = {ast.Div: '__vt_div__', ast.Pow: '__vt_pow__', ast.Mod: '__vt_mod__'}.get(type(node.op))
        if name is None:
            return node
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [node.left, node.right], []), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = {ast.Div: '__vt_idiv__', ast.Pow: '__vt_ipow__'}.get(type(node.op))
        if name is None:
            return node
        load = _as_load(node.target)
        return ast.copy_location(
            ast.Assign([node.target], ast.Call(ast.Name(name, ast.Load()), [load, node.value], [])), node)

    def visit_FunctionDef(self, node):
        # default argument values are transformed as any other expression
        self.generic_visit(node)
        return node


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def _const(s):
    v = _bi.eval(s, {'inf': _bi.float('inf'), 'nan': _bi.float('nan')})
    if isinstance(v, complex):
        return sym.SymNum(sym.padd(sym.pconst(Fraction(repr(v.real))),
                                   {((sym.A_I.id, 1),): Fraction(repr(v.imag))}), 'c')
    if v in (_bi.float('inf'), -_bi.float('inf')) or v != v:
        return v if v == v else sym.NAN
    return shims.real_const(Fraction(s))


def _len(x):
    # stand-ins of trajectories may have a symbolic number of frames
    n = getattr(x, 'vt_len', None)
    return _bi.len(x) if n is None else n


class Loader(object):

    def __init__(self, repo=None, kernels=True):
        self.repo = repo or REPO
        sym.reset()
        self.modules = {}
        self.files = {}
        self.numpy = shims.build_numpy()
        self.numpy.pi = sym.PI()
        self.math = shims.build_math()
        self.math.pi = sym.PI()
        self.random = types.ModuleType('random')
        self.random.seed = lambda *a: None
        self.random.sample = self._sample
        self.random.shuffle = lambda x: None
        self.random.choice = lambda x: x[0]
        self.random.__getattr__ = self._rnd_missing
        self.modules['numpy'] = self.numpy
        self.modules['numpy.linalg'] = self.numpy.linalg
        self.modules['numpy.random'] = self.numpy.random
        self.modules['math'] = self.math
        self.modules['random'] = self.random
        b = types.ModuleType('builtins')
        b.__dict__.update(_bi.__dict__)
        b.int, b.float, b.complex = shims.Int, shims.Float, shims.Complex
        b.bool = shims.Bool
        b.round = shims.py_round
        b.sum = shims.py_sum
        b.len = _len
        b.pow = lambda a, b_, *c: shims.op_pow(a, b_)
        b.divmod = lambda a, b_: (a // b_, a % b_)
        b.__import__ = self._import
        b.__vt_const__ = _const
        b.__vt_div__ = shims.op_div
        b.__vt_pow__ = shims.op_pow
        b.__vt_mod__ = shims.op_mod
        b.__vt_idiv__ = shims.op_idiv
        b.__vt_ipow__ = shims.op_ipow
        def prn(*a, **kw):
            # messages are dropped, text written to a file is not
            fh = kw.get('file')
            if fh is None or fh in (sys.stdout, sys.stderr):
                return None
            return print(*a, **kw)
        b.print = prn
        self.builtins = b
        if kernels:
            from . import kernel
            kernel.install(self)

    @staticmethod
    def _sample(pop, k, **kw):
        pop = list(pop)
        if k > len(pop) or k < 0:
            raise ValueError('Sample larger than population or is negative')
        # any k-subset may be drawn: a fixed one that is not a prefix
        return (pop[1::2] + pop[0::2])[:k]

    @staticmethod
    def _rnd_missing(n):
        raise sym.EngineLimit('random.%s is not modelled' % n)

    # ------------------------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:len(parts) - (level - 1)]
            full = '.'.join(parts + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                self._sub(m, full, fromlist)
                return m
            return self.load(full.split('.')[0])
        top = name.split('.')[0]
        if name in self.modules or top in ('atooms', 'numpy', 'math', 'random', 'argh'):
            if top in ('numpy', 'math', 'random'):
                if fromlist:
                    if name not in self.modules:
                        raise sym.EngineLimit('module %s is not modelled' % name)
                    return self.modules[name]
                return self.modules[top]
            if top == 'atooms':
                m = self.load(name)
                if fromlist:
                    self._sub(m, name, fromlist)
                    return m
                return self.modules['atooms']
        if top in ('medepy', 'matplotlib', 'h5py', 'mdtraj'):
            raise ImportError(name)
        if top == 'tqdm':
            pass
        return _bi.__import__(name, globals, locals, fromlist, level)

    def _sub(self, m, name, fromlist):
        for f in fromlist:
            if f == '*' or hasattr(m, f):
                continue
            if self.find(name + '.' + f):
                self.load(name + '.' + f)

    def find(self, name):
        if name in self.modules:
            return True
        parts = name.split('.')
        for root in ((self.repo, SITE) if parts[:2] == ['atooms', 'postprocessing'] or name == 'atooms'
                     else (SITE, self.repo)):
            p = os.path.join(root, *parts)
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return p, True
            if os.path.isfile(p + '.py'):
                return p + '.py', False
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        f = self.find(name)
        m = self.modules.get(name)
        if m is not None:
            return m
        if name == 'atooms':
            m = types.ModuleType('atooms')
            m.__path__ = []
            m.__package__ = 'atooms'
            self.modules[name] = m
            sys.modules[name] = m
            return m
        if not f:
            raise ImportError('No module named %r' % name)
        path, pkg = f
        src = os.path.join(path, '__init__.py') if pkg else path
        m = types.ModuleType(name)
        m.__file__ = src
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg:
            m.__path__ = [path]
        m.__builtins__ = self.builtins.__dict__
        self.modules[name] = m
        sys.modules[name] = m      # the code under test looks itself up there
        self.files[name] = src
        # real pickling/copying machinery looks modules up by name
        with open(src) as fh:
            text = fh.read()
        tree = Transform().visit(ast.parse(text, src))
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, src, 'exec'), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m


def functions_in(path):
    """Names of the functions defined in a source file (for the evidence)"""
    with open(path) as fh:
        t = ast.parse(fh.read())
    return [n.name for n in ast.walk(t) if isinstance(n, (ast.FunctionDef,))]
