"""
Symbolic interpreter for the GIMPLE that gfortran itself derives from the
Fortran kernels (-O0 -fdump-tree-cfg): typed memory blocks, byte offsets,
descriptors; decisions on symbolic conditions go through the explorer, short
side-effect free diamonds are if-converted.
"""

import os
import re
import subprocess
import tempfile
from fractions import Fraction

from . import sym
from . import shims
from .sym import EngineLimit, SymNum, SymBool, lift


# ----------------------------------------------------------------------
# memory

class _Uninit(object):
    def __repr__(self):
        return '?'


UNINIT = _Uninit()


class OutOfBounds(IndexError):
    pass


class Buf(object):

    __slots__ = ('name', 'item', 'cells', 'nbytes', 'kind', 'idx', 'freed')

    def __init__(self, name, item, cells, kind=None, nbytes=None):
        self.name, self.item, self.cells, self.kind = name, item, cells, kind
        self.nbytes = nbytes
        self.idx = False
        self.freed = False


class Ptr(object):

    __slots__ = ('buf', 'off')

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off


NULL = Ptr(None, 0)


class NoMerge(Exception):
    pass


def _cell(buf, off):
    """Index of the cell at a byte offset: int, or a symbolic integer"""
    if isinstance(off, SymNum):
        o = off / buf.item
        if isinstance(o, SymNum) and not sym.isconst(o.p):
            return SymNum(o.p, 'i')
        off = int(sym.constval(off.p))
    if off % buf.item:
        raise EngineLimit('misaligned access')
    return off // buf.item


# ----------------------------------------------------------------------
# parsing

_NAME = r'[A-Za-z_][A-Za-z_0-9]*(?:\.[0-9]+(?:_[0-9]+)?)?'
_NAME = r'[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_0-9]+)*'
_TYPE = (r'(?:integer\(kind=\d+\)|real\(kind=\d+\)|logical\(kind=\d+\)|complex\(kind=\d+\)|character\(kind=\d+\)'
         r'|sizetype|ssizetype|bitsizetype|unsigned long|long int|long|int|unsigned int|unsigned|void|_Bool'
         r'|unsigned __int128|__int128)')
_BIN = ('+', '-', '*', '/', '%', '==', '!=', '<=', '>=', '<', '>', '&', '|', '^', '<<', '>>')
_NUMRE = re.compile(r'^-?\d+(?:\.\d+(?:e[+-]?\d+)?)?$|^-?\d+(?:\.\d*)?e[+-]?\d+$')

_SIZES = {'integer(kind=1)': 1, 'integer(kind=2)': 2, 'integer(kind=4)': 4, 'integer(kind=8)': 8,
          'logical(kind=1)': 1, 'logical(kind=4)': 4, 'real(kind=4)': 4, 'real(kind=8)': 8,
          'complex(kind=4)': 8, 'complex(kind=8)': 16, 'character(kind=1)': 1}


def type_kind(t):
    for k, v in (('integer', 'i'), ('logical', 'b'), ('real', 'r'), ('complex', 'c'), ('character', 'i')):
        if t.startswith(k):
            return v
    return 'i'


class Func(object):
    pass


def parse(text):
    """name -> Func"""
    funcs = {}
    parts = re.split(r'^;; Function ', text, flags=re.M)[1:]
    for part in parts:
        f = Func()
        f.name = part.split(' ', 1)[0]
        m = re.match(r'\S+ \((\S+?),', part)
        f.asm = m.group(1)
        body = part[part.index('\n{\n') + 3:]
        body = body[:body.rindex('\n}')]
        head = part[:part.index('\n{\n')]
        sig = [l for l in head.split('\n') if l.strip() and not l.startswith(';;') and not l.startswith('__attribute__')
               and re.match(r'^[\w(=) ]+ %s \(' % re.escape(f.name), l)]
        if not sig:
            sig = [head.split('\n')[-1]]
        sig = sig[-1]
        inner = sig[sig.index(f.name + ' (') + len(f.name) + 2:].rstrip()
        inner = inner[:-1] if inner.endswith(')') else inner
        f.params = []
        for a in _split(inner):
            a = a.strip()
            if not a or a == 'void':
                continue
            t, n = a.rsplit(' ', 1)
            f.params.append((n, t.replace(' & restrict', '').replace(' * restrict', '').replace(' restrict', '').strip(),
                             ('&' in t) or ('*' in t)))
        f.types = {n: t for n, t, _ in f.params}
        f.structs = set()
        f.refs = set(n for n, t, r in f.params if r)
        f.blocks = {}
        f.labels = {}
        cur = None
        pend = None
        lines = body.split('\n')
        for l in lines:
            s = l.strip()
            if not s:
                continue
            m = re.match(r'^<bb (\d+)> :$', s)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = []
                continue
            if cur is None:
                m = re.match(r'^(.*?)\s*(%s)( = .*)?;$' % _NAME, s)
                if m:
                    t, n = m.group(1), m.group(2)
                    static = t.startswith('static')
                    t = t.replace('static ', '')
                    if t.startswith('struct'):
                        f.structs.add(n)
                    f.types[n] = t
                    if static or m.group(3):
                        f.types[n] = t
                continue
            if re.match(r'^<?[A-Za-z_][\w.]*>?:', s) or s.startswith('<L') or s.startswith('['):
                continue
            f.blocks[cur].append(s)
        f.code = {}
        f.order = sorted(f.blocks)
        f.parsed = False
        funcs[f.name] = f
    return funcs


def _split(s, sep=','):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def _real(s):
    """A floating point literal: the shortest decimal that denotes the same double"""
    import math
    v = float(s)
    if v:
        for d in range(1, 721):
            q = v * d / math.pi
            if abs(q) < 1e6 and abs(q - round(q)) < 1e-12 * max(1, abs(q)) and round(q) != 0:
                return sym.PI() * Fraction(round(q), d)
            q = v * math.pi / 1.0
            break
        q = math.pi / v
        if abs(q) < 1e6 and abs(q - round(q)) < 1e-12 * max(1, abs(q)) and round(q) != 0:
            return sym.PI() / Fraction(round(q))
        q = v * math.pi
        if abs(q) < 1e6 and abs(q - round(q)) < 1e-12 * max(1, abs(q)) and round(q) != 0:
            return shims.real_const(Fraction(round(q))) / sym.PI()
    return shims.real_const(Fraction(repr(v)))


# ----------------------------------------------------------------------
class Module(object):

    def __init__(self, funcs):
        self.funcs = funcs
        self.executed = set()
        self.statements = 0
        self.merges = 0

    def call(self, name, args):
        f = self.funcs[name]
        self.executed.add(name)
        fr = Frame(self, f, args)
        return fr.run()


class Frame(object):

    MAXSTEPS = 2000000

    def __init__(self, mod, f, args):
        self.mod, self.f = mod, f
        _compile(f)
        self.loc = {}
        self.undo = None
        for i, (n, t, ref) in enumerate(f.params):
            self.loc[n] = args[i] if i < len(args) else 1
        for n in f.structs:
            self.loc[n] = {}
        for n in f.boxed:
            t = f.types.get(n, 'integer(kind=8)')
            b = Buf(n, _SIZES.get(t, 8), [UNINIT], type_kind(t))
            if n in self.loc:
                b.cells[0] = self.loc[n]
            self.loc[n] = b
        self.depth = 0
        self.steps = 0

    # -- memory --------------------------------------------------------
    def load(self, ptr, indexish=False):
        b = ptr.buf
        if b is None:
            raise EngineLimit('null pointer')
        if indexish:
            b.idx = True
        i = _cell(b, ptr.off)
        n = len(b.cells)
        if isinstance(i, SymNum):
            self.bounds(b, i, n)
            v = self.value(b, 0)
            if any(not isinstance(self.value(b, k), (SymNum, int, Fraction)) for k in range(n)):
                for k in range(1, n):
                    v = sym.ite(i >= k, self.value(b, k), v)
                return v
            # cells[0] + sum_k [i >= k] (cells[k] - cells[k-1])
            for k in range(1, n):
                d = lift(self.value(b, k)) - lift(self.value(b, k - 1))
                if not isinstance(d, SymNum) or d.p:
                    v = v + _ind(i >= k) * d
            return v
        if i < 0 or i >= n:
            raise OutOfBounds('kernel %s reads %s[%d] of %d elements' % (self.f.name, b.name, i, n))
        return self.value(b, i)

    def value(self, b, i):
        v = b.cells[i]
        if v is UNINIT:
            v = sym.fresh_garbage()
            if b.kind == 'i':
                v = SymNum(v.p, 'i') if isinstance(v, SymNum) else v
            b.cells[i] = v
        return v

    def bounds(self, b, i, n):
        if n == 0:
            raise OutOfBounds('kernel %s accesses the empty array %s' % (self.f.name, b.name))
        ok = sym.sym_and(i >= 0, i <= n - 1)
        if self.depth:
            ctx = sym.CTX
            if isinstance(ok, SymBool) and not ctx.entailed(ok):
                raise NoMerge()
        if not ok:
            raise OutOfBounds('kernel %s accesses %s outside its %d elements' % (self.f.name, b.name, n))

    def put(self, b, k, v):
        if self.undo is not None:
            self.undo.append((b, k, b.cells[k]))
        b.cells[k] = v

    def store(self, ptr, v):
        b = ptr.buf
        if b is None:
            raise EngineLimit('null pointer')
        if b.kind == 'r' and not isinstance(v, (SymNum, SymBool)):
            v = lift(v)
        i = _cell(b, ptr.off)
        n = len(b.cells)
        if isinstance(i, SymNum):
            self.bounds(b, i, n)
            ge = [i >= k for k in range(n + 1)]
            for k in range(n):
                c = (i == k)
                if c is False:
                    continue
                if c is True:
                    self.put(b, k, v)
                    continue
                vk = v
                if isinstance(v, SymNum) and sym.has_bits(v.p):
                    m = {}
                    for j, g in enumerate(ge):
                        t = sym.bit_of(g)
                        if t:
                            m[t[0]] = t[1] if j <= k else 1 - t[1]
                    if m:
                        vk = SymNum(sym.subst_bits(v.p, m), v.k)
                old = self.value(b, k)
                if isinstance(vk, (SymNum, int, Fraction)) and isinstance(old, (SymNum, int, Fraction)):
                    # [i == k] = [i >= k] - [i >= k + 1], the index being in range
                    hi = _ind(ge[k + 1]) if k + 1 < n else 0
                    lo = _ind(ge[k]) if k else 1
                    self.put(b, k, lift(old) + (lo - hi) * (lift(vk) - lift(old)))
                else:
                    self.put(b, k, sym.ite(c, vk, old))
            return
        if i < 0 or i >= n:
            raise OutOfBounds('kernel %s writes %s[%d] of %d elements' % (self.f.name, b.name, i, n))
        self.put(b, i, v)

    # -- control -------------------------------------------------------
    def run(self):
        return self.go(self.f.order[0], None)

    def go(self, bb, stop, budget=None):
        """Execute from block bb until `stop`; returns ('ret', v) or the join"""
        f = self.f
        while True:
            if bb == stop and stop is not None:
                return None
            for st in f.code[bb]:
                st(self)
            self.steps += len(f.code[bb]) + 1
            self.mod.statements += len(f.code[bb]) + 1
            if self.steps > self.MAXSTEPS:
                raise EngineLimit('kernel %s: step limit' % f.name)
            if budget is not None:
                budget[0] -= len(f.code[bb]) + 1
                if budget[0] < 0:
                    raise NoMerge()
            t = f.term[bb]
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] == 'ret':
                if stop is not None:
                    raise NoMerge()
                return t[1](self) if t[1] else None
            else:
                c = t[1](self)
                c = sym.to_bool(c)
                if isinstance(c, bool):
                    bb = t[2] if c else t[3]
                    continue
                ctx = sym.CTX
                d = ctx._lookup(c.z)
                if d is None and ctx.settle:
                    d = sym.settled(c)
                if d is None:
                    j = f.ipdom.get(bb)
                    if j is not None and (bb, 'nm') not in self.loc:
                        if self.merge(c, t[2], t[3], j):
                            bb = j
                            continue
                    if self.depth:
                        raise NoMerge()
                    d = ctx.branch(c)
                bb = t[2] if d else t[3]

    def merge(self, c, b1, b2, join):
        saved_undo = self.undo
        saved = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.loc.items()}
        res = []
        ok = True
        self.depth += 1
        try:
            for b in (b1, b2):
                self.undo = []
                try:
                    self.go(b, join, [120])
                except (NoMerge, OutOfBounds, EngineLimit):
                    ok = False
                u = self.undo
                new = {}
                for buf, k, old in u:
                    new[(id(buf), k)] = (buf, k, buf.cells[k])
                loc = self.loc
                for buf, k, old in reversed(u):
                    buf.cells[k] = old
                self.loc = {k: (dict(v) if isinstance(v, dict) else v) for k, v in saved.items()}
                if not ok:
                    return False
                res.append((loc, new))
        finally:
            self.depth -= 1
            self.undo = saved_undo
        (l1, w1), (l2, w2) = res
        f = self.f
        out = {}
        for k in set(l1) | set(l2):
            if k not in l1:
                out[k] = l2[k]
                continue
            if k not in l2:
                out[k] = l1[k]
                continue
            v1, v2 = l1[k], l2[k]
            if v1 is v2:
                out[k] = v1
                continue
            if isinstance(v1, dict) or isinstance(v1, (Ptr, Buf)) or isinstance(v2, (dict, Ptr, Buf)):
                if isinstance(v1, dict) and isinstance(v2, dict) and set(v1) == set(v2) and \
                        all(v1[x] is v2[x] or _same(v1[x], v2[x]) for x in v1):
                    out[k] = v1
                    continue
                if isinstance(v1, Ptr) and isinstance(v2, Ptr) and v1.buf is v2.buf and _same(v1.off, v2.off):
                    out[k] = v1
                    continue
                if k in f.temps:
                    out[k] = v1    # redefined before use
                    continue
                return False
            if _same(v1, v2):
                out[k] = v1
                continue
            if k in f.temps:
                continue           # single-assignment temporaries of one arm
            if k in f.slice and type_kind(f.types.get(k, 'integer')) == 'i':
                return False
            try:
                out[k] = sym.ite(c, v1, v2)
            except EngineLimit:
                return False
        writes = []
        for key in set(w1) | set(w2):
            buf, k, _ = w1.get(key) or w2.get(key)
            v1 = w1[key][2] if key in w1 else buf.cells[k]
            v2 = w2[key][2] if key in w2 else buf.cells[k]
            if v1 is v2 or _same(v1, v2):
                writes.append((buf, k, v1))
                continue
            if v1 is UNINIT or v2 is UNINIT or isinstance(v1, (Ptr, dict)) or isinstance(v2, (Ptr, dict)):
                return False
            if buf.kind == 'i' and buf.idx:
                return False
            try:
                writes.append((buf, k, sym.ite(c, v1, v2)))
            except EngineLimit:
                return False
        for buf, k, v in writes:
            self.put(buf, k, v)
        self.loc = out
        self.mod.merges += 1
        return True


def _ind(c):
    """0/1 integer of a condition"""
    c = sym.to_bool(c)
    if isinstance(c, bool):
        return int(c)
    return SymNum(c.bp, 'i')


def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, SymNum):
        return a.k == b.k and a.p == b.p
    if isinstance(a, SymBool):
        return a.z.eq(b.z)
    try:
        return bool(a == b)
    except Exception:
        return False


# ----------------------------------------------------------------------
# compilation of the statements into closures

def _compile(f):
    if f.parsed:
        return
    f.parsed = True
    # address-taken scalars
    f.boxed = set()
    for b, lines in f.blocks.items():
        for s in lines:
            for m in re.finditer(r'&(%s)' % _NAME, s):
                n = m.group(1)
                if n not in f.structs and not _known_array(f, n):
                    f.boxed.add(n)
    f.code, f.term = {}, {}
    f.temps = set()
    f.defs = {}
    for b, lines in f.blocks.items():
        for s in lines:
            m = re.match(r'^(%s) = (.*);$' % _NAME, s)
            if m:
                f.defs.setdefault(m.group(1), []).append((m.group(2), b))
    f.temps = set(n for n, d in f.defs.items()
                  if len(d) == 1 and (re.match(r'^_\d+$', n) or re.match(r'^[A-Za-z_]+[\w.]*_\d+$', n))
                  and n not in f.types)
    f.loads_idx = set()
    _slice(f)
    for pos, b in enumerate(f.order):
        lines = f.blocks[b]
        code = []
        term = None
        i = 0
        nxt = f.order[pos + 1] if pos + 1 < len(f.order) else None
        while i < len(lines):
            s = lines[i]
            m = re.match(r'^if \((.*)\)$', s)
            if m:
                g = [re.match(r'^goto <bb (\d+)>', x).group(1) for x in lines[i:] if x.startswith('goto <bb')]
                term = ('if', _expr(f, m.group(1)), int(g[0]), int(g[1]))
                break
            m = re.match(r'^goto <bb (\d+)>', s)
            if m:
                term = ('goto', int(m.group(1)))
                break
            m = re.match(r'^return\s*(\S+)?;$', s)
            if m:
                term = ('ret', _expr(f, m.group(1)) if m.group(1) else None)
                break
            if s.startswith('switch'):
                code.append(_raise('switch statement in %s' % f.name))
            else:
                c = _stmt(f, s)
                if c is not None:
                    code.append(c)
            i += 1
        if term is None:
            term = ('goto', nxt) if nxt is not None else ('ret', None)
        f.code[b], f.term[b] = code, term
    f.ipdom = _ipdom(f)


def _raise(msg):
    def g(fr):
        raise EngineLimit(msg)
    return g


def _known_array(f, n):
    t = f.types.get(n, '')
    return bool(re.search(r'\[\d+\]$', t))


def _ipdom(f):
    succ = {}
    for b in f.order:
        t = f.term[b]
        succ[b] = [t[1]] if t[0] == 'goto' else ([] if t[0] == 'ret' else [t[2], t[3]])
    allb = set(f.order)
    pd = {b: (set([b]) if not succ[b] else set(allb)) for b in f.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            if not succ[b]:
                continue
            n = set.intersection(*[pd[s] for s in succ[b]]) | set([b])
            if n != pd[b]:
                pd[b] = n
                changed = True
    out = {}
    for b in f.order:
        c = pd[b] - set([b])
        for x in c:
            if pd[x] >= c:
                out[b] = x
                break
    return out


def _names(s):
    return re.findall(r'(?<![\w.])[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_0-9]+)*', s)


def _slice(f):
    """
    Integer variables that an address or a branch may depend on: they are kept
    concrete on every path (if-conversion does not merge them).
    """
    seeds = set()
    for b, lines in f.blocks.items():
        for s in lines:
            m = re.match(r'^if \((.*)\)$', s)
            if m:
                seeds.update(_names(m.group(1)))
            for m in re.finditer(r'[)\]]\[([^\]]+)\]', s):
                seeds.update(_names(m.group(1)))
            m = re.match(r'^(%s) = (%s) \+ (%s);$' % (_NAME, _NAME, _NAME), s)
            if m and ('restrict' in f.types.get(m.group(2), '') or '*' in f.types.get(m.group(2), '')):
                seeds.add(m.group(3))
    sl = set()
    todo = list(seeds)
    while todo:
        n = todo.pop()
        if n in sl:
            continue
        sl.add(n)
        for d, _ in f.defs.get(n, []):
            # a value computed by a comparison of reals or a real expression
            # is followed as well: it only makes the slice larger
            for x in _names(d):
                if x not in sl:
                    todo.append(x)
    f.slice = sl


def _lval_ptr(f, s):
    """closure giving the pointer an lvalue denotes, or None if it is a local"""
    s = s.strip()
    m = re.match(r'^\*(%s)$' % _NAME, s)
    if m:
        n = m.group(1)
        if n in f.boxed:
            return lambda fr: fr.loc[n].cells[0]
        return lambda fr: fr.loc[n]
    m = re.match(r'^\(\*(%s)\)\[([^\]]+)\](?:\{lb: (-?\w[\w.]*) sz: (\d+)\})?$' % _NAME, s)
    if m:
        n = m.group(1)
        ix = _expr(f, m.group(2))
        lb = int(m.group(3)) if m.group(3) else 0

        def g(fr):
            p = fr.loc[n]
            i = ix(fr)
            return Ptr(p.buf, p.off + (i - lb) * p.buf.item)
        return g
    m = re.match(r'^MEM <([^<>\[\]]+)\[\d*:\d*\]> \[\([^()]*\([^()]*\)[^()]*\)(%s)\]\[([^\]]+)\]$' % _NAME, s)
    if m:
        et, n = m.group(1), m.group(2)
        ix2 = _expr(f, m.group(3))

        def g3(fr):
            p = fr.loc[n]
            _allocated(p, et, n)
            return Ptr(p.buf, p.off + ix2(fr) * p.buf.item)
        return g3
    m = re.match(r'^MEM\b.*\]$', s)
    if m:
        raise EngineLimit('GIMPLE operand not modelled: %s' % s)
    m = re.match(r'^(%s)\[([^\]]+)\]$' % _NAME, s)
    if m and m.group(1) in f.types and _known_array(f, m.group(1)):
        n = m.group(1)
        ix = _expr(f, m.group(2))

        def g2(fr):
            b = fr.loc.get(n)
            if b is None:
                t = f.types[n]
                lo, hi = 0, 0
                mm = re.match(r'^(\S+)\[(?:(\d+):)?(\d+)\]$', t)
                cnt = int(mm.group(3)) + (1 if mm.group(2) is not None else 0)
                b = Buf(n, _SIZES.get(mm.group(1), 8), [UNINIT] * cnt, type_kind(mm.group(1)))
                fr.loc[n] = b
            return Ptr(b, ix(fr) * b.item)
        return g2
    return None


def _field(f, s):
    """(variable, field) of a struct access"""
    m = re.match(r'^(%s)->(.+)$' % _NAME, s)
    if m and ' ' not in m.group(2):
        return m.group(1), m.group(2)
    for n in sorted(f.structs, key=len, reverse=True):
        if s.startswith(n + '.'):
            return n, s[len(n) + 1:]
    return None


def _stmt(f, s):
    s = s.rstrip(';').strip()
    if s in ('nop', '') or s.startswith('//') or s.startswith('# ') or s.startswith('GIMPLE_NOP'):
        return None
    m = re.match(r'^(.+?) = (.+)$', s)
    if m and not re.match(r'^%s \(' % _NAME, s.split(' = ')[0] + ' '):
        lhs, rhs = m.group(1).strip(), m.group(2).strip()
        if '{CLOBBER' in rhs:
            return None
        try:
            return _assign(f, lhs, rhs)
        except EngineLimit as e:
            return _raise(str(e))
    m = re.match(r'^(%s) \((.*)\)$' % _NAME, s)
    if m:
        try:
            c = _call(f, m.group(1), m.group(2))
        except EngineLimit as e:
            return _raise(str(e))
        return lambda fr: c(fr) and None
    return _raise('GIMPLE statement not modelled: %s' % s)


def _allocated(v, et, name):
    """Memory obtained from malloc takes its type from the first typed pointer to it"""
    size = _SIZES.get(et)
    if isinstance(v, Ptr) and v.buf is not None and v.buf.item is None and size:
        b = v.buf
        n = b.nbytes
        if isinstance(n, SymNum):
            n = sym.concretise(n)
        b.item, b.kind, b.name = size, type_kind(et), name
        b.cells = [UNINIT] * (int(n) // size)


def _assign(f, lhs, rhs):
    fld = _field(f, lhs)
    if fld:
        n, k = fld
        if rhs == '{}':
            def clear(fr):
                d = fr.loc[n]
                for x in [x for x in d if x == k or x.startswith(k + '.')]:
                    del d[x]
            return clear
        e = _expr(f, rhs)
        m = re.match(r'struct array\d+_(.*)$', f.types.get(n, '').strip(' &*'))
        if k == 'data' and m:
            e0, et = e, m.group(1).strip()

            def e(fr):
                v = e0(fr)
                _allocated(v, et, n)
                return v

        def setf(fr):
            fr.loc[n] = dict(fr.loc[n])
            fr.loc[n][k] = e(fr)
        if '->' in lhs:
            def setf(fr):
                fr.loc[n][k] = e(fr)
        return setf
    p = _lval_ptr(f, lhs)
    src = _lval_ptr(f, rhs) if lhs in f.slice and not rhs.startswith('&') else None
    if src is not None:
        # a value loaded from memory that an address or a branch depends on
        e = lambda fr: fr.load(src(fr), True)
    else:
        e = _expr(f, rhs)
    if p is not None:
        return lambda fr: fr.store(p(fr), e(fr))
    if not re.match(r'^%s$' % _NAME, lhs):
        raise EngineLimit('GIMPLE lvalue not modelled: %s' % lhs)
    if rhs == '{}' and lhs in f.structs:
        return lambda fr: fr.loc.__setitem__(lhs, {})
    if lhs in f.boxed:
        return lambda fr: fr.put(fr.loc[lhs], 0, e(fr))
    t = f.types.get(lhs, '')
    if '*' in t:
        m = re.match(r'^(.*?\)|\w+)(?:\[.*\])? \*', t)
        et = m.group(1) if m else None

        def setp(fr):
            v = e(fr)
            _allocated(v, et, lhs)
            fr.loc[lhs] = v
        return setp
    if t.startswith('real'):
        def setr(fr):
            v = e(fr)
            fr.loc[lhs] = v if isinstance(v, (SymNum, SymBool)) or v is sym.NAN else shims.to_real(v)
        return setr
    return lambda fr: fr.loc.__setitem__(lhs, e(fr))


def _call(f, name, args):
    if name in ('__builtin_free',):
        return lambda fr: None
    parts = [_expr(f, a.strip()) for a in _split(args)]
    if name == '__builtin_malloc':
        def mal(fr):
            if fr.depth:
                raise NoMerge()
            return Ptr(Buf('malloc', None, None, nbytes=parts[0](fr)), 0)
        return mal
    b = _BUILTINS.get(name)
    if b is not None:
        return lambda fr: b(*[p(fr) for p in parts])

    def user(fr):
        if name not in fr.mod.funcs:
            raise EngineLimit('call to %s is not modelled' % name)
        if fr.depth:
            raise NoMerge()
        return fr.mod.call(name, [p(fr) for p in parts])
    return user


def _sym1(fn):
    return lambda x: fn(lift(x))


def _copysign(a, b):
    a = shims.sabs(a)
    c = lift(b) >= 0
    return sym.ite(sym.to_bool(c), a, -a)


def _iround(x):
    x = lift(x)
    half = Fraction(1, 2)
    return sym.ite(sym.to_bool(x >= 0), sym.floor(x + half), -sym.floor(-x + half))


def _max(a, b):
    return shims.smax(a, b) if isinstance(a, SymNum) or isinstance(b, SymNum) else max(a, b)


def _min(a, b):
    return shims.smin(a, b) if isinstance(a, SymNum) or isinstance(b, SymNum) else min(a, b)


_BUILTINS = {
    '__builtin_sqrt': _sym1(sym.sqrt),
    '__builtin_acos': _sym1(sym.acos),
    '__builtin_cos': _sym1(sym.cos),
    '__builtin_sin': _sym1(sym.sin),
    '__builtin_copysign': _copysign,
    '__builtin_floor': _sym1(sym.floor),
    '__builtin_ifloor': _sym1(sym.floor),
    '__builtin_lfloor': _sym1(sym.floor),
    '__builtin_ceil': lambda x: -sym.floor(-lift(x)),
    '__builtin_iceil': lambda x: -sym.floor(-lift(x)),
    '__builtin_iround': _iround, '__builtin_lround': _iround, '__builtin_round': _iround,
    '__builtin_trunc': _sym1(sym.trunc),
    '__builtin_fabs': lambda x: shims.sabs(x),
    '__builtin_pow': lambda a, b: shims.spow(lift(a), b),
    '__builtin_powi': lambda a, b: shims.spow(lift(a), b),
    '__builtin_fmax': _max, '__builtin_fmin': _min,
    '__builtin_expect': lambda a, *b: a,
    '__builtin_unreachable': lambda: None,
}


def _idiv(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        q = lift(a) / lift(b)
        return sym.trunc(q)
    if b == 0:
        raise ZeroDivisionError('integer division by zero in a kernel')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _isint(x):
    return isinstance(x, (int, bool)) or (isinstance(x, SymNum) and x.k == 'i') or isinstance(x, SymBool)


def _binop(op):
    if op == '+':
        def add(a, b):
            if isinstance(a, Ptr):
                return Ptr(a.buf, a.off + b)
            return a + b
        return add
    if op == '-':
        def sub(a, b):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return a.off - b.off
            return a - b
        return sub
    if op == '*':
        return lambda a, b: a * b
    if op == '/':
        def dv(a, b):
            if _isint(a) and _isint(b):
                return _idiv(a, b)
            return sym.div(lift(a), lift(b))
        return dv
    if op == '%':
        def md(a, b):
            return a - _idiv(a, b) * b
        return md
    if op in ('==', '!='):
        def eq(a, b):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                an = a.buf is None if isinstance(a, Ptr) else True
                bn = b.buf is None if isinstance(b, Ptr) else True
                r = (an and bn) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and a.off == b.off)
            else:
                r = a == b
            if op == '!=':
                return sym.sym_not(r) if not isinstance(r, bool) else not r
            return r
        return eq
    if op == '<':
        return lambda a, b: a < b
    if op == '<=':
        return lambda a, b: a <= b
    if op == '>':
        return lambda a, b: a > b
    if op == '>=':
        return lambda a, b: a >= b
    if op == '&':
        return lambda a, b: _logic(a, b, sym.sym_and, lambda x, y: x & y)
    if op == '|':
        return lambda a, b: _logic(a, b, sym.sym_or, lambda x, y: x | y)
    if op == '^':
        def xor(a, b):
            if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
                a, b = sym.to_bool(a), sym.to_bool(b)
                return sym.sym_or(sym.sym_and(a, sym.sym_not(b)), sym.sym_and(b, sym.sym_not(a)))
            return a ^ b
        return xor
    if op == '<<':
        return lambda a, b: a * 2 ** b
    if op == '>>':
        return lambda a, b: a >> b
    raise EngineLimit('operator %s' % op)


def _logic(a, b, fs, fi):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return fs(sym.to_bool(a), sym.to_bool(b))
    return fi(a, b)


def _cast(t, v):
    if isinstance(v, Ptr):
        return v
    if t.startswith('real'):
        if isinstance(v, (bool, SymBool)):
            return sym.ite(sym.to_bool(v), lift(1), lift(0)) if isinstance(v, SymBool) else shims.to_real(int(v))
        return shims.to_real(v)
    if t.startswith('complex'):
        return shims.to_complex(v)
    if t.startswith('logical') or t == '_Bool':
        if isinstance(v, (bool, SymBool)):
            return v
        return v != 0
    # integers (no wrap around: the values are assumed to fit)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SymBool):
        n = sym.ite(v, lift(1), lift(0))
        return SymNum(n.p, 'i')
    if isinstance(v, int):
        return v
    if isinstance(v, SymNum):
        if v.k == 'i':
            return v
        r = sym.trunc(v)
        return r
    if isinstance(v, Fraction):
        return int(v)
    if v is sym.NAN:
        raise EngineLimit('NaN converted to an integer in a kernel')
    return int(v)


def _const(s):
    if re.match(r'^-?\d+$', s):
        v = int(s)
        if v >= 2 ** 63:
            v -= 2 ** 64
        return v
    return _real(s)


def _expr(f, s):
    s = s.strip()
    # constants
    if _NUMRE.match(s):
        isint = re.match(r'^-?\d+$', s)
        if isint:
            v = _const(s)
            return lambda fr: v
        return lambda fr: _real(s)
    if s in ('0B', 'NULL'):
        return lambda fr: NULL
    if s == '{}':
        return lambda fr: {}
    m = re.match(r"^'(.)'$", s)
    if m:
        v = ord(m.group(1))
        return lambda fr: v
    if s.startswith('"') and s.endswith('"') or s.startswith('&"'):
        return lambda fr: NULL
    # plain name
    if re.match(r'^%s$' % _NAME, s):
        if s in f.boxed:
            def gb(fr):
                return fr.value(fr.loc[s], 0)
            return gb
        if _field(f, s) is None:
            def gl(fr):
                try:
                    return fr.loc[s]
                except KeyError:
                    pass
                t = f.types.get(s)
                if t and t.startswith('real'):
                    v = sym.fresh_garbage()
                elif t and t.startswith('integer'):
                    v = SymNum(sym.fresh_garbage().p, 'i')
                else:
                    raise EngineLimit('undefined variable %s in %s' % (s, f.name))
                fr.loc[s] = v
                return v
            return gl
    # casts and unary operators
    m = re.match(r'^\((%s)\) (.+)$' % _TYPE, s)
    if m:
        t, e = m.group(1), _expr(f, m.group(2))
        return lambda fr: _cast(t, e(fr))
    m = re.match(r'^\((struct [^)]*\)?[^)]*|[\w() =:.\[\]]+ \*[ \w]*)\) (%s)$' % _NAME, s)
    if m:
        return _expr(f, m.group(2))
    m = re.match(r'^\(\((.+)\)\)$', s)
    if m and _balanced(m.group(1)):
        return _expr(f, m.group(1))
    m = re.match(r'^\[conj_expr\] (.+)$', s) or re.match(r'^CONJ_EXPR <(.+)>$', s)
    if m:
        e = _expr(f, m.group(1))
        return lambda fr: shims.sconj(lift(e(fr)))
    m = re.match(r'^(\w+_EXPR) <(.+)>$', s)
    if m:
        op = m.group(1)
        a = [_expr(f, x) for x in _split(m.group(2))]
        if op == 'MAX_EXPR':
            return lambda fr: _max(a[0](fr), a[1](fr))
        if op == 'MIN_EXPR':
            return lambda fr: _min(a[0](fr), a[1](fr))
        if op == 'ABS_EXPR':
            return lambda fr: shims.sabs(a[0](fr))
        if op == 'REALPART_EXPR':
            return lambda fr: shims.real(lift(a[0](fr)))
        if op == 'IMAGPART_EXPR':
            return lambda fr: shims.imag(lift(a[0](fr)))
        if op == 'COMPLEX_EXPR':
            return lambda fr: lift(a[0](fr)) + lift(a[1](fr)) * sym.IM()
        raise EngineLimit('GIMPLE operator %s' % op)
    m = re.match(r'^__complex__ \((.+)\)$', s)
    if m:
        a = [_expr(f, x) for x in _split(m.group(1))]

        def cpx(fr):
            return shims.to_complex(lift(a[0](fr)) + lift(a[1](fr)) * sym.IM())
        return cpx
    m = re.match(r'^&(%s)$' % _NAME, s)
    if m:
        n = m.group(1)
        if n in f.structs:
            return lambda fr: fr.loc[n]
        if n in f.boxed:
            return lambda fr: Ptr(fr.loc[n], 0)
    m = re.match(r'^&(.+)$', s)
    if m:
        p = _lval_ptr(f, m.group(1))
        if p is None:
            raise EngineLimit('GIMPLE operand not modelled: %s' % s)
        return p
    # memory
    p = _lval_ptr(f, s)
    if p is not None:
        return lambda fr: fr.load(p(fr), True) if False else fr.load(p(fr))
    fld = _field(f, s)
    if fld and ' ' not in s:
        n, k = fld

        def getf(fr):
            d = fr.loc[n]
            if isinstance(d, Ptr):
                raise EngineLimit('struct pointer')
            try:
                return d[k]
            except KeyError:
                raise EngineLimit('field %s of %s is undefined' % (k, n))
        return getf
    # binary
    m = re.match(r'^(.+?) (\+|-|\*|/|%|==|!=|<=|>=|<<|>>|<|>|&|\||\^) (.+)$', s)
    if m and _balanced(m.group(1)) and _balanced(m.group(3)):
        a, b = _expr(f, m.group(1)), _expr(f, m.group(3))
        op = _binop(m.group(2))
        return lambda fr: op(a(fr), b(fr))
    if s.startswith('-'):
        e = _expr(f, s[1:])
        return lambda fr: -e(fr)
    if s.startswith('~'):
        e = _expr(f, s[1:])

        def inv(fr):
            v = e(fr)
            if isinstance(v, (bool, SymBool)):
                return sym.sym_not(v)
            if _islog(f, s[1:]):
                return sym.sym_not(v != 0)
            return -v - 1
        return inv
    m = re.match(r'^(%s) \((.*)\)$' % _NAME, s)
    if m:
        return _call(f, m.group(1), m.group(2))
    m = re.match(r'^(.+) \? (.+) : (.+)$', s)
    if m:
        c, a, b = [_expr(f, m.group(i)) for i in (1, 2, 3)]

        def tern(fr):
            return sym.ite(sym.to_bool(c(fr)), a(fr), b(fr))
        return tern
    raise EngineLimit('GIMPLE expression not modelled: %s' % s)


def _islog(f, n):
    return f.types.get(n.strip(), '').startswith('logical')


def _balanced(s):
    d = 0
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d < 0:
                return False
    return d == 0


# ----------------------------------------------------------------------
def _norm2(text):
    """
    The norm of a vector spelled out: gfortran expands norm2() into a loop that
    rescales to avoid overflows, the same number in exact arithmetic.
    """
    lines = text.split('\n')
    for n, line in enumerate(lines):
        at = 0
        while True:
            m = re.search(r'\bnorm2\s*\(', line[at:], re.I)
            if not m or '!' in line[:at + m.start()]:
                break
            i = at + m.end()
            depth, j, comma = 1, i, False
            while j < len(line) and depth:
                depth += {'(': 1, '[': 1, ')': -1, ']': -1}.get(line[j], 0)
                comma = comma or (depth == 1 and line[j] == ',')
                j += 1
            if depth or comma:
                break
            line = line[:at + m.start()] + 'sqrt(sum((' + line[i:j - 1] + ')**2))' + line[j:]
            at += m.start() + len('sqrt(sum((')
        lines[n] = line
    return '\n'.join(lines)


def dump(source):
    """GIMPLE of a Fortran source, from gfortran"""
    d = tempfile.mkdtemp(prefix='vt-gimple-')
    try:
        base = os.path.basename(source)
        with open(source) as fh:
            text = _norm2(fh.read())
        source = os.path.join(d, base)
        with open(source, 'w') as fh:
            fh.write(text)
        r = subprocess.run(['gfortran', '-O0', '-ffree-line-length-none', '-fdump-tree-cfg', '-c', source, '-o', os.path.join(d, 'x.o'),
                            '-J', d, '-dumpdir', d + '/'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        if r.returncode:
            raise EngineLimit('gfortran failed on %s: %s' % (base, r.stdout[-400:]))
        fs = [x for x in os.listdir(d) if x.endswith('.cfg')]
        if not fs:
            raise EngineLimit('no GIMPLE dump for %s' % base)
        with open(os.path.join(d, fs[0])) as fh:
            return fh.read()
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
