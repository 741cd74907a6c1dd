"""
Symbolic values: exact Laurent polynomials over named atoms, rendered to z3.

Every number that the code under test manipulates is a `SymNum`: a polynomial
with rational coefficients over *atoms*.  Atoms are the symbolic inputs plus
the values of non-polynomial operations (square roots, floors, roundings,
reciprocals, phases exp(i theta), indicator bits of conditions, ...), each with
its defining axioms.  Polynomials are rendered to z3 with every nonlinear
monomial replaced by an opaque constant ("tier 1", linear real/integer
arithmetic: an over-approximation, so `unsat` is conclusive); "tier 2" adds the
definitions of these constants (nonlinear arithmetic).
"""

import time
from fractions import Fraction
import math as _math
import re
import numbers

import numpy as _np
import z3


class EngineLimit(Exception):
    """The engine cannot represent an operation (not a verdict on the code)."""


class PathLimit(Exception):
    """Too many paths / decisions."""


class AbandonPath(Exception):
    """The current path is infeasible or excluded by an assumption."""


# ----------------------------------------------------------------------------
# Atoms

class Atom(object):
    __slots__ = ('id', 'name', 'kind', 'z', 'pos', 'nonneg', 'ax1', 'ax2', 'info', 'inp')

    def __init__(self, id, name, kind, z, pos=False, nonneg=False, info=None):
        self.id = id
        self.name = name
        self.kind = kind        # 'r', 'i', 'b', 'phase', 'I'
        self.z = z              # z3 term (real sort for r/i, bool sort for b)
        self.pos = pos
        self.nonneg = nonneg or pos
        self.ax1 = []
        self.ax2 = []
        self.info = info
        self.inp = False


ATOMS = []
_BYKEY = {}
_ZSYM = {}        # z3 const name -> object with .ax1, .ax2


def _new_atom(key, name, kind, z, **kw):
    a = Atom(len(ATOMS), name, kind, z, **kw)
    ATOMS.append(a)
    if key is not None:
        _BYKEY[key] = a
    return a


class _Holder(object):
    __slots__ = ('ax1', 'ax2')

    def __init__(self):
        self.ax1, self.ax2 = [], []


def reset():
    """Forget all atoms (between configurations)"""
    global A_I, A_PI
    del ATOMS[:]
    for d in (_BYKEY, _ZSYM, _MONOZ, _CONSTS, _LITS, _RENDER, _FREEZE, _KEEP, _MM, _SQ, _SQ2, _INVOF, _FACTORS):
        d.clear()
    del TEXT[:]
    A_I = _new_atom(('I',), 'I', 'I', None)
    z = z3.Real('PI')
    A_PI = _new_atom(('PI',), 'PI', 'r', z, pos=True)
    A_PI.ax1.append(z3.And(z > z3.RealVal('3.14159265'), z < z3.RealVal('3.14159266')))
    _ZSYM['PI'] = A_PI


_MONOZ = {}
_CONSTS = {}
_LITS = {}
_RENDER = {}
_FREEZE = {}
_KEEP = {}

# ----------------------------------------------------------------------------
# Polynomials: dict {mono: Fraction}; mono = tuple of (atom id, exponent)

ONE = ()


def pconst(c):
    if not isinstance(c, int) or isinstance(c, bool):
        c = Fraction(c)
        if c.denominator == 1:
            c = c.numerator
    return {ONE: c} if c != 0 else {}


def padd(p, q, s=1):
    if not q:
        return p
    r = dict(p)
    get = r.get
    if s == 1:
        for m, c in q.items():
            v = get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return r
    for m, c in q.items():
        v = get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    if isinstance(c, Fraction) and c.denominator == 1:
        c = c.numerator
    return {m: v * c for m, v in p.items()}


def isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def constval(p):
    return Fraction(p.get(ONE, 0))


def pkey(p):
    return tuple(sorted(p.items()))


_MM = {}


def _mmul(m1, m2):
    """Product of two monomials as a polynomial"""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    k = (m1, m2)
    r = _MM.get(k)
    if r is None:
        if len(_MM) > 400000:
            _MM.clear()
        r = _MM[k] = _mmul1(m1, m2)
    return r


def _mmul1(m1, m2):
    d = dict(m1)
    special = False
    for a, e in m2:
        x = d.get(a, 0) + e
        if x == 0:
            d.pop(a, None)
        else:
            d[a] = x
        if ATOMS[a].kind in ('b', 'I') or ATOMS[a].info is not None:
            special = True
    if not special:
        return {tuple(sorted(d.items())): 1}
    return _reduce(d)


def _reduce(d):
    coef = 1
    extra = None
    for a in list(d):
        at = ATOMS[a]
        e = d[a]
        if at.kind == 'b':
            if e > 1:
                d[a] = 1
        elif at.kind == 'I':
            e = e % 4
            if e in (2, 3):
                coef = -coef
            if e % 2:
                d[a] = 1
            else:
                d.pop(a)
        elif at.kind == 'phase':
            # exponents of exp(i*m); normalise the constant phases exp(i*pi*c)
            if at.info == ((A_PI.id, 1),):
                e = Fraction(e) % 2
                k = e * 2
                if k.denominator == 1:
                    k = int(k)
                    d.pop(a)
                    if k in (2, 3):
                        coef = -coef
                    if k in (1, 3):
                        x = d.get(A_I.id, 0) + 1
                        if x == 2:
                            coef = -coef
                            d.pop(A_I.id)
                        else:
                            d[A_I.id] = 1
                else:
                    if e >= 1:
                        e -= 1
                        coef = -coef
                    d[a] = e
        elif at.info is not None and at.info[0] == 'sqrt':
            if e >= 2:
                h = int(e) // 2
                d.pop(a)
                if e - 2 * h:
                    d[a] = e - 2 * h
                q = ppow(at.info[1], h)
                extra = q if extra is None else pmul(extra, q)
            elif e <= -2:
                h = int(-e) // 2
                d.pop(a)
                if -e - 2 * h:
                    d[a] = -(-e - 2 * h)
                q = pinv(ppow(at.info[1], h))
                extra = q if extra is None else pmul(extra, q)
        elif at.info is not None and at.info[0] == 'root' and abs(e) >= at.info[2]:
            n = at.info[2]
            h = abs(int(e)) // n
            x = abs(int(e)) - n * h
            d.pop(a)
            if x:
                d[a] = x if e > 0 else -x
            q = ppow(at.info[1], h)
            if e < 0:
                q = pinv(q)
            extra = q if extra is None else pmul(extra, q)
    r = {tuple(sorted(d.items())): coef}
    if extra is not None:
        r = pmul(r, extra)
    return r


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > 200000:
        raise EngineLimit('polynomial too large')
    r = {}
    get = r.get
    mm = _MM.get
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c12 = c1 * c2
            if m1 and m2:
                t = mm((m1, m2))
                if t is None:
                    t = _mmul(m1, m2)
            else:
                t = {m1 or m2: 1}
            for m, c in t.items():
                if c == 1:
                    v = get(m, 0) + c12
                else:
                    v = get(m, 0) + c * c12
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    if 1 < len(p) <= 80 and len(p) == len(q) and r and (p is q or _proportional(p, q)):
        k, lead = _normkey(r)
        if k not in _SQ:
            # r = positive * p**2 or its opposite
            m0 = next(iter(p))
            _SQ[k] = (lead if (p[m0] > 0) == (q[m0] > 0) else -lead, p)
            kap = Fraction(q[m0]) / p[m0]
            rn = {m: c for m, c in r.items() if m != ONE}
            if rn:
                k2, lead = _normkey(rn)
                _SQ2.setdefault(k2, (p, Fraction(lead) / kap, Fraction(r.get(ONE, 0)) / kap))
    return r


def _proportional(p, q):
    c = None
    for m, a in p.items():
        b = q.get(m)
        if b is None:
            return False
        if c is None:
            c = Fraction(a) / b
        elif a != c * b:
            return False
    return True


_SQ = {}
_SQ2 = {}


def _normkey(p):
    it = sorted(p.items())
    lead = it[0][1]
    return tuple((m, Fraction(c) / lead) for m, c in it), lead


def _square(p):
    """(sign, s) with p = sign * positive * s**2 for a square formed before"""
    if len(p) < 3 or not _SQ:
        return None
    k, lead = _normkey(p)
    r = _SQ.get(k)
    if r is None:
        return None
    return (1 if (lead > 0) == (r[0] > 0) else -1), r[1]


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def psup(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def _lead(p):
    """Leading monomial (deterministic)"""
    m = min((m for m in p if m != ONE), default=ONE, key=lambda x: (len(x), x))
    return m


def has_bits(p):
    """True if bits multiply something other than constants"""
    for m in p:
        b = nb = False
        for a, _ in m:
            if ATOMS[a].kind == 'b':
                b = True
            else:
                nb = True
        if b and nb:
            return True
    return False


def has_kind(p, kind):
    return any(ATOMS[a].kind == kind for m in p for a, _ in m)


def is_complex(p):
    return any(ATOMS[a].kind in ('I', 'phase') for m in p for a, _ in m)


def pconj(p):
    r = {}
    for m, c in p.items():
        d = {}
        for a, e in m:
            k = ATOMS[a].kind
            if k == 'phase':
                d[a] = -e
            else:
                d[a] = e
                if k == 'I':
                    c = -c
        for mm, cc in _reduce(d).items():
            v = r.get(mm, 0) + cc * c
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
    return r


_INVOF = {}


def _clear_inv(p, eq=False):
    """Multiply p by positive (nonzero if eq) factors that clear reciprocals of polynomials of known sign"""
    top = {}
    for m in p:
        for a, e in m:
            if a in _INVOF and isinstance(e, int) and e > 0:
                top[a] = max(top.get(a, 0), e)
    for a, n in top.items():
        q = _INVOF[a]
        if n % 2 and not ATOMS[a].pos and not eq:
            d = settled(lift_poly(q) > 0)
            if d is None or not d and settled(lift_poly(q) < 0) is not True:
                continue
            if not d:
                p = pscale(p, -1)
        out = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            t = {tuple(x for x in m if x[0] != a): c}
            out = padd(out, pmul(t, ppow(q, n - e)))
        p = out
    return p


def lift_poly(p):
    return mk(p, 'r')


def _pdiv(p, q):
    """p / q when q divides p exactly, None otherwise (atoms without rewriting rules)"""
    sup = sorted(psup(p))
    for a in sup:
        if ATOMS[a].kind not in ('r', 'i') or ATOMS[a].info is not None:
            return None
    n = len(sup)
    pos = {a: i for i, a in enumerate(sup)}

    def vecs(t):
        out = {}
        for m, c in t.items():
            v = [0] * n
            for a, e in m:
                if not isinstance(e, int):
                    return None, None
                v[pos[a]] = e
            out[tuple(v)] = c
        low = [min(v[i] for v in out) for i in range(n)]
        return {tuple(x - l for x, l in zip(v, low)): c for v, c in out.items()}, low
    P, lp = vecs(p)
    Q, lq = vecs(q)
    if P is None or Q is None:
        return None
    lead = max(Q)
    R = {}
    while P:
        m = max(P)
        d = tuple(x - y for x, y in zip(m, lead))
        if min(d) < 0 or len(R) > len(p):
            return None
        c = Fraction(P[m]) / Q[lead]
        R[d] = c
        for v, x in Q.items():
            k = tuple(a + b for a, b in zip(v, d))
            y = P.get(k, 0) - c * x
            if y:
                P[k] = y
            else:
                del P[k]
    return {tuple((a, e) for a, e in ((sup[i], v[i] + lp[i] - lq[i]) for i in range(n)) if e): c for v, c in R.items()}


def _factor(p):
    """A known factor of p, with the other one"""
    if len(p) > 200:
        return None
    sup = psup(p)
    for q in list(_FACTORS.values()):
        if 1 < len(q) < len(p) and psup(q) <= sup:
            d = _pdiv(p, q)
            if d is not None:
                return q, d
    return None


_FACTORS = {}


def pinv(p):
    """Reciprocal (p is known to be nonzero)"""
    if len(p) == 1:
        (m, c), = p.items()
        if all(ATOMS[a].kind != 'b' for a, _ in m):
            return pmul({ONE: Fraction(1) / c}, _reduce({a: -e for a, e in m}))
    # common monomial factor
    common = {}
    for m in p:
        for a, e in m:
            common[a] = min(e, common.get(a, e))
    for m in p:
        d = dict(m)
        for a in common:
            common[a] = min(common[a], d.get(a, 0))
    common = {a: e for a, e in common.items() if e and isinstance(e, int) and ATOMS[a].pos and ATOMS[a].kind in ('r', 'i')}
    if common:
        f = {tuple(sorted((a, -e) for a, e in common.items())): Fraction(1)}
        return pmul(pinv(pmul(p, f)), f)
    lead = _lead(p)
    c = p[lead]
    q = pscale(p, Fraction(1) / c)
    key = ('inv', pkey(q))
    a = _BYKEY.get(key)
    if a is None:
        f = _factor(q)
        if f is not None:
            return pscale(pmul(pinv(f[0]), pinv(f[1])), Fraction(1) / c)
        _FACTORS[key[1]] = q
        pos = surely_pos(q)
        nm = 'inv%d' % len(ATOMS)
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, pos=pos)
        _INVOF[a.id] = q
        _ZSYM[nm] = a
        if pos:
            a.ax1.append(z > 0)
        if not is_complex(q):
            zq = render(q)
            a.ax2.append(z3.Implies(zq != 0, z * zq == 1))
    return {((a.id, 1),): Fraction(1) / c}


def surely_pos(p):
    """Syntactic positivity"""
    if not p or is_complex(p):
        return False
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        allpos = True
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'b':
                allpos = False
                continue
            if at.pos:
                continue
            allpos = False
            if isinstance(e, int) and e % 2 == 0:
                continue
            if at.nonneg:
                continue
            return False
        if allpos:
            strict = True
    return strict


def surely_nonneg(p):
    if is_complex(p):
        return False
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'b' or at.nonneg or (isinstance(e, int) and e % 2 == 0):
                continue
            return False
    return True


def psd(p):
    """True if p is a quadratic form (times even powers) that is never negative, whatever the bits"""
    common = None
    for m in p:
        d = {a: e for a, e in m if e % 2 == 0 and (e < 0 or e > 2)}
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
    if common:
        p = pmul(p, {tuple(sorted((a, -e) for a, e in common.items())): Fraction(1)})
    bits, vs = set(), set()
    terms = []
    for m, c in p.items():
        b, r = [], []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'b':
                b.append(a)
            elif at.kind in ('r', 'i') and e in (1, 2):
                r += [a] * e
            else:
                return False
        if len(r) > 2:
            return False
        bits.update(b)
        vs.update(r)
        terms.append((frozenset(b), (r + [None, None])[:2], Fraction(c)))
    if len(bits) > 7 or len(vs) > 12:
        return False
    bits = sorted(bits)
    idx = {a: i + 1 for i, a in enumerate(sorted(vs))}
    idx[None] = 0
    n = len(idx)
    for k in range(2 ** len(bits)):
        on = {a for i, a in enumerate(bits) if k >> i & 1}
        M = [[Fraction(0)] * n for _ in range(n)]
        for b, (x, y), c in terms:
            if b <= on:
                M[idx[x]][idx[y]] += c / 2
                M[idx[y]][idx[x]] += c / 2
        for i in range(n):
            if M[i][i] < 0:
                return False
            if M[i][i] == 0:
                if any(M[i][j] for j in range(i + 1, n)):
                    return False
                continue
            for j in range(i + 1, n):
                if M[i][j]:
                    f = M[j][i] / M[i][i]
                    for l in range(i, n):
                        M[j][l] -= f * M[i][l]
    return True


# ----------------------------------------------------------------------------
# Rendering

def _q(c):
    return z3.Q(c.numerator, c.denominator)


def _mono_z(base):
    """z3 real term of a bit-free, phase-free monomial"""
    if not base:
        return None
    if len(base) == 1 and base[0][1] == 1:
        return ATOMS[base[0][0]].z
    z = _MONOZ.get(base)
    if z is None:
        name = 'm%d' % len(_MONOZ)
        z = z3.Real(name)
        _MONOZ[base] = z
        h = _Holder()
        _ZSYM[name] = h
        num, den = [], []
        nonneg, pos = True, True
        for a, e in base:
            at = ATOMS[a]
            even = e % 2 == 0
            if not at.pos:
                pos = False
                if not (even or at.nonneg):
                    nonneg = False
            for _ in range(abs(int(e))):
                (num if e > 0 else den).append(at.z)
            # McCormick-free: only sign information at tier 1
        if pos:
            h.ax1.append(z > 0)
        elif nonneg:
            h.ax1.append(z >= 0)
        if not den:
            # a product is zero only if a factor is zero
            h.ax1.append((z == 0) == z3.Or([ATOMS[a].z == 0 for a, _ in base if not ATOMS[a].pos] or [z3.BoolVal(False)]))
        lhs = z
        for d in den:
            lhs = lhs * d
        rhs = None
        for n in num:
            rhs = n if rhs is None else rhs * n
        if rhs is None:
            rhs = z3.RealVal(1)
        h.ax2.append(lhs == rhs)
        v = _number(base)
        if v is not None:
            v = Fraction(v)
            h.ax1 += [z > _q(v * (1 - Fraction(1, 10**11))), z < _q(v * (1 + Fraction(1, 10**11)))]
        # a single even power is a square
    return z


def _number(base):
    """Approximate value of a product of powers of pi and of square roots of numbers"""
    v = 1.0
    for a, e in base:
        at = ATOMS[a]
        if at is A_PI:
            v *= _math.pi**e
        elif at.info is not None and at.info[0] == 'sqrt' and isconst(at.info[1]):
            v *= _math.sqrt(constval(at.info[1]))**e
        else:
            return None
    return v


def _sign(p):
    """Sign of a combination of numbers (pi, square roots) when rounding leaves no doubt"""
    v = w = 0.0
    for m, c in p.items():
        x = _number(m)
        if x is None:
            return None
        try:
            x *= float(c)
        except OverflowError:
            return None
        v += x
        w += abs(x)
    return None if abs(v) < 1e-10 * w or w == 0 else (1 if v > 0 else -1)


def _phase_z(ph):
    """(cos, sin, sign) z3 terms of a phase; ph: tuple of (atom, exp)"""
    sign = 1
    if ph[0][1] < 0:
        sign = -1
        ph = tuple((a, -e) for a, e in ph)
    key = ('cs', ph)
    a = _BYKEY.get(key)
    if a is None:
        n = len(ATOMS)
        c, s = z3.Real('cos%d' % n), z3.Real('sin%d' % n)
        a = _new_atom(key, 'cs%d' % n, 'r', (c, s))
        for nm in ('cos%d' % n, 'sin%d' % n):
            h = _Holder()
            h.ax1 += [c >= -1, c <= 1, s >= -1, s <= 1]
            h.ax2 += [c * c + s * s == 1]
            _ZSYM[nm] = h
    return a.z[0], a.z[1], sign


def render(p):
    """z3 real term for the (real part of the) polynomial p"""
    key = pkey(p)
    z = _RENDER.get(key)
    if z is not None:
        return z
    terms = []
    for m, c in sorted(p.items()):
        bits, base, ph, im = [], [], [], 0
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'b':
                bits.append(at.z)
            elif at.kind == 'I':
                im = 1
            elif at.kind == 'phase':
                ph.append((a, e))
            else:
                base.append((a, e))
        t = _mono_z(tuple(base))
        if ph:
            co, si, sg = _phase_z(tuple(ph))
            if im:
                f, c = si, -c * sg
            else:
                f = co
            if t is None:
                t = f
            else:
                # product of a real monomial and a trigonometric value
                pk = ('ct', tuple(base), tuple(ph) if sg == 1 else tuple((a, -e) for a, e in ph), im)
                a = _BYKEY.get(pk)
                if a is None:
                    nm = 'ct%d' % len(ATOMS)
                    zz = z3.Real(nm)
                    a = _new_atom(pk, nm, 'r', zz)
                    a.ax2.append(zz == t * f)
                    _ZSYM[nm] = a
                t = a.z
        elif im:
            continue
        if t is None:
            t = z3.RealVal(1)
            if c == 1 and not bits:
                terms.append(t)
                continue
        if bits:
            cond = bits[0] if len(bits) == 1 else z3.And(bits)
            terms.append(z3.If(cond, _q(c) * t, z3.RealVal(0)))
        else:
            terms.append(_q(c) * t if c != 1 else t)
    z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
    _RENDER[key] = z
    return z


def consts_of(e):
    """Names of the uninterpreted constants in a z3 expression"""
    k = e.get_id()
    r = _CONSTS.get(k)
    if r is not None:
        return r[0]
    names = set()
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
        else:
            stack.extend(x.children())
    _CONSTS[k] = (names, e)
    return names


def axioms_for(names, tier, done=None):
    """Axioms (closure) of a set of constants"""
    done = set() if done is None else done
    out = []
    todo = [n for n in names if n not in done]
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        h = _ZSYM.get(n)
        if h is None:
            continue
        axs = list(h.ax1) + (list(h.ax2) if tier == 2 else [])
        for ax in axs:
            out.append(ax)
            for nn in consts_of(ax):
                if nn not in done:
                    todo.append(nn)
    return out


# ----------------------------------------------------------------------------
# Booleans

class SymBool(object):
    __slots__ = ('z', '_bp', '_neg')
    __array_priority__ = 100

    def __init__(self, z, bp=None):
        self.z = z
        self._bp = bp

    # -- logic
    @property
    def bp(self):
        """Polynomial of the indicator bit"""
        b = self._bp
        if b is None:
            b = self._bp = {((_bit(self.z).id, 1),): Fraction(1)}
        elif isinstance(b, tuple):
            # deferred product or complement
            if b[0] == 'not':
                b = padd(pconst(1), b[1].bp, -1)
            else:
                x, y = b[1].bp, b[2].bp
                if len(x) * len(y) > 4000:
                    b = {((_bit(self.z).id, 1),): Fraction(1)}
                else:
                    b = pmul(x, y)
            self._bp = b
        return b

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = to_bool(o)
        if o is True:
            return self
        if o is False:
            return False
        if o.z.eq(self.z):
            return self
        return SymBool(z3.And(self.z, o.z), ('and', self, o))
    __rand__ = __and__

    def __invert__(self):
        z = self.z
        if z3.is_not(z):
            zz = z.arg(0)
        else:
            zz = z3.Not(z)
        return SymBool(zz, ('not', self))

    def __or__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = to_bool(o)
        if o is True:
            return True
        if o is False:
            return self
        return ~((~self) & (~o))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = to_bool(o)
        if o is True:
            return ~self
        if o is False:
            return self
        return (self & ~o) | (~self & o)
    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    # -- arithmetic: behaves as 0/1
    def num(self):
        return SymNum(self.bp, 'i')

    def __add__(self, o):
        return self.num() + o if not isinstance(o, _np.ndarray) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o if not isinstance(o, _np.ndarray) else NotImplemented

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o if not isinstance(o, _np.ndarray) else NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / o if not isinstance(o, _np.ndarray) else NotImplemented

    def __neg__(self):
        return -self.num()

    def __eq__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, _np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return ~(self ^ o)
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    def __hash__(self):
        return 0

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.z


def _bit(z):
    key = ('bit', z.get_id())
    a = _BYKEY.get(key)
    if a is None:
        _KEEP[z.get_id()] = z
        a = _new_atom(key, 'b%d' % len(ATOMS), 'b', z)
    return a


def to_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def _mkbool(z, neg):
    """SymBool of a canonical literal"""
    bp = {((_bit(z).id, 1),): Fraction(1)}
    if neg:
        return SymBool(z3.Not(z), padd(pconst(1), bp, -1))
    return SymBool(z, bp)


def sym_and(*args):
    r = True
    for a in args:
        a = to_bool(a)
        if a is False:
            return False
        if a is True:
            continue
        r = a if r is True else (r & a)
    return r


def sym_or(*args):
    r = False
    for a in args:
        a = to_bool(a)
        if a is True:
            return True
        if a is False:
            continue
        r = a if r is False else (r | a)
    return r


def sym_not(a):
    a = to_bool(a)
    if isinstance(a, bool):
        return not a
    return ~a


def settled(c):
    """Value of a condition if it is implied by the path, None otherwise"""
    if CTX.entailed(c):
        return True
    if CTX.entailed(sym_not(c)):
        return False
    return None


def ite(c, a, b):
    """Value `a` if c else `b`"""
    c = to_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return sym_or(sym_and(c, a), sym_and(sym_not(c), b))
    if a is b:
        return a
    if CTX is not None and CTX.settle:
        d = settled(c)
        if d is not None:
            return a if d else b
    x, y = lift(a), lift(b)
    if x is NAN or y is NAN:
        return a if c else b        # fork
    if x.p == y.p:
        return a
    k = _join(x.k, y.k)
    return mk(padd(y.p, pmul(c.bp, padd(x.p, y.p, -1))), k)


# ----------------------------------------------------------------------------
# Comparisons

def _clear(p):
    """Multiply p by a positive monomial that clears negative exponents"""
    low = {}
    for m in p:
        for a, e in m:
            if e < 0 and ATOMS[a].kind not in ('phase',):
                low[a] = min(low.get(a, 0), e)
    if not low:
        return p
    mult = {}
    for a, e in low.items():
        n = -e
        if not ATOMS[a].pos and n % 2:
            n += 1
        mult[a] = n
    return pmul(p, {tuple(sorted(mult.items())): Fraction(1)})


def _common(p):
    """Divide p by a common positive monomial"""
    common = None
    for m in p:
        d = {a: e for a, e in m if ATOMS[a].pos and ATOMS[a].kind in ('r', 'i') and e > 0
             and not (ATOMS[a].info is not None)}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            return p
    if not common:
        return p
    return pmul(p, {tuple(sorted((a, -e) for a, e in common.items())): Fraction(1)})


def _vanishes(p):
    """Whether p is zero because reciprocals cancel (their arguments are not zero)"""
    if len(p) < 2 or len(p) > 2000 or not any(a in _INVOF for m in p for a, _ in m):
        return False
    try:
        return not _clear_inv(_clear(p), True)
    except EngineLimit:
        return False


def cmp0(p, op):
    """SymBool/bool of `p op 0`, op in '>=', '>', '=='"""
    if is_complex(p):
        if op == '==':
            if _vanishes(p):
                return True
            re, im = preal(p), pimag(p)
            if is_complex(re) or is_complex(im):
                return _lit(p, op)
            return sym_and(cmp0(re, '=='), cmp0(im, '=='))
        return _lit(p, op)
    if isconst(p):
        c = constval(p)
        return c >= 0 if op == '>=' else (c > 0 if op == '>' else c == 0)
    if len(p) < 20:
        r = _sign(p)
        if r is not None:
            return False if op == '==' else r > 0
    # floor / rint atoms against constants
    ms = [m for m in p if m != ONE]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        at = ATOMS[ms[0][0][0]]
        if at.info is not None and at.info[0] in ('floor', 'rint'):
            r = _cmp_round(at, p[ms[0]], constval(p), op)
            if r is not None:
                return r
    if len(p) > 1:
        r = _round_range(p, op)
        if r is not None:
            return r
    if len(p) > 1:
        r = _cmp_sqrt(p, op)
        if r is not None:
            return r
    if len(p) > 1:
        r = _cmp_square_const(p, op)
        if r is not None:
            return r
    if op == '==' and _vanishes(p):
        return True
    if CTX is not None and CTX.settle:
        p = _clear_inv(p)
    sq = _square(p)
    if sq is None:
        p = _common(_clear(p))
        if isconst(p):
            return cmp0(p, op)
        sq = _square(p)
    if len(p) == 2:
        r = _cmp_squares(p, op)
        if r is not None:
            return r
    if sq is not None:
        zero = cmp0(sq[1], '==')
        if op == '==':
            return zero
        if op == '>=':
            return True if sq[0] > 0 else zero
        return sym_not(zero) if sq[0] > 0 else False
    if op != '==':
        if surely_pos(p):
            return True
        q = pscale(p, -1)
        if op == '>=':
            if surely_nonneg(p):
                return True
            if surely_pos(q):
                return False
        elif surely_nonneg(q):
            return False
    elif surely_pos(p) or surely_pos(pscale(p, -1)):
        return False
    # bits only with constants: still general rendering
    return _lit(p, op)


def _cmp_square_const(p, op):
    """a*s**2 - c op 0 with a constant c and a square formed before"""
    q = {m: c for m, c in p.items() if m != ONE}
    if len(q) == 1:
        (m, c), = q.items()
        if any(not isinstance(e, int) or e % 2 or ATOMS[a].kind not in ('r', 'i') for a, e in m):
            return None
        s, al, d = {tuple((a, e // 2) for a, e in m): Fraction(1)}, Fraction(c), Fraction(0)
        if _sqrt_frac(abs(Fraction(constval(p)) / al)) is not None and surely_pos(s):
            return None
    else:
        if not _SQ2:
            return None
        k, lead = _normkey(q)
        r = _SQ2.get(k)
        if r is None:
            return None
        s, l0, d = r
        al = Fraction(lead) / l0
    if al < 0:
        # negated: c - s**2
        r = {'>=': '>', '>': '>=', '==': '=='}[op]
        x = _cmp_square_const(pscale(p, -1), r)
        if x is None or op == '==':
            return x
        return sym_not(x)
    c = d - Fraction(p.get(ONE, Fraction(0))) / al
    if c < 0:
        return op != '=='
    rt = sqrt(lift(c)).p
    a, b = padd(s, rt, -1), padd(pscale(s, -1), rt, -1)     # |s| - sqrt(c) = max(a, b)
    if surely_nonneg(s) and c > 0:
        return cmp0(a, op)
    return sym_or(cmp0(a, op), cmp0(b, op))


def _cmp_squares(p, op):
    """x**2 - y**2 op 0 (or its opposite) with y > 0, for monomials"""
    (m1, c1), (m2, c2) = p.items()
    if (c1 > 0) == (c2 > 0) or m1 == ONE and m2 == ONE:
        return None
    if any(not isinstance(e, int) or e % 2 or ATOMS[a].kind not in ('r', 'i') for m in (m1, m2) for a, e in m):
        return None
    r1, r2 = _sqrt_frac(Fraction(abs(c1))), _sqrt_frac(Fraction(abs(c2)))
    if r1 is None or r2 is None:
        return None
    x = {tuple((a, e // 2) for a, e in m1): r1}
    y = {tuple((a, e // 2) for a, e in m2): r2}
    s = c1 > 0
    if not surely_pos(y):
        x, y = y, x
        s = not s
        if not surely_pos(y):
            return None
    a, b = padd(x, y, -1), padd(pscale(x, -1), y, -1)       # |x| - y = max(a, b)
    if op == '==':
        return sym_or(cmp0(a, op), cmp0(b, op))
    if s:
        return sym_or(cmp0(a, op), cmp0(b, op))
    o = '>' if op == '>=' else '>='
    return sym_and(sym_not(cmp0(a, o)), sym_not(cmp0(b, o)))


def _cmp_sqrt(p, op):
    """c*sqrt(q) + r op 0, with c > 0 > r or c < 0 < r, by squaring"""
    root = None
    for m in p:
        for a, e in m:
            at = ATOMS[a]
            if at.info is not None and at.info[0] == 'sqrt':
                if root is not None or e != 1:
                    return None
                root = (m, at)
    if root is None:
        return None
    m, at = root
    if isconst(at.info[1]):
        return None
    rest = dict(p)
    c = rest.pop(m)
    mono = tuple(x for x in m if x[0] != at.id)
    if any(not ATOMS[a].pos for a, _ in mono):
        return None
    if c < 0:
        if not surely_nonneg(rest):
            return None
    elif not surely_nonneg(pscale(rest, -1)):
        return None
    left = pmul(pmul({mono: Fraction(c)}, {mono: Fraction(c)}), at.info[1])
    d = padd(left, pmul(rest, rest), -1)
    if op != '==' and c < 0:
        d = pscale(d, -1)
    for m in d:
        if len(d) == 2 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].info and ATOMS[m[0][0]].info[0] == 'w':
            # the square of a single piecewise coordinate is compared as such
            u = padd(padd(d, {m: d[m]}, -1), pscale(ATOMS[m[0][0]].info[1], d[m]))
            r = _cmp_square_const(u, op) if len(u) > 1 else None
            if r is not None:
                return r
    return cmp0(d, op)


def _round_range(p, op):
    """Decide c*(n - t) + k op 0 for n = floor(t) or rint(t), if its range does"""
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        at = ATOMS[m[0][0]]
        if at.info is None or at.info[0] not in ('floor', 'rint'):
            continue
        kind, t = at.info
        rest = padd(padd(p, {m: c}, -1), pscale(t, c))
        if not isconst(rest):
            continue
        e = Fraction(constval(rest)) / c
        if kind == 'floor':
            pos, neg, neg0 = e - 1 >= 0, e < 0, e <= 0
        else:
            h = Fraction(1, 2)
            pos, neg, neg0 = e - h > 0, e + h < 0, e + h <= 0
        if c < 0:
            # p = |c| * (t - n - e)
            if pos:
                return False
            if op == '==':
                return False if neg else None
            if op == '>=':
                return True if neg0 else None
            return True if neg else None
        if pos:
            return True if op != '==' else False
        if neg:
            return False
        if op == '>' and neg0:
            return False
    return None


def _lit(p, op):
    lead = _lead(p)
    c = p[lead]
    neg = False
    q = pscale(p, Fraction(1) / abs(c))
    if c < 0:
        q = pscale(q, -1)
        if op == '>=':       # -q >= 0  <=> not q > 0
            op, neg = '>', True
        elif op == '>':
            op, neg = '>=', True
    key = (pkey(q), op)
    z = _LITS.get(key)
    if z is None:
        bit = None
        ms = list(q)
        # a single 0/1 bit compared with constants is that bit, or constant
        if all(len(m) <= 1 for m in ms) and len([m for m in ms if m]) == 1:
            a = ATOMS[lead[0][0]]
            if a.kind == 'b' and lead[0][1] == 1:
                k = q.get(ONE, Fraction(0))     # bit + k op 0
                v1 = _cval(1 + k, op)
                v0 = _cval(k, op)
                bit = (a, v1, v0)
        if bit is not None:
            a, v1, v0 = bit
            if v1 == v0:
                return v1 != neg
            if v1:
                return _mkbool(a.z, neg)
            return _mkbool(a.z, not neg)
        zq = render(q)
        r = z3.RealVal(0)
        if op == '>=':
            z = zq >= r
        elif op == '>':
            z = zq > r
        else:
            z = zq == r
        _LITS[key] = z
    return _mkbool(z, neg)


def _cval(c, op):
    return c >= 0 if op == '>=' else (c > 0 if op == '>' else c == 0)


def _cmp_round(at, c, k, op):
    """c*n + k op 0 where n = floor(t) or rint(t)"""
    kind, t = at.info
    if op == '==':
        v = -Fraction(k) / c
        if v.denominator != 1:
            return False
        return sym_and(_n_ge(kind, t, v), sym_not(_n_ge(kind, t, v + 1)))
    b = -Fraction(k) / c
    if c > 0:
        # n >= b or n > b
        m = _math.ceil(b)
        if op == '>' and m == b:
            m += 1
        return _n_ge(kind, t, Fraction(m))
    # n <= b or n < b
    m = _math.floor(b)
    if op == '>' and m == b:
        m -= 1
    return sym_not(_n_ge(kind, t, Fraction(m + 1)))


def _n_ge(kind, t, k):
    if kind == 'floor':
        return cmp0(padd(t, pconst(k), -1), '>=')
    half = k - Fraction(1, 2)
    return cmp0(padd(t, pconst(half), -1), '>=' if k % 2 == 0 else '>')


# ----------------------------------------------------------------------------
# Numbers

_ORD = {'i': 0, 'r': 1, 'c': 2}


def _join(a, b):
    return a if _ORD[a] >= _ORD[b] else b


class _Nan(object):
    """Not a number: what numpy returns for 0/0, the root of a negative, ..."""
    k = 'r'
    __slots__ = ()

    def _op(self, *a):
        for x in a:
            if isinstance(x, _np.ndarray):
                return NotImplemented
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __pos__ = _op
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _op

    def _f(self, o):
        return NotImplemented if isinstance(o, _np.ndarray) else False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 0

    def conjugate(self):
        return self
    real = imag = property(lambda self: self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __int__(self):
        raise ValueError('cannot convert float NaN to integer')
    __index__ = __float__ = __int__

    def __repr__(self):
        return 'nan'

    def __format__(self, spec):
        return format(float('nan'), spec)


NAN = _Nan()


def lift(x):
    """SymNum of a number (or NAN)"""
    if isinstance(x, SymNum) or x is NAN:
        return x
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, (bool, _np.bool_)):
        return SymNum(pconst(int(x)), 'i')
    if isinstance(x, (int, _np.integer)):
        return SymNum(pconst(int(x)), 'i')
    if isinstance(x, Fraction):
        return SymNum(pconst(x), 'r')
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return NAN
        if x in (_math.inf, -_math.inf):
            raise EngineLimit('infinite constant')
        return SymNum(pconst(Fraction(x)), 'r')
    if isinstance(x, (complex, _np.complexfloating)):
        x = complex(x)
        p = padd(pconst(Fraction(x.real)), {((A_I.id, 1),): Fraction(x.imag)} if x.imag else {})
        return SymNum(p, 'c')
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError('cannot make a number of %r' % type(x))


class NInt(int):
    """Integer constant that a computation came to: numpy's scalars have these attributes"""
    __slots__ = ()
    shape, ndim, size = (), 0, 1

    def sum(self, *a, **kw):
        return self
    mean = min = max = item = tolist = copy = flatten = squeeze = sum

    def astype(self, dt, *a, **kw):
        from . import shims
        return shims.astype(self, dt)


# Integers that were given a value on this path: atom -> value
FIXED = {}


def _subst_fixed(p):
    if not any(a in FIXED for m in p for a, _ in m):
        return p
    out = {}
    for m, c in p.items():
        r = []
        for a, e in m:
            v = FIXED.get(a)
            if v is None or not isinstance(e, int) or v == 0 and e < 0:
                r.append((a, e))
            else:
                c = c * Fraction(v)**e
        r = tuple(r)
        c += out.get(r, 0)
        if c:
            out[r] = c
        else:
            out.pop(r, None)
    return out


def mk(p, k):
    if FIXED:
        p = _subst_fixed(p)
    if k == 'i' and isconst(p):
        c = constval(p)
        if c.denominator == 1:
            return NInt(c.numerator)
    return SymNum(p, k)


def _canlift(x):
    return isinstance(x, (SymNum, SymBool, _Nan, int, float, complex, Fraction, _np.generic)) or \
        (isinstance(x, _np.ndarray) and x.ndim == 0)


def _arr(x):
    return isinstance(x, _np.ndarray)


class SymNum(object):
    __slots__ = ('p', 'k')

    def __init__(self, p, k):
        self.p = _subst_fixed(p) if FIXED else p
        self.k = k

    # -- arithmetic
    def __add__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return NAN
        return mk(padd(self.p, o.p), _join(self.k, o.k))
    __radd__ = __add__

    def __sub__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return NAN
        return mk(padd(self.p, o.p, -1), _join(self.k, o.k))

    def __rsub__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return lift(o) - self

    def __mul__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return NAN
        p, q = self.p, o.p
        if not isconst(p) and not isconst(q):
            hp, hq = has_bits(p), has_bits(q)
            fp = hp and not _bitsonly(q) and (len(q) > 1 or hq)
            fq = hq and not _bitsonly(p) and (len(p) > 1 or hp)
            if p is q:
                if fp:
                    p = q = freeze(p)
            else:
                if fp:
                    p = freeze(p)
                if fq:
                    q = freeze(q)
        return mk(pmul(p, q), _join(self.k, o.k))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return NAN
        return div(self, o)

    def __rtruediv__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return div(lift(o), self)

    def __floordiv__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return floordiv(self, lift(o))

    def __rfloordiv__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return floordiv(lift(o), self)

    def __mod__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = _fixed(lift(o), self.k == 'i')
        return self - o * floordiv(self, o)

    def __rmod__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        return o - self * floordiv(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return power(self, lift(o))

    def __rpow__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        return power(lift(o), self)

    def __neg__(self):
        return mk(pscale(self.p, -1), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __round__(self, n=None):
        if n is None:
            return rint(self)
        s = 10 ** lift(n) if not isinstance(n, int) else Fraction(10) ** n
        return lift(rint(self * lift(s))) * lift(1) / lift(s)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    # -- comparisons
    def __ge__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return False
        return cmp0(padd(self.p, o.p, -1), '>=')

    def __gt__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return False
        return cmp0(padd(self.p, o.p, -1), '>')

    def __le__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return False
        return cmp0(padd(o.p, self.p, -1), '>=')

    def __lt__(self, o):
        if _arr(o) or not _canlift(o):
            return NotImplemented
        o = lift(o)
        if o is NAN:
            return False
        return cmp0(padd(o.p, self.p, -1), '>')

    def __eq__(self, o):
        if _arr(o):
            return NotImplemented
        if not _canlift(o):
            return False
        o = lift(o)
        if o is NAN:
            return False
        return cmp0(padd(self.p, o.p, -1), '==')

    def __ne__(self, o):
        if _arr(o):
            return NotImplemented
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        if isconst(self.p):
            c = constval(self.p)
            return hash(c)
        if self.k == 'i' and CTX is not None and CTX.small(self):
            # used as a key together with numbers
            return hash(concretise(self))
        return 0

    # -- conversions
    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __int__(self):
        return concretise(trunc(self))

    def __index__(self):
        if self.k != 'i':
            raise TypeError('symbolic real cannot be interpreted as an integer')
        return concretise(self)

    def __float__(self):
        if isconst(self.p):
            return float(constval(self.p))
        raise EngineLimit('symbolic value converted to a native float')

    def __complex__(self):
        raise EngineLimit('symbolic value converted to a native complex')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return self == floor(self)

    # numpy scalars have these
    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return mk(preal(self.p), 'r') if self.k == 'c' else self

    @property
    def imag(self):
        return mk(pimag(self.p), 'r') if self.k == 'c' else 0

    def conjugate(self):
        if self.k != 'c':
            return self
        return SymNum(pconj(self.p), 'c')
    conj = conjugate

    def sum(self):
        return self

    def mean(self):
        return self

    def min(self):
        return self

    def max(self):
        return self

    def __format__(self, spec):
        return totext(self, spec)

    def __str__(self):
        return totext(self, '')

    def __repr__(self):
        if isconst(self.p):
            return str(constval(self.p))
        out = []
        for m, c in sorted(self.p.items()):
            s = '*'.join(ATOMS[a].name + ('' if e == 1 else '^%s' % e) for a, e in m)
            out.append('%s%s' % ('' if c == 1 and s else str(c) + ('*' if s else ''), s))
        return '<%s>' % ' + '.join(out)


# Text: symbolic numbers are written as tokens ~n|format~

TEXT = []
_SPEC = re.compile(r'[-+ #0<>^=]*\d*(?:\.(\d+))?([a-zA-Z]?)$')
TOKEN = re.compile(r'~(\d+)\|(\d+)([a-z])~')
_PERCENT = re.compile(r'%[-+ #0]*(?:\d+|\*)?(?:\.(\d+|\*))?[hlL]?([a-zA-Z%])')


def totext(x, spec):
    if isconst(x.p) and x.k != 'c':
        c = constval(x.p)
        return format(int(c) if x.k == 'i' else float(c), spec)
    m = _SPEC.match(spec)
    if m is None or x.k == 'c':
        raise EngineLimit('format %r of a symbolic number' % spec)
    prec, conv = m.groups()
    if not conv:
        conv = 's' if prec is None else 'g'
    if conv == 'd' and x.k != 'i':
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    return _token(x, prec, conv)


def _token(x, prec, conv):
    conv = conv.lower()
    if conv not in 'sgefdiur':
        raise EngineLimit('format %r of a symbolic number' % conv)
    TEXT.append(x)
    return '~%d|%d%s~' % (len(TEXT) - 1, int(prec) if prec is not None else 6, conv)


def fromtext(s):
    """Number written as text"""
    m = TOKEN.fullmatch(s.strip())
    if m is None:
        return None
    x, prec, conv = TEXT[int(m.group(1))], int(m.group(2)), m.group(3)
    if conv in 'sr' or x.k == 'i' and conv in 'diu':
        return x
    if conv == 'f':
        f = SymNum(pconst(10 ** prec), 'i')
        return div(SymNum(lift(rint(x * f)).p, 'r'), f)
    if conv in 'diu':
        return lift(trunc(x))
    if prec + (conv == 'e') >= 6:
        return SymNum(x.p, 'r')
    # rounded to a few digits
    key = ('digits', prec, pkey(x.p))
    a = _BYKEY.get(key)
    if a is None:
        nm = 'dg%d' % len(ATOMS)
        a = _new_atom(key, nm, 'r', z3.Real(nm))
        _ZSYM[nm] = a
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


def percent(fmt, args):
    """fmt % args with symbolic numbers"""
    if not isinstance(fmt, str):
        return fmt % args
    seq = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not any(isinstance(x, SymNum) and not (isconst(x.p) and x.k != 'c') or x is NAN for x in seq):
        return fmt % args
    out, i, last = [], 0, 0
    for m in _PERCENT.finditer(fmt):
        out.append(fmt[last:m.start()])
        last = m.end()
        if m.group(2) == '%':
            out.append('%')
            continue
        if '*' in m.group(0):
            raise EngineLimit('format ' + m.group(0))
        if i >= len(seq):
            raise TypeError('not enough arguments for format string')
        x = seq[i]
        i += 1
        if x is NAN:
            out.append('nan')
        elif isinstance(x, SymNum) and not (isconst(x.p) and x.k != 'c'):
            out.append(_token(x, m.group(1), m.group(2)))
        else:
            out.append(m.group(0) % (x,))
    out.append(fmt[last:])
    if i != len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def _bitsonly(p):
    """Only bits and constants"""
    return all(ATOMS[a].kind == 'b' for m in p for a, _ in m)


def preal(p):
    """Real part: keeps phases, as (z + conj z)/2"""
    return pscale(padd(p, pconj(p)), Fraction(1, 2))


def pimag(p):
    d = pscale(padd(p, pconj(p), -1), Fraction(1, 2))
    return pmul(d, {((A_I.id, 1),): Fraction(-1)})


def div(x, y, nan=True):
    """x / y; a feasible zero divisor forks (zero branch: NAN or an exception)"""
    if x is NAN or y is NAN:
        return NAN
    k = _join(_join(x.k, y.k), 'r')
    if y.k == 'i':
        y = _fixed(y)
    q = y.p
    if CTX is not None and CTX.settle:
        q = settle(q)
    if isconst(q):
        c = constval(q)
        if c == 0:
            return CTX.div0(x)
        return mk(pscale(x.p, Fraction(1) / c), k)
    if not x.p:
        # still a zero divisor must be detected
        pass
    if not known_nonzero(q):
        c = cmp0(q, '==') if not is_complex(q) else False
        if c is True or (c is not False and bool(c)):
            return CTX.div0(x)
    if has_bits(q):
        q = freeze(q)
    return mk(pmul(x.p, pinv(q)), k)


def settle(p):
    """Replace the bits whose value is implied by the path"""
    bits = {}
    for m in p:
        for a, _ in m:
            if ATOMS[a].kind == 'b' and a not in bits:
                bits[a] = settled(SymBool(ATOMS[a].z))
    if not any(d is not None for d in bits.values()):
        return p
    out = {}
    for m, c in p.items():
        if any(bits.get(a) is False for a, _ in m):
            continue
        m = tuple(x for x in m if bits.get(x[0]) is None)
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def known_nonzero(p):
    if surely_pos(p) or surely_pos(pscale(p, -1)):
        return True
    if len(p) == 1:
        (m, c), = p.items()
        return all(ATOMS[a].pos for a, _ in m)
    return False


def _intpart(t):
    """Split t into an integer-valued polynomial and the rest"""
    ip, rest = {}, {}
    for m, c in t.items():
        ok = c.denominator == 1
        if ok:
            for a, e in m:
                if ATOMS[a].kind not in ('i', 'b') or not isinstance(e, int) or e < 0:
                    ok = False
                    break
        if ok:
            ip[m] = c
        else:
            rest[m] = c
    return ip, rest


def floor(x):
    x = lift(x)
    if x is NAN:
        raise ValueError('cannot convert float NaN to integer')
    if x.k == 'i':
        return mk(x.p, 'i')
    if is_complex(x.p):
        raise TypeError('floor of a complex')
    ip, rest = _intpart(x.p)
    if isconst(rest):
        return mk(padd(ip, pconst(_math.floor(constval(rest)))), 'i')
    r = _pi_range(rest)
    if r is not None and _math.floor(r[0]) == _math.floor(r[1]):
        return mk(padd(ip, pconst(_math.floor(r[0]))), 'i')
    c = rest.get(ONE, Fraction(0))
    fl = _math.floor(c)
    if fl:
        rest = padd(rest, pconst(fl), -1)
        ip = padd(ip, pconst(fl))
    a = _round_atom('floor', rest)
    return mk(padd(ip, {((a.id, 1),): Fraction(1)}), 'i')


_PI_LO = Fraction(3141592653589793238462643383279502884, 10**36)
_PI_HI = Fraction(3141592653589793238462643383279502885, 10**36)


def _pi_range(p):
    """Bounds of a number made of powers of pi only"""
    if A_PI is None:
        return None
    lo = hi = Fraction(0)
    for m, c in p.items():
        if len(m) > 1 or (m and m[0][0] != A_PI.id):
            return None
        e = m[0][1] if m else 0
        a, b = sorted((c * _PI_LO**e, c * _PI_HI**e))
        lo, hi = lo + a, hi + b
    return lo, hi


def _round_atom(kind, t):
    key = (kind, pkey(t))
    a = _BYKEY.get(key)
    if a is None:
        nm = '%s%d' % (kind, len(ATOMS))
        n = z3.Int(nm)
        z = z3.ToReal(n)
        a = _new_atom(key, nm, 'i', z, info=(kind, t), nonneg=surely_nonneg(t))
        _ZSYM[nm] = a
        zt = render(t)
        if kind == 'floor':
            a.ax1 += [z <= zt, zt < z + 1]
        else:
            h = z3.Q(1, 2)
            a.ax1 += [z - h <= zt, zt <= z + h]
            a.ax2 += [z3.Implies(zt == z + h, n % 2 == 0), z3.Implies(zt == z - h, n % 2 == 0)]
    return a


def trunc(x):
    x = lift(x)
    if x is NAN:
        raise ValueError('cannot convert float NaN to integer')
    if x.k == 'i':
        return mk(x.p, 'i')
    if isconst(x.p):
        return int(constval(x.p))
    if surely_nonneg(x.p):
        return floor(x)
    s = cmp0(x.p, '>=')
    if isinstance(s, SymBool):
        if CTX.entailed(s):
            s = True
        elif CTX.entailed(~s):
            s = False
    if s is True:
        return floor(x)
    if s is False:
        return -floor(-x)
    return ite(s, floor(x), -floor(-x))


def rint(x):
    """Round half to even, as an integer-valued number"""
    x = lift(x)
    if x is NAN:
        return NAN
    if x.k == 'i':
        return mk(x.p, 'i')
    if has_bits(x.p):
        pass
    ip, rest = _intpart(x.p)
    h = Fraction(1, 2)
    if isconst(rest):
        if isconst(ip) or constval(rest).denominator != 2:
            return mk(padd(ip, pconst(round(constval(rest)))), 'i')
    r = _pi_range(x.p)
    if r is not None and _math.floor(r[0] + h) == _math.floor(r[1] + h) and r[0] + h != _math.floor(r[0] + h):
        return mk(pconst(_math.floor(r[0] + h)), 'i')
    # try to see the range of the rest
    inside = sym_and(cmp0(padd(pconst(h), rest), '>'), cmp0(padd(pconst(h), rest, -1), '>'))
    if CTX.entailed(inside):
        return mk(ip, 'i')
    t = x.p
    up = Fraction(3, 2)
    inside = sym_and(cmp0(padd(pconst(up), t), '>'), cmp0(padd(pconst(up), t, -1), '>'))
    if CTX.entailed(inside):
        b1 = to_bool(cmp0(padd(t, pconst(h), -1), '>'))
        b2 = to_bool(cmp0(padd(pscale(t, -1), pconst(h), -1), '>'))
        return lift(b1) - lift(b2)
    sign = 1
    lead = _lead(t)
    if t[lead] < 0:
        t = pscale(t, -1)
        sign = -1
    a = _round_atom('rint', t)
    return mk({((a.id, 1),): Fraction(sign)}, 'i')


def _fixed(y, few=False):
    """
    A divisor that is an integer with only one value on this path (or a few,
    on which to fork) as a constant
    """
    if y is NAN or y.k != 'i' or isconst(y.p) or CTX is None:
        return y
    v = CTX.unique(y)
    if v is None and few and CTX.small(y):
        v = concretise(y)
    return y if v is None else lift(v)


def floordiv(x, y):
    if x is NAN or y is NAN:
        return NAN
    y = _fixed(y, x.k == 'i')
    if x.k == 'i' and y.k == 'i':
        q = div(SymNum(x.p, 'r'), SymNum(y.p, 'r'))
        return floor(q)
    r = lift(floor(div(x, y)))
    return SymNum(r.p, 'r')


def absolute(x):
    x = lift(x)
    if x is NAN:
        return NAN
    if x.k == 'c':
        return sqrt(SymNum(preal(pmul(x.p, pconj(x.p))), 'r'), sure=True)
    s = cmp0(x.p, '>=')
    if s is True:
        return mk(x.p, x.k)
    if s is False:
        return -x
    return ite(s, x, -x)


def power(x, y):
    if x is NAN or y is NAN:
        return NAN
    if not isconst(y.p):
        raise EngineLimit('symbolic exponent')
    e = constval(y.p)
    k = x.k
    if e.denominator > 64:
        # floating point value of 1/3, ...
        f = e.limit_denominator(64)
        if float(f) == float(e):
            e = f
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            return div(SymNum(pconst(1), 'r'), lift(power(x, SymNum(pconst(-n), 'i'))))
        if y.k == 'r':
            k = _join(k, 'r')
        p = x.p
        if n >= 2 and has_bits(p):
            p = freeze(p)
        return mk(ppow(p, n), k)
    q = e.denominator
    if q == 2:
        r = sqrt(SymNum(x.p, _join(k, 'r')))
    else:
        r = root(SymNum(x.p, _join(k, 'r')), q)
    return power(lift(r), SymNum(pconst(e.numerator), 'i'))


def _sqrt_frac(c):
    n, d = _math.isqrt(c.numerator), _math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _squarefree(n):
    """n = s**2 * (product of distinct primes), or None if it has large factors"""
    s, primes = 1, []
    for q in range(2, 1000):
        while n % (q * q) == 0:
            n //= q * q
            s *= q
        if n % q == 0:
            n //= q
            primes.append(q)
        if n == 1:
            return s, primes
    return None, None


def sqrt(x, raises=False, sure=False):
    x = lift(x)
    if x is NAN:
        return NAN
    p = x.p
    if not p:
        return SymNum({}, 'r')
    if is_complex(p) and x.k == 'c':
        raise EngineLimit('square root of a complex')
    if isconst(p):
        c = constval(p)
        if c < 0:
            if raises:
                raise ValueError('math domain error')
            return NAN
        s = _sqrt_frac(c)
        if s is not None:
            return SymNum(pconst(s), 'r')
    nonneg = sure or surely_nonneg(p) or psd(p)
    if not nonneg and len(p) == 1:
        (m, c), = p.items()
        if c > 0 and len(m) == 1 and m[0][1] == 1:
            info = ATOMS[m[0][0]].info
            if info and info[0] == 'w':
                nonneg = surely_nonneg(info[1]) or psd(info[1])
    if has_bits(p):
        p = freeze(p)
    # sign
    if not nonneg:
        s = cmp0(p, '>=')
        if s is False or (s is not True and not bool(s)):
            if raises:
                raise ValueError('math domain error')
            return NAN
    # factor out even powers of positive atoms common to all monomials, and squares in the content
    out = pconst(1)
    com = None
    for m in p:
        d = dict(m)
        if com is None:
            com = {a: e for a, e in d.items() if ATOMS[a].kind in ('r', 'i')}
        else:
            new = {}
            for a in set(com) | set(d):
                e1, e2 = com.get(a, 0), d.get(a, 0)
                if ATOMS[a].kind not in ('r', 'i'):
                    continue
                e = min(e1, e2)
                if e:
                    new[a] = e
            com = new
    outm = {}
    for a, e in (com or {}).items():
        if not isinstance(e, int):
            continue
        h = e // 2
        if h and (ATOMS[a].pos or ATOMS[a].nonneg):
            outm[a] = h
        elif h and len(p) == 1 and e % 2 == 0:
            # sqrt(a^2 ...) = |a| ...
            v = lift(absolute(SymNum({((a, 1),): Fraction(1)}, 'r')))
            out = pmul(out, ppow(v.p, abs(h)) if h > 0 else pinv(ppow(freeze(v.p), -h)))
            p = pmul(p, {((a, -2 * h),): Fraction(1)})
    # reciprocals of sums stay inside: taking them out would multiply out what is left
    outm = {a: h for a, h in outm.items() if a not in _INVOF and not (ATOMS[a].info and ATOMS[a].info[0] in ('sqrt', 'root'))}
    if outm:
        out = pmul(out, {tuple(sorted(outm.items())): Fraction(1)})
        p = pmul(p, {tuple(sorted((a, -2 * h) for a, h in outm.items())): Fraction(1)})
    lead = _lead(p)
    c = abs(p[lead]) if lead in p else Fraction(1)
    s = _sqrt_frac(c)
    if s is not None and s != 0:
        p = pscale(p, Fraction(1) / c)
        out = pscale(out, s)
    if isconst(p):
        v = _sqrt_frac(constval(p))
        if v is not None:
            return SymNum(pscale(out, v), 'r')
    if isconst(p):
        # roots of constants in terms of roots of primes
        c = constval(p)
        sq, primes = _squarefree(c.numerator * c.denominator)
        if sq is not None and (sq > 1 or c.denominator > 1 or len(primes) > 1):
            out = pscale(out, Fraction(sq, c.denominator))
            for n in primes:
                out = pmul(out, sqrt(n).p)
            return SymNum(out, 'r')
    key = ('sqrt', pkey(p))
    a = _BYKEY.get(key)
    if a is None:
        nm = 's%d' % len(ATOMS)
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, pos=surely_pos(p), nonneg=True, info=('sqrt', p))
        if not isconst(p):
            _FACTORS[key[1]] = p
        _ZSYM[nm] = a
        zp = render(p)
        a.ax1 += [z >= 0, (z == 0) == (zp <= 0)]
        a.ax2 += [z3.Implies(zp >= 0, z * z == zp)]
        if isconst(p):
            v = constval(p)
            f = _math.sqrt(v)
            lo, hi = Fraction(f) * (1 - Fraction(1, 10**12)), Fraction(f) * (1 + Fraction(1, 10**12))
            a.ax1 += [z > _q(lo), z < _q(hi)]
    return SymNum(pmul(out, {((a.id, 1),): Fraction(1)}), 'r')


def root(x, q):
    """Positive q-th root"""
    p = x.p
    if isconst(p):
        c = constval(p)
        if c == 0:
            return SymNum({}, 'r')
        n, d = round(c.numerator ** (1.0 / q)), round(c.denominator ** (1.0 / q))
        if n ** q == c.numerator and d ** q == c.denominator:
            return SymNum(pconst(Fraction(n, d)), 'r')
    if len(p) == 1 and list(p.values())[0] == 1:
        m = list(p)[0]
        if all(e % q == 0 and (ATOMS[i].nonneg or ATOMS[i].pos) for i, e in m):
            return SymNum({tuple((i, e // q) for i, e in m): Fraction(1)}, 'r')
    if not surely_nonneg(p):
        s = cmp0(p, '>=')
        if s is False or (s is not True and not bool(s)):
            return NAN
    key = ('root', q, pkey(p))
    a = _BYKEY.get(key)
    if a is None:
        nm = 'rt%d' % len(ATOMS)
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, pos=surely_pos(p), nonneg=True, info=('root', p, q))
        _ZSYM[nm] = a
        zp = render(p)
        one = z3.RealVal(1)
        a.ax1 += [z >= 0, (z == 0) == (zp <= 0), (z == 1) == (zp == 1),
                  (z > 1) == (zp > 1), z3.Implies(zp > 1, z < zp), z3.Implies(z3.And(zp < 1, zp > 0), z > zp)]
        t = z
        for _ in range(q - 1):
            t = t * z
        a.ax2 += [z3.Implies(zp >= 0, t == zp)]
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


def freeze(p):
    """
    Replace a piecewise polynomial (one with condition bits) by an opaque atom,
    re-using (up to sign) an atom proved equal to it by the solver.
    """
    if is_complex(p):
        return p
    key = pkey(p)
    f = _FREEZE.get(key)
    if f is not None:
        return f
    sup = frozenset(_inputs_of(p))
    for a in _FREEZE.setdefault(('sup', sup), []):
        q = a.info[1]
        if CTX.equal_base(p, q):
            f = {((a.id, 1),): Fraction(1)}
        elif CTX.equal_base(p, pscale(q, -1)):
            f = {((a.id, 1),): Fraction(-1)}
        if f is not None:
            _FREEZE[key] = f
            return f
    nm = 'w%d' % len(ATOMS)
    z = z3.Real(nm)
    a = _new_atom(None, nm, 'r', z, info=('w', p))
    _ZSYM[nm] = a
    a.ax1.append(z == render(p))
    _FREEZE[('sup', sup)].append(a)
    f = {((a.id, 1),): Fraction(1)}
    _FREEZE[key] = f
    return f


def _inputs_of(p, seen=None):
    """Atoms of p, going through bits"""
    names = set(consts_of(render(p)))
    out = set()
    todo = list(names)
    done = set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        h = _ZSYM.get(n)
        if isinstance(h, Atom) and h.inp:
            out.add(n)
        elif h is not None:
            for ax in list(h.ax1) + list(h.ax2):
                todo.extend(consts_of(ax))
        else:
            out.add(n)
    return out


def exp_i(theta):
    """exp(i*theta), theta a real polynomial"""
    r = pconst(1)
    d = {}
    for m, c in theta.items():
        if m == ONE:
            if c == 0:
                continue
        # 2*pi*integer
        am = dict(m)
        rest = dict(am)
        if rest.get(A_PI.id) == 1:
            rest.pop(A_PI.id)
            if rest and all(ATOMS[a].kind in ('i', 'b') and isinstance(e, int) and e > 0 for a, e in rest.items()) \
               and c.denominator == 1 and c % 2 == 0:
                continue
        if any(ATOMS[a].kind == 'b' for a in am):
            f = freeze(theta)
            return exp_i(f)
        key = ('phase', m)
        a = _BYKEY.get(key)
        if a is None:
            a = _new_atom(key, 'E%d' % len(ATOMS), 'phase', None, info=m)
        d[a.id] = d.get(a.id, 0) + c
    d = {a: (int(e) if Fraction(e).denominator == 1 else e) for a, e in d.items() if e != 0}
    return _reduce(d) if d else r


def cexp(x):
    """Complex exponential of a purely imaginary argument"""
    x = lift(x)
    if x is NAN:
        return NAN
    if not x.p:
        return SymNum(pconst(1), x.k if x.k != 'i' else 'r')
    theta = pmul(x.p, {((A_I.id, 1),): Fraction(-1)})
    if is_complex(theta):
        if not is_complex(x.p):
            return rexp(x)
        raise EngineLimit('exponential of a general complex number')
    return SymNum(exp_i(theta), 'c')


def rexp(x):
    """Real exponential (the floating-point number, if it is a constant)"""
    if isconst(x.p):
        return SymNum(pconst(Fraction(_math.exp(constval(x.p)))), 'r')
    key = ('exp', pkey(x.p))
    a = _BYKEY.get(key)
    if a is None:
        nm = 'exp%d' % len(ATOMS)
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, pos=True)
        _ZSYM[nm] = a
        a.ax1.append(z > 0)
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


def cos(x):
    x = lift(x)
    if x is NAN:
        return NAN
    e = exp_i(x.p)
    return mk(preal(e), 'r')


def sin(x):
    x = lift(x)
    if x is NAN:
        return NAN
    e = exp_i(x.p)
    return mk(pimag(e), 'r')


def acos(x):
    """Arc cosine in radians: a decreasing function, opaque otherwise"""
    x = lift(x)
    if x is NAN:
        return NAN
    p = x.p
    if isconst(p):
        c = constval(p)
        if c == 1:
            return SymNum({}, 'r')
        if c == -1:
            return SymNum({((A_PI.id, 1),): Fraction(1)}, 'r')
        if c == 0:
            return SymNum({((A_PI.id, 1),): Fraction(1, 2)}, 'r')
    if has_bits(p):
        p = freeze(p)
    key = ('acos', pkey(p))
    a = _BYKEY.get(key)
    if a is None:
        nm = 'acos%d' % len(ATOMS)
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, nonneg=True, info=('acos', p))
        _ZSYM[nm] = a
        zp = render(p)
        pi = A_PI.z
        a.ax1 += [z >= 0, z <= pi, (z == 0) == (zp >= 1), (z == pi) == (zp <= -1),
                  (zp > 0) == (2 * z < pi), (zp < 0) == (2 * z > pi)]
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


def uninterpreted(name, *args, **kw):
    """An opaque real function of its arguments (used for acos etc.)"""
    key = ('uf', name) + tuple(pkey(lift(a).p) for a in args)
    a = _BYKEY.get(key)
    if a is None:
        nm = '%s_%d' % (name, len(ATOMS))
        z = z3.Real(nm)
        a = _new_atom(key, nm, 'r', z, **kw)
        _ZSYM[nm] = a
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


_uninit = [0]


def fresh_garbage():
    _uninit[0] += 1
    nm = 'uninit%d' % _uninit[0]
    key = ('garbage', nm)
    a = _BYKEY.get(key)
    if a is None:
        a = _new_atom(key, nm, 'r', z3.Real(nm))
        _ZSYM[nm] = a
    return SymNum({((a.id, 1),): Fraction(1)}, 'r')


def concretise(x):
    """Fork over the feasible values of a symbolic integer"""
    x = lift(x)
    if isconst(x.p):
        return int(constval(x.p))
    ids = sorted(set(a for m in x.p for a, _ in m))
    if any(len(m) > 1 or e != 1 for m in x.p for _, e in m) and len(ids) < 3 \
            and all(ATOMS[a].kind == 'i' for a in ids):
        # a polynomial in a few integers: fix those
        v = {a: concretise(mk({((a, 1),): Fraction(1)}, 'i')) for a in ids}
        t = Fraction(0)
        for m, c in x.p.items():
            for a, e in m:
                c = c * Fraction(v[a])**e
            t += c
        if t.denominator != 1:
            raise EngineLimit('no integer value for %r' % (x,))
        return int(t)
    n = 0
    no = []
    while True:
        v = CTX.some_value(x, no)
        no.append(v)
        c = x == v
        if isinstance(c, bool):
            if c:
                return v
        elif bool(c):
            ms = [m for m in x.p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ATOMS[ms[0][0][0]].kind == 'i':
                t = (v - x.p.get((), Fraction(0))) / Fraction(x.p[ms[0]])
                if t.denominator != 1:
                    raise AbandonPath()
                FIXED[ms[0][0][0]] = int(t)
            return v
        n += 1
        if n > CTX.max_fanout:
            raise EngineLimit('too many values for a symbolic integer: %r' % x)


# The current exploration context (set by engine.Explorer)
CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def PI():
    return SymNum({((A_PI.id, 1),): Fraction(1)}, 'r')


def IM():
    return SymNum({((A_I.id, 1),): Fraction(1)}, 'c')


A_I = A_PI = None


def subst_bits(p, m):
    """p with some 0/1 atoms replaced by constants"""
    out = {}
    for mono, c in p.items():
        keep = []
        zero = False
        for a, e in mono:
            v = m.get(a)
            if v is None:
                keep.append((a, e))
            elif v == 0:
                zero = True
                break
        if zero:
            continue
        k = tuple(keep)
        s = out.get(k, 0) + c
        if s:
            out[k] = s
        else:
            out.pop(k, None)
    return out


def bit_of(c):
    """(atom id, value when c holds) of a condition that is a single literal"""
    if not isinstance(c, SymBool):
        return None
    bp = c.bp
    ms = [x for x in bp if x != ONE]
    if len(ms) == 1 and len(ms[0]) == 1 and ATOMS[ms[0][0][0]].kind == 'b':
        return ms[0][0][0], (1 if bp[ms[0]] > 0 else 0)
    return None
