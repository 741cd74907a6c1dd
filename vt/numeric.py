"""
Floating-point evaluation of the solver's terms at given inputs. It only proposes
counterexamples of claims that the solver could not discharge; they are then
replayed on the real package like all the others.
"""

import cmath
import math
from fractions import Fraction

import z3

from . import sym


class Unsupported(Exception):
    pass


class Evaluator(object):
    """Values of atoms, polynomials and z3 terms for an assignment of the inputs"""

    TOL = 1e-6

    def __init__(self):
        self.keys = {}
        for k, a in sym._BYKEY.items():
            if isinstance(a, sym.Atom):
                self.keys[a.id] = k
        self.names = {a.name: a for a in sym.ATOMS}
        self.monos = {str(z): base for base, z in sym._MONOZ.items()}
        self.order = {}

    def set(self, vals):
        self.vals = vals          # input name -> float
        self.atoms = {}
        self.terms = {}

    # ------------------------------------------------------------------
    def poly(self, p):
        s = 0.0
        for m, c in p.items():
            s = s + float(c) * self.mono(m)
        return s

    def mono(self, m):
        t = 1.0
        for a, e in m:
            v = self.atom(a)
            if isinstance(e, int):
                t = t * v ** e
            else:
                t = t * cmath.exp(1j * float(e) * self._arg(a))
        return t

    def _arg(self, i):
        return self.real(self.mono(sym.ATOMS[i].info))

    @staticmethod
    def real(x):
        return x.real if isinstance(x, complex) else x

    def atom(self, i):
        v = self.atoms.get(i)
        if v is None:
            v = self.atoms[i] = self._atom(sym.ATOMS[i])
        return v

    def _atom(self, a):
        if a.inp:
            return self.vals[a.name]
        if a is sym.A_PI:
            return math.pi
        if a.kind == 'I':
            return 1j
        if a.kind == 'b':
            return 1.0 if self.term(a.z) else 0.0
        if a.kind == 'phase':
            return cmath.exp(1j * self.real(self.mono(a.info)))
        if a.info is not None:
            kind, x = a.info[0], self.poly(a.info[1])
            if kind in ('floor', 'rint', 'round', 'trunc'):
                x = self.real(x)
                return float(math.floor(x)) if kind == 'floor' else float(round(x))
            if kind == 'w':
                return self.real(x)
            x = self.real(x)
            if kind == 'sqrt':
                return math.sqrt(x)
            if kind == 'root':
                return x ** (1.0 / a.info[2])
            if kind == 'acos':
                return math.acos(min(1.0, max(-1.0, x)))
            raise Unsupported(kind)
        k = self.keys.get(a.id)
        if k is None:
            raise Unsupported(a.name)
        if k[0] == 'inv':
            return 1.0 / self.poly(dict(k[1]))
        if k[0] == 'exp':
            return math.exp(self.real(self.poly(dict(k[1]))))
        raise Unsupported(str(k[0]))

    # ------------------------------------------------------------------
    def term(self, z):
        i = z.get_id()
        v = self.terms.get(i)
        if v is None:
            # keeps z alive, so that the id is not reused
            v = self.terms[i] = (self._term(z), z)
        return v[0]

    def _const(self, name):
        m = self.monos.get(name)
        if m is not None:
            return self.real(self.mono(m))
        a = self.names.get(name)
        if a is not None:
            if isinstance(self.keys.get(a.id), tuple) and self.keys[a.id][0] == 'ct':
                _, base, ph, im = self.keys[a.id]
                x = self._phase(ph)
                return self.real(self.mono(base)) * (x.imag if im else x.real)
            return self.real(self.atom(a.id))
        for pre in ('cos', 'sin'):
            if name.startswith(pre):
                a = self.names.get('cs' + name[3:])
                if a is not None:
                    x = self._phase(self.keys[a.id][1])
                    return x.real if pre == 'cos' else x.imag
        raise Unsupported(name)

    def _phase(self, ph):
        return cmath.exp(1j * sum(float(e) * self._arg(a) for a, e in ph))

    def _term(self, z):
        if z3.is_rational_value(z) or z3.is_int_value(z):
            return float(z.as_fraction()) if not z3.is_int_value(z) else float(z.as_long())
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        d = z.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED and z.num_args() == 0:
            return self._const(d.name())
        if k == z3.Z3_OP_ITE:
            return self.term(z.arg(1) if self.term(z.arg(0)) else z.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.term(c) for c in z.children())
        if k == z3.Z3_OP_OR:
            return any(self.term(c) for c in z.children())
        if k == z3.Z3_OP_IMPLIES:
            return not self.term(z.arg(0)) or self.term(z.arg(1))
        v = [self.term(c) for c in z.children()]
        if k == z3.Z3_OP_NOT:
            return not v[0]
        if k == z3.Z3_OP_ADD:
            return sum(v)
        if k == z3.Z3_OP_SUB:
            return v[0] - sum(v[1:])
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_MUL:
            t = 1.0
            for x in v:
                t *= x
            return t
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
            return v[0] if k == z3.Z3_OP_TO_REAL else float(math.floor(v[0]))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            q = math.floor(v[0] / v[1])
            return float(q) if k == z3.Z3_OP_IDIV else v[0] - q * v[1]
        if k == z3.Z3_OP_EQ:
            if isinstance(v[0], bool):
                return v[0] == v[1]
            return abs(v[0] - v[1]) <= self.TOL * (1e-3 + abs(v[0]) + abs(v[1]))
        if k == z3.Z3_OP_DISTINCT:
            return abs(v[0] - v[1]) > self.TOL * (1e-3 + abs(v[0]) + abs(v[1]))
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        raise Unsupported(d.name())


def search(inputs, hyp, goal, start, rng, tries=400, clock=None):
    """
    Random inputs (dyadic numbers) that satisfy the hypotheses and the goal.
    `inputs` are the atoms of the inputs by name, `start` a list of models.
    """
    ev = Evaluator()
    names = list(inputs)
    bad = 0
    for t in range(tries):
        if clock is not None and clock():
            return None
        base = start[t % len(start)] if start and t % 3 else None
        w = (1.0, 0.5, 0.1, 2.0, 0.02)[t % 5]
        vals = {}
        for n in names:
            a = inputs[n]
            if a.kind == 'i':
                v = Fraction(base[n]) if base else Fraction(rng.randint(0, 5))
                if t % 4 == 3:
                    v += rng.randint(-1, 1)
            else:
                c = float(base[n]) if base else 0.0
                if base is None and (a.pos or a.nonneg):
                    x = rng.uniform(0.1, 3.0)
                else:
                    x = c + w * rng.uniform(-1, 1) * max(1.0, abs(c)) * (1 if base is None or rng.random() < 0.8 else 0)
                v = Fraction(round(x * 256), 256)
                if a.pos and v <= 0:
                    v = Fraction(round(rng.uniform(0.05, 2.0) * 256), 256)
                elif a.nonneg and v < 0:
                    v = -v
            vals[n] = v
        ev.set({n: float(v) for n, v in vals.items()})
        try:
            if all(ev.term(h) for h in hyp) and ev.term(goal):
                return vals
        except Unsupported:
            return None
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            bad += 1
            if bad > 60:
                return None
    return None
