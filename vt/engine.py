"""
Path exploration of the real code over symbolic inputs, decided by z3.

A harness is a Python function of a backend `B`; it is re-executed once per
feasible path.  Every decision the code takes on a symbolic condition goes
through `Explorer.branch`, every claim through `Explorer.claim`.
"""

import random
import time
from fractions import Fraction

import z3

from . import numeric, sym
from .sym import (EngineLimit, PathLimit, AbandonPath, SymNum, SymBool, NAN, lift)


class Stats(object):
    FIELDS = ('queries', 'solver_s', 'unknown', 'paths', 'decisions', 'claims',
              'discharged', 'tier2', 'undecided', 'abandoned', 'forced')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Candidate(object):
    """A possible counterexample: an assignment of the harness inputs"""

    def __init__(self, inputs, label, decisions, how):
        self.inputs, self.label, self.decisions, self.how = inputs, label, decisions, how


class Explorer(object):

    def __init__(self, seed=1, max_paths=2000, time_limit=60.0, max_fanout=24,
                 timeout1=4000, timeout2=8000, max_candidates=6):
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.max_fanout = max_fanout
        self.timeout1, self.timeout2 = timeout1, timeout2
        self.max_candidates = max_candidates
        self.stats = Stats()
        self.candidates = []
        self.tnum = 0
        self.settle = False      # replace implied conditions by their value early
        self.exact = None        # claims that fail, when all the inputs are given
        self.nfound = self.nstrong = self.nunknown = 0
        self.tsearch = 0.0
        self.nlabel = {}
        self.limits = []
        self.samples = []        # models of explored paths
        self.inputs = {}
        self._eqbase = {}

    # ------------------------------------------------------------------
    def explore(self, harness):
        """Run `harness(self)` along all feasible paths"""
        self.t0 = time.time()
        sym.reset()
        sym.set_ctx(self)
        stack = [[]]
        self.complete = True
        while stack:
            if self.nstrong >= self.max_candidates or len(self.candidates) >= 60:
                break
            if self.stats.paths >= self.max_paths or time.time() - self.t0 > self.time_limit:
                self.complete = False
                self.limits.append('path budget exhausted (%d paths, %d pending)' % (self.stats.paths, len(stack)))
                break
            prefix = stack.pop()
            self._start(prefix)
            try:
                harness(self)
                self._end_path()
            except AbandonPath:
                self.stats.abandoned += 1
            except EngineLimit as e:
                self.complete = False
                self.stats.undecided += 1
                self.limits.append('engine limit: %s' % e)
                self._sample()
            except PathLimit as e:
                self.complete = False
                self.limits.append(str(e))
                self._sample()
            except RecursionError as e:
                self.complete = False
                self.stats.undecided += 1
                self.limits.append('recursion: %s' % e)
                self._sample()
            except Exception as e:
                self.crash(e)
            self.stats.paths += 1
            self.stats.decisions += max(0, len(self.trace) - len(prefix))
            for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                d, alt = self.trace[i]
                if alt:
                    stack.append([x for x, _ in self.trace[:i]] + [not d])
        sym.set_ctx(None)

    def crash(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb][-4:]
        outside = [f for f in tb if '/vt/' not in f.filename]
        last = tb[-1].filename
        msg = '%s: %s at %s' % (type(e).__name__, e, ' > '.join(where))
        # an exception of the code under test is a candidate violation,
        # one of the machinery is a limit; both are settled by the replay
        self.limits.append('exception: ' + msg) if ('/vt/' in last or not outside) else None
        self.complete = self.complete and not ('/vt/' in last)
        m = self._input_model('exception ' + msg)
        if m is not None:
            self.candidates.append(Candidate(m, 'exception: ' + msg, len(self.trace), 'exception'))

    # ------------------------------------------------------------------
    def _start(self, prefix):
        self.prefix = self.prefix0 = prefix
        self.pos = 0
        self.trace = []
        self.done = set()
        self.decided = {}
        sym.FIXED.clear()
        self.hyp = []
        self.pending = []
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', self.timeout1)
        self.inputs = {}
        self.base = []
        self._model = None
        self._ent = {}
        self.ver = 0
        self.notes = {}
        self._small = {}
        self._uniq = {}
        sym._SQ.clear()
        sym._SQ2.clear()

    def _need(self, z):
        for ax in sym.axioms_for(sym.consts_of(z), 1, self.done):
            self.solver.add(ax)

    def check(self, *zs):
        for z in zs:
            self._need(z)
        t = time.time()
        r = self.solver.check(*zs)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        elif r == z3.sat:
            self._model = self.solver.model()
        return r

    def add(self, z):
        self._need(z)
        self.solver.add(z)
        self.hyp.append(z)
        self._decide(z)

    def _fact(self, fn):
        """What the solver says at this point of the path (recorded, to be the same when it is resumed)"""
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            assert isinstance(r, tuple) and r[0] == 'f', 'path is not deterministic'
        else:
            r = ('f', fn())
        self.trace.append((r, False))
        return r[1]

    def _decide(self, z):
        self.decided[z.get_id()] = (True, z)
        if z3.is_not(z):
            self.decided[z.arg(0).get_id()] = (False, z.arg(0))
        elif z3.is_and(z):
            for c in z.children():
                self.decided[c.get_id()] = (True, c)

    # ------------------------------------------------------------------
    # inputs
    def declare(self, name, kind, pos=False, nonneg=False):
        """A symbolic input"""
        a = sym._BYKEY.get(('in', name))
        if a is None:
            if kind == 'i':
                z = z3.ToReal(z3.Int(name))
            else:
                z = z3.Real(name)
            a = sym._new_atom(('in', name), name, kind, z, pos=pos, nonneg=nonneg)
            a.inp = True
            if pos:
                a.ax1.append(z > 0)
            elif nonneg:
                a.ax1.append(z >= 0)
            sym._ZSYM[name] = a
        self.inputs[name] = a
        if pos:
            self.add(a.z > 0)
        elif nonneg:
            self.add(a.z >= 0)
        return SymNum({((a.id, 1),): Fraction(1)}, kind)

    def assume(self, c):
        c = sym.to_bool(c)
        if c is True:
            return
        if c is False:
            raise AbandonPath()
        z = c.z
        d = self.decided.get(z.get_id())
        if d is not None and d[0] is True:
            return
        if d is not None and d[0] is False:
            raise AbandonPath()
        self.add(z)
        self.base.append(z)

    def feasible(self):
        return self.check() != z3.unsat

    # ------------------------------------------------------------------
    def _lookup(self, z):
        d = self.decided.get(z.get_id())
        if d is not None:
            return d[0]
        if z3.is_not(z):
            d = self._lookup(z.arg(0))
            return None if d is None else not d
        if z3.is_and(z):
            r = True
            for c in z.children():
                d = self._lookup(c)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        return None

    def branch(self, sb):
        z = sb.z
        d = self._lookup(z)
        if d is not None:
            return d
        self.ver += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, bool), 'path is not deterministic'
            self.pos += 1
            self.trace.append((d, False))
            self.add(z if d else z3.Not(z))
            return d
        nz = z3.Not(z)
        first = True
        r1 = self.check(z)
        if r1 == z3.unsat:
            self._forced(nz, False)
            return False
        r2 = self.check(nz)
        if r2 == z3.unsat:
            self._forced(z, True)
            return True
        if sum(1 for _, alt in self.trace if alt) + len(self.prefix0) > 400:
            raise PathLimit('too many decisions on a path')
        if time.time() - self.t0 > 1.5 * self.time_limit:
            raise PathLimit('time limit inside a path')
        self.trace.append((True, True))
        self.add(z)
        return True

    def _forced(self, z, d):
        self.stats.forced += 1
        self.trace.append((d, False))
        self._decide(z)

    def entailed(self, b):
        b = sym.to_bool(b)
        if isinstance(b, bool):
            return b
        d = self._lookup(b.z)
        if d is not None:
            return d
        k = b.z.get_id()
        if k in self._ent:
            if self._ent[k][0] or self._ent[k][1] == self.ver:
                return self._ent[k][0]
        r = self._fact(lambda: self.check(z3.Not(b.z)) == z3.unsat)
        self._ent[k] = (r, self.ver, b.z)
        return r

    def equal_base(self, p, q):
        """p == q on every path (under the base assumptions only)"""
        d = sym.padd(p, q, -1)
        if not d:
            return True
        key = (sym.pkey(d), tuple(z.get_id() for z in self.base))
        r = self._eqbase.get(key)
        if r is None:
            zp = sym.render(d) != 0
            s = z3.SimpleSolver()
            s.set('timeout', 2000)
            names = set(sym.consts_of(zp))
            done = set()
            for ax in sym.axioms_for(names, 1, done):
                s.add(ax)
            for h in self.base:
                s.add(h)
                for ax in sym.axioms_for(sym.consts_of(h), 1, done):
                    s.add(ax)
            t = time.time()
            r = s.check(zp) == z3.unsat
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            self._eqbase[key] = r
        return r

    def some_value(self, x, no=()):
        """A feasible value of a symbolic integer, other than those already excluded"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            assert isinstance(v, tuple) and v[0] == 'v', 'path is not deterministic'
            self.pos += 1
            self.trace.append((v, False))
            return v[1]
        z = sym.render(x.p)
        self._need(z)
        r = self.check(*[z != sym._q(v) for v in no])
        if r == z3.unsat:
            raise AbandonPath()
        if r == z3.unknown:
            raise EngineLimit('cannot find a value for a symbolic integer')
        v = self._val(self._model, z)
        if v is None or v.denominator != 1:
            raise EngineLimit('no integer value for %r' % (x,))
        self.trace.append((('v', int(v)), False))
        return int(v)

    def small(self, x, n=7):
        """Is it an integer with few possible values?"""
        k = sym.pkey(x.p)
        r = self._small.get(k)
        if r is None:
            z = sym.render(x.p)
            r = self._small[k] = self._fact(lambda: self.check(z3.Or(z > n, z < -n)) == z3.unsat)
        return r

    def unique(self, x):
        """The value of an integer that can only have one on this path"""
        k = sym.pkey(x.p)
        r = self._uniq.get(k)
        if r is not None and (r[0] is not None or r[1] == self.ver):
            return r[0]
        z = sym.render(x.p)

        def fact():
            if self.check() != z3.sat:
                return None
            v = self._val(self._model, z)
            if v is None or self.check(z != sym._q(v)) != z3.unsat:
                return None
            return int(v)
        v = self._fact(fact)
        self._uniq[k] = (v, self.ver)
        return v

    def div0(self, x):
        if getattr(self, 'py_div0', False):
            raise ZeroDivisionError('division by zero')
        return NAN

    # ------------------------------------------------------------------
    # claims
    def claim(self, cond, label):
        """Claim that `cond` holds on this path (decided at the end of it)"""
        self.stats.claims += 1
        if isinstance(cond, SymBool):
            self.pending.append((cond.z, label))
        else:
            self.pending.append((z3.BoolVal(bool(cond)), label))

    def claim_eq(self, a, b, label):
        """Claim that two numbers are equal"""
        if a is None or b is None:
            return self.claim(a is b, label)
        if a is NAN or b is NAN:
            return self.claim(a is b, label)
        x, y = lift(a), lift(b)
        if x is NAN or y is NAN:
            return self.claim(x is y, label)
        if sym.is_complex(x.p) or sym.is_complex(y.p):
            d = sym.padd(x.p, y.p, -1)
            for part in (sym.preal(d), sym.pimag(d)):
                self.stats.claims += 1
                self.pending.append((sym.render(part) == z3.RealVal(0), label))
            return
        # the two sides are rendered separately: the equality is z3's to decide
        self.stats.claims += 1
        self.pending.append((sym.render(x.p) == sym.render(y.p), label))
        self.notes[len(self.pending) - 1] = (x.p, y.p)

    def _end_path(self):
        if not self.pending:
            raise RuntimeError('harness made no claims')
        if self.stats.paths < 4 or self.stats.paths % 16 == 0:
            self._sample()
        zs = [z for z, _ in self.pending]
        if self.check() == z3.unsat:
            raise AbandonPath()      # the path is not feasible after all
        if self.exact is not None:
            # all the inputs are given: claims are true or false
            self.exact.extend(label for z, label in self.pending if z3.is_false(z3.simplify(z)))
            self.stats.discharged += len(zs)
            return
        if len(zs) > 1:
            goal = z3.Not(z3.And(zs))
        else:
            goal = z3.Not(zs[0])
        r = self.check(goal)
        if r == z3.unsat:
            self.stats.discharged += len(zs)
            return
        for i, (z, label) in enumerate(self.pending):
            g = z3.Not(z)
            r = self.check(g)
            if r == z3.unsat:
                self.stats.discharged += 1
                continue
            # second tier: nonlinear definitions
            r2, model = self._tier2(g)
            if r2 == z3.unsat:
                self.stats.discharged += 1
                continue
            # common denominators (equality claims)
            if r2 != z3.sat and i in self.notes:
                try:
                    p, q = self.notes[i]
                    if z3.is_true(z3.simplify(z)):
                        pass
                except Exception:
                    pass
            found = False
            self.nlabel[label] = self.nlabel.get(label, 0) + 1
            for m, how in self._concrete_models(g, model):
                found = True
                if how != 'tier 1 model' and how != 'generic point of the path':
                    self.nstrong += 1
                self.candidates.append(Candidate(m, label, len(self.trace), how))
            if not found and r2 == z3.unknown:
                self.stats.undecided += 1
                self.complete = False
                self.limits.append('undecided claim: %s' % label)
            elif not found:
                self.stats.undecided += 1
                self.complete = False
                self.limits.append('no rational model: %s' % label)
            if self.nstrong >= self.max_candidates or self.nlabel.get(label, 0) > 3:
                return

    def _full_solver(self, tier, extra=(), timeout=None, nl=True):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout2)
        done = set()
        for h in self.hyp + list(extra):
            s.add(h)
        for h in self.hyp + list(extra):
            for ax in sym.axioms_for(sym.consts_of(h), tier, done):
                s.add(ax)
        return s

    def _tcheck(self, s, *a):
        t = time.time()
        r = s.check(*a)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def _tier2(self, g):
        self.stats.tier2 += 1
        # after a few failures there is a counterexample or no answer: do not insist
        s = self._full_solver(2, [g], timeout=self.timeout2 if self.nunknown < 3 else self.timeout2 // 8)
        r = self._tcheck(s)
        if r == z3.unknown:
            self.nunknown += 1
            self.stats.unknown += 1
        return r, (s.model() if r == z3.sat else None)

    # ------------------------------------------------------------------
    # models
    @staticmethod
    def _val(model, z):
        v = model.eval(z, model_completion=True)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return None

    def _extract(self, model):
        out = {}
        for name, a in self.inputs.items():
            v = self._val(model, a.z)
            if v is None:
                return None
            out[name] = v
        return out

    def _concrete_models(self, g, model2):
        """Input assignments that may falsify the claim"""
        out = []
        if self.nfound < 6 and self.tnum < 40:
            m = self._sampled(g)
            if m is not None:
                self.nfound += 1
                out.append((m, 'sampled inputs that falsify the claim'))
                return out
        m = self._fix_inputs([g])
        if m is not None:
            out.append((m, 'fixed inputs'))
        if self.nfound < 6 and self.tsearch < 60:
            t = time.time()
            m = self._search(g)
            self.tsearch += time.time() - t
            if m is not None:
                self.nfound += 1
                out.append((m, 'tier 2 model with part of the inputs fixed'))
        if model2 is not None:
            m = self._extract(model2)
            if m is not None:
                out.append((m, 'tier 2 model'))
        if not out:
            r = self.check(g)
            if r == z3.sat:
                m = self._extract(self._model)
                if m is not None:
                    out.append((m, 'tier 1 model'))
        m = self._fix_inputs([])
        if m is not None:
            out.append((m, 'generic point of the path'))
        return out

    def _sampled(self, g, budget=3.0):
        """Numerical search of inputs, starting from models of the path"""
        t0 = time.time()
        start = []
        for extra in ([g], []):
            if self.check(*extra) == z3.sat:
                m = self._extract(self._model)
                if m is not None:
                    start.append(m)
        try:
            return numeric.search(self.inputs, self.hyp, g, start, self.rng, clock=lambda: time.time() - t0 > budget)
        finally:
            self.tnum += time.time() - t0

    def _search(self, g, rounds=9, budget=4.0):
        """
        A real counterexample: values for all the inputs but a few are picked
        at random (keeping the tier-1 problem satisfiable) and the nonlinear
        problem for the others is handed to z3.
        """
        t0 = time.time()
        reals = [n for n, a in self.inputs.items() if a.kind != 'i' and not a.pos]
        for attempt in range(rounds):
            if time.time() - t0 > budget:
                break
            nfree = (2, 3, 1)[attempt % 3]
            free = set(self.rng.sample(reals, min(nfree, len(reals))))
            vals = self._fix_some(g, free)
            if vals is None:
                continue
            eqs = [self.inputs[n].z == sym._q(v) for n, v in vals.items()]
            s = self._full_solver(2, [g], timeout=700)
            for e in eqs:
                s.add(e)
            r = self._tcheck(s)
            if r == z3.sat:
                m = self._extract(s.model())
                if m is not None:
                    return m
        return None

    def _fix_some(self, g, free):
        s = z3.Solver()
        s.set('timeout', 500)
        done = set()
        todo = list(self.hyp) + [g]
        for h in todo:
            s.add(h)
        for h in todo:
            for ax in sym.axioms_for(sym.consts_of(h), 1, done):
                s.add(ax)
        if self._tcheck(s) != z3.sat:
            return None
        model = s.model()
        names = [n for n in self.inputs if n not in free]
        self.rng.shuffle(names)
        names.sort(key=lambda n: (self.inputs[n].kind != 'i', not self.inputs[n].pos))
        vals = {}
        for n in names:
            a = self.inputs[n]
            v0 = self._val(model, a.z) or Fraction(0)
            if a.kind == 'i':
                cands = [v0]
            else:
                w = max(1, abs(v0))
                cands = [Fraction(round((v0 + w * self.rng.randint(-64, 64) / 64) * 64), 64) for _ in range(3)]
                if a.pos:
                    cands = [x if x > 0 else -x for x in cands if x]
                cands += [Fraction(round(v0 * 256), 256), v0]
            for v in cands:
                vals[n] = v
                s.push()
                s.add(a.z == sym._q(v))
                for e in self._evaluated_monos(vals, n, True):
                    s.add(e)
                if self._tcheck(s) == z3.sat:
                    model = s.model()
                    break
                s.pop()
            else:
                return None
        return vals

    def _fix_inputs(self, goals, tries=2):
        """
        Give dyadic values to the inputs one at a time, keeping the tier-1
        problem satisfiable, with the products of fixed inputs evaluated.
        """
        for attempt in range(tries + 1):
            s = z3.Solver()
            s.set('timeout', 2000)
            done = set()
            todo = list(self.hyp) + list(goals)
            lits = []
            for h in todo:
                s.add(h)
                lits += self._literals(h)
            for h in todo:
                for ax in sym.axioms_for(sym.consts_of(h), 1, done):
                    s.add(ax)
                    lits += self._literals(ax)
            if attempt == 0:
                # away from the boundaries of the path, as far as possible
                if not self._slacken(s, lits):
                    continue
            r = self._tcheck(s)
            if r != z3.sat:
                if attempt == 0:
                    continue
                return None
            names = list(self.inputs)
            self.rng.shuffle(names)
            # integers and positive scales first
            names.sort(key=lambda n: (self.inputs[n].kind != 'i', not self.inputs[n].pos))
            vals = {}
            ok = True
            model = s.model()
            for n in names:
                a = self.inputs[n]
                v0 = self._val(model, a.z)
                cands = []
                if v0 is None:
                    v0 = Fraction(0)
                if a.kind == 'i':
                    cands = [v0]
                else:
                    for den in (64, 256, 4096):
                        k = self.rng.randint(-den, den)
                        cands.append(Fraction(round(v0 * den) + (k if den == 64 else k // 16), den))
                    cands.append(Fraction(round(v0 * 2 ** 20), 2 ** 20))
                    cands.append(v0)
                for v in cands:
                    vals[n] = v
                    extra = [a.z == sym._q(v)]
                    extra += self._evaluated_monos(vals, n)
                    s.push()
                    for e in extra:
                        s.add(e)
                    if self._tcheck(s) == z3.sat:
                        model = s.model()
                        # keep the level
                        break
                    s.pop()
                else:
                    ok = False
                    break
            if ok:
                return vals
        return None

    @staticmethod
    def _literals(z):
        """Order comparisons that must hold for `z` to hold"""
        out, todo = [], [(z, True)]
        while todo:
            x, pos = todo.pop()
            if z3.is_not(x):
                todo.append((x.arg(0), not pos))
            elif (z3.is_and(x) and pos) or (z3.is_or(x) and not pos):
                todo += [(c, pos) for c in x.children()]
            elif z3.is_le(x) or z3.is_lt(x):
                out.append((x.arg(1), x.arg(0)) if pos else (x.arg(0), x.arg(1)))
            elif z3.is_ge(x) or z3.is_gt(x):
                out.append((x.arg(0), x.arg(1)) if pos else (x.arg(1), x.arg(0)))
        return out

    def _slacken(self, s, lits, eps=Fraction(1, 256)):
        """Add a - b >= eps for as many of the (a, b) as possible"""
        flags = {}
        e = sym._q(eps)
        seen = set()
        for a, b in lits:
            k = (a.get_id(), b.get_id())
            if k in seen or (z3.is_int(a) and z3.is_int(b)):
                continue
            seen.add(k)
            f = z3.Bool('slack!%d' % len(flags))
            flags[f.get_id()] = f
            s.add(z3.Implies(f, a - b >= e))
        live = dict(flags)
        for _ in range(40):
            r = self._tcheck(s, *live.values())
            if r == z3.sat:
                for f in live.values():
                    s.add(f)
                return True
            if r != z3.unsat:
                return False
            core = [c for c in s.unsat_core() if c.get_id() in live]
            if not core:
                return False
            for c in core[:max(1, len(core) // 2)]:
                del live[c.get_id()]
        return False

    def _evaluated_monos(self, vals, new, partial=False):
        """
        Values of the monomials all of whose atoms are now fixed; with
        `partial`, also those where one atom (to the first power) is left
        """
        out = []
        nid = self.inputs[new].id
        ids = {self.inputs[n].id: v for n, v in vals.items()}
        for base, z in list(sym._MONOZ.items()):
            if any(a == nid for a, _ in base) and all(a in ids for a, _ in base):
                v = Fraction(1)
                try:
                    for a, e in base:
                        v *= ids[a] ** e
                except ZeroDivisionError:
                    continue
                out.append(z == sym._q(v))
            elif partial and any(a == nid for a, _ in base):
                left = [(a, e) for a, e in base if a not in ids]
                if len(left) == 1 and left[0][1] == 1:
                    v = Fraction(1)
                    try:
                        for a, e in base:
                            if a in ids:
                                v *= ids[a] ** e
                    except ZeroDivisionError:
                        continue
                    out.append(z == sym._q(v) * sym.ATOMS[left[0][0]].z)
        return out

    def _input_model(self, label):
        try:
            m = self._fix_inputs([])
            if m is not None:
                return m
            if self.check() == z3.sat:
                return self._extract(self._model)
        except Exception:
            return None
        return None

    def _sample(self):
        if len(self.samples) >= 12:
            return
        m = self._input_model('sample')
        if m is not None:
            self.samples.append(m)
