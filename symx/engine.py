"""Symbolic execution engine.

Values are multivariate polynomials (dict: monomial -> coefficient) over *atoms*.  An atom is an input variable or
the result of a non-polynomial operation (quotient, square root, exponential, trigonometric function, floor ...)
together with the constraints that define it.  Comparisons yield formulas; using one as a Python truth value forks
the execution (depth-first re-execution with a recorded decision prefix; both sides are checked for feasibility by
z3).  Obligations are formulas collected on each path; z3 decides them against the path condition.
"""
import math
import time
from fractions import Fraction
import numbers

import numpy as np

from .z3setup import z3

INF = float('inf')
CANCEL = 1.0e-12          # relative cancellation threshold for polynomial coefficients
MAXPROD = 600             # larger products of sums are named (T = sum) instead of expanded
KEY_DIGITS = 10           # digits used when hashing coefficients (identification of equal sub-terms)


class EngineError(Exception):
    """The code under analysis used something the engine cannot encode."""


class PathAbort(BaseException):
    """Current path is infeasible (or was cut); raised through the code under analysis."""


# ---------------------------------------------------------------------------------------------------------------
# polynomials
# ---------------------------------------------------------------------------------------------------------------

def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def to_num(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = c if s == 1 else s * c
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            t = o + c
            if t == 0 or (isinstance(t, float) and abs(t) <= CANCEL * max(abs(o), abs(c))):
                del r[m]
            else:
                r[m] = t
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return tuple(sorted(m1 + m2))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    big = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = c
                big[m] = abs(c)
            else:
                r[m] = o + c
                if abs(c) > big[m]:
                    big[m] = abs(c)
    return {m: c for m, c in r.items() if c != 0 and not (isinstance(c, float) and abs(c) <= CANCEL * big[m])}


def _rsig(c):
    if isinstance(c, int):
        return c
    c = float(c)
    if c == 0.0 or not math.isfinite(c):
        return c
    return float(('%%.%de' % (KEY_DIGITS - 1)) % c)


def pkey(p):
    return tuple(sorted((m, _rsig(c)) for m, c in p.items()))


def msub(big, small):
    """big / small as monomials, or None."""
    if not small:
        return big
    l = list(big)
    for a in small:
        if a in l:
            l.remove(a)
        else:
            return None
    return tuple(l)


# ---------------------------------------------------------------------------------------------------------------
# atoms
# ---------------------------------------------------------------------------------------------------------------

class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'is_int', 'args', 'cons', 'evalf', 'deps', 'z', 'num', 'den')

    def __init__(self, i, kind, name, lo, hi, is_int=False):
        self.id = i
        self.kind = kind          # 'in', 'div', 'fn', 'free'
        self.name = name
        self.lo = lo
        self.hi = hi
        self.is_int = is_int
        self.args = ()
        self.cons = []            # defining constraints: list of Cmp (poly, op)
        self.evalf = None
        self.deps = ()
        self.z = None
        self.num = None
        self.den = None


def imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y
    ps = (m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1]))
    return (min(ps), max(ps))


class Ctx:
    """One symbolic exploration (one harness configuration)."""

    def __init__(self, feas_timeout_ms=3000):
        self.atoms = []
        self.by_key = {}
        self.inputs = {}
        self.prefix = []
        self.pos = 0
        self.trail = []
        self.conds = []
        self.known = {}
        self.solver = None
        self.pending = []
        self.feas_timeout_ms = feas_timeout_ms
        self.n_feas = 0
        self.t_solver = 0.0
        self.hazards = {}
        self.max_forks = 4000
        self._ivc = {}

    # ---- atoms
    def new_atom(self, kind, name, lo=-INF, hi=INF, is_int=False):
        a = Atom(len(self.atoms), kind, name, lo, hi, is_int)
        self.atoms.append(a)
        return a

    def input(self, name, lo, hi, is_int=False):
        a = self.inputs.get(name)
        if a is None:
            a = self.new_atom('in', name, lo, hi, is_int)
            self.inputs[name] = a
        return Sym({(a.id,): 1 if is_int else 1.0})

    def func(self, fname, args, lo, hi, evalf, cons=None, is_int=False, kind='fn'):
        """Atom for fname(*args); args: polynomials (dicts).  cons(atom_sym) -> list of formulas."""
        key = (fname,) + tuple(pkey(a) for a in args)
        a = self.by_key.get(key)
        if a is None:
            a = self.new_atom(kind, fname, lo, hi, is_int)
            a.args = tuple(args)
            a.evalf = evalf
            self.by_key[key] = a
            if cons is not None:
                a.cons = list(cons(Sym({(a.id,): 1 if is_int else 1.0})))
        return a

    # ---- intervals
    def miv(self, m):
        r = self._ivc.get(m)
        if r is not None:
            return r
        lo, hi = 1.0, 1.0
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            at = self.atoms[m[i]]
            l, h = at.lo, at.hi
            p = j - i
            if p == 1:
                iv = (l, h)
            else:
                def pw(x):
                    try:
                        return float(x) ** p
                    except OverflowError:
                        return INF if (p % 2 == 0 or x > 0) else -INF
                if p % 2 == 0:
                    if l >= 0:
                        iv = (pw(l), pw(h))
                    elif h <= 0:
                        iv = (pw(h), pw(l))
                    else:
                        iv = (0.0, max(pw(l), pw(h)))
                else:
                    iv = (pw(l), pw(h))
            lo, hi = imul((lo, hi), iv)
            i = j
        self._ivc[m] = (lo, hi)
        return lo, hi

    def iv(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            l, h = self.miv(m)
            c = float(c)
            if c >= 0:
                lo += l * c if c else 0
                hi += h * c if c else 0
            else:
                lo += h * c
                hi += l * c
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return lo, hi

    # ---- evaluation under an assignment of the inputs
    def eval_atom(self, i, env, cache):
        v = cache.get(i)
        if v is not None:
            return v
        a = self.atoms[i]
        if a.kind == 'in':
            v = env[a.name]
        elif a.evalf is None:
            raise EngineError('atom %s has no evaluator' % a.name)
        else:
            v = a.evalf(*[self.eval_poly(p, env, cache) for p in a.args])
        cache[i] = v
        return v

    def eval_poly(self, p, env, cache):
        s = 0
        for m, c in p.items():
            t = c
            for i in m:
                t = t * self.eval_atom(i, env, cache)
            s = s + t
        return s

    # ---- forking
    def begin_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.conds = []
        self.known = {}
        self.solver = None
        self.hazards = {}
        self.roots = []           # (input name, function that vanishes there) of stubbed root finders
        self.root_iv = (-1e4, 1e4)

    def assume(self, f):
        """Add a formula to the path condition."""
        f = as_formula(f)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        self.conds.append(f)
        if self.solver is not None:
            self.solver.add(f)

    def _solver(self):
        if self.solver is None:
            self.solver = Relax(self, closure=0)
            for f in self.conds:
                self.solver.add(f)
        return self.solver

    def decide(self, f):
        """f: Cmp.  Returns the truth value on the current path."""
        tv = f.quick(self)
        if tv is not None:
            return tv
        key = f.key()
        k = self.known.get(key)
        if k is not None:
            return k
        nkey = f.negkey()
        k = self.known.get(nkey)
        if k is not None:
            return not k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if len(self.trail) > self.max_forks:
                raise EngineError('too many decisions on one path')
            s = self._solver()
            self.n_feas += 2
            t0 = time.time()
            can_t = s.feasible(f, self.feas_timeout_ms)
            can_f = True
            if can_t:
                can_f = s.feasible(f.neg(), self.feas_timeout_ms)
            else:
                self.n_feas -= 1
            self.t_solver += time.time() - t0
            if can_t and can_f:
                d = True
                self.pending.append(self.trail + [False])
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                raise PathAbort()
        self.pos += 1
        self.trail = self.trail + [d]
        self.known[key] = d
        g = f if d else f.neg()
        self.conds.append(g)
        if self.solver is not None:
            self.solver.add(g)
        return d


CTX = None
DUMP = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise EngineError('no symbolic context')
    return CTX


# ---------------------------------------------------------------------------------------------------------------
# formulas
# ---------------------------------------------------------------------------------------------------------------

class F:
    def __bool__(self):
        raise NotImplementedError

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def logical_not(self):
        return self.neg()


class Cmp(F):
    """poly op 0 with op in {'<=','<','==','!='}; tol widens '<=' : poly <= tol."""
    __slots__ = ('p', 'op', 'tol')

    def __init__(self, p, op, tol=0.0):
        self.p = p
        self.op = op
        self.tol = tol

    def quick(self, c):
        lo, hi = c.iv(self.p)
        if self.op == '<=':
            if hi <= self.tol:
                return True
            if lo > self.tol:
                return False
        elif self.op == '<':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif self.op == '==':
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        elif self.op == '!=':
            if lo > 0 or hi < 0:
                return True
            if lo == hi == 0:
                return False
        return None

    def key(self):
        return (self.op, pkey(self.p))

    def negkey(self):
        return self.neg().key()

    def neg(self, margin=1.0):
        if self.op == '<=':
            # not (p <= tol)  ->  p > tol*margin  ->  tol*margin - p < 0
            q = pscale(self.p, -1)
            if self.tol:
                q = padd(q, {(): self.tol * margin})
            return Cmp(q, '<')
        if self.op == '<':
            return Cmp(pscale(self.p, -1), '<=')
        if self.op == '==':
            return Cmp(self.p, '!=')
        return Cmp(self.p, '==')

    def __bool__(self):
        return ctx().decide(self)

    def atoms(self):
        s = set()
        for m in self.p:
            s.update(m)
        return s

    def z(self, tr):
        e = tr(self.p)
        if self.op == '<=':
            return e <= _zc(self.tol)
        if self.op == '<':
            return e < 0
        if self.op == '==':
            return e == 0
        return e != 0

    def ev(self, fn):
        v = fn(self.p)
        if self.op == '<=':
            return v <= self.tol
        if self.op == '<':
            return v < 0
        if self.op == '==':
            return v == 0
        return v != 0

    def leaves(self):
        return [self]


class NAry(F):
    def __init__(self, *fs):
        self.fs = fs

    def atoms(self):
        s = set()
        for f in self.fs:
            s |= f.atoms()
        return s

    def leaves(self):
        r = []
        for f in self.fs:
            r += f.leaves()
        return r


class AndF(NAry):
    def __bool__(self):
        return all(bool(f) for f in self.fs)

    def neg(self, margin=1.0):
        return OrF(*[f.neg(margin) for f in self.fs])

    def z(self, tr):
        return z3.And(*[f.z(tr) for f in self.fs])

    def ev(self, fn):
        return all(f.ev(fn) for f in self.fs)


class OrF(NAry):
    def __bool__(self):
        return any(bool(f) for f in self.fs)

    def neg(self, margin=1.0):
        return AndF(*[f.neg(margin) for f in self.fs])

    def z(self, tr):
        return z3.Or(*[f.z(tr) for f in self.fs])

    def ev(self, fn):
        return any(f.ev(fn) for f in self.fs)


def as_formula(f):
    if isinstance(f, F):
        return f
    return bool(f)


def _flat(fs):
    for f in fs:
        if isinstance(f, (list, tuple)):
            yield from _flat(f)
        elif isinstance(f, np.ndarray):
            yield from _flat(f.flatten().tolist())
        else:
            yield as_formula(f)


def And(*fs):
    r = []
    for f in _flat(fs):
        if f is True:
            continue
        if f is False:
            return False
        r.append(f)
    if not r:
        return True
    return r[0] if len(r) == 1 else AndF(*r)


def Or(*fs):
    r = []
    for f in _flat(fs):
        if f is False:
            continue
        if f is True:
            return True
        r.append(f)
    if not r:
        return False
    return r[0] if len(r) == 1 else OrF(*r)


def Not(f):
    f = as_formula(f)
    return (not f) if isinstance(f, bool) else f.neg()


def Implies(a, b):
    return Or(Not(a), b)


# ---------------------------------------------------------------------------------------------------------------
# z3 translation
# ---------------------------------------------------------------------------------------------------------------

def _zc(c):
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(repr(float(c)))
    return z3.Q(f.numerator, f.denominator)


class Relax:
    """Linear relaxation: every non-linear monomial is an independent real bounded by its interval."""

    def __init__(self, c, closure=2, budget=20000):
        self.c = c
        self.budget = budget
        self.cs = []
        self.last = None
        self.vars = {}
        self.defined = set()
        self.closed = set()
        self.closure = closure

    @property
    def s(self):
        return self

    def _fresh(self, timeout, extra=()):
        # a fresh solver per query: z3's incremental simplex degenerates on these systems
        s = z3.SimpleSolver()
        s.set('arith.solver', 2)
        s.set('timeout', int(timeout))
        for x in self.cs:
            s.add(x)
        for x in extra:
            s.add(x)
        self.last = s
        if DUMP:
            open(DUMP, 'w').write(s.to_smt2())
        return s.check()

    def model(self):
        return self.last.model()

    def var(self, m):
        v = self.vars.get(m)
        if v is None:
            if len(m) == 1 and self.c.atoms[m[0]].is_int:
                v = z3.ToReal(z3.Int('i%d' % m[0]))
            else:
                v = z3.Real('m' + '_'.join(map(str, m)))
            self.vars[m] = v
            lo, hi = self.c.miv(m)
            if lo > -INF:
                self.cs.append(v >= _zc(lo))
            if hi < INF:
                self.cs.append(v <= _zc(hi))
        return v

    def tr(self, p):
        if not p:
            return z3.RealVal(0)
        return z3.Sum([(_zc(c) * self.var(m)) if m else _zc(c) for m, c in sorted(p.items())]) if len(p) > 1 else \
            [(_zc(c) * self.var(m)) if m else _zc(c) for m, c in p.items()][0]

    def define(self, f):
        """Add the definitions of every atom occurring in f (recursively) and the closure products."""
        todo = [f]
        while todo:
            g = todo.pop()
            for i in g.atoms():
                if i not in self.defined:
                    self.defined.add(i)
                    for d in self.c.atoms[i].cons:
                        todo.append(d)
                        self.cs.append(d.z(self.tr))
        # closure: multiply quotient definitions by the cofactors that occur
        for _ in range(self.closure):
            new = []
            for m in list(self.vars):
                if len(m) < 2:
                    continue
                for q in set(m):
                    a = self.c.atoms[q]
                    if a.kind != 'div' or a.den is None:
                        continue
                    cof = msub(m, (q,))
                    for dm in a.den:
                        if not dm and len(a.den) > 1:
                            continue
                        r = msub(cof, dm)
                        if r and len(r) <= 4 and (q, r) not in self.closed:
                            self.closed.add((q, r))
                            new.append((a, r))
            if not new or self.budget <= 0:
                break
            new.sort(key=lambda t: len(t[0].den) + len(t[0].num))
            for a, r in new:
                self.budget -= len(a.den) + len(a.num)
                if self.budget < 0:
                    break
                e = padd(pmul({(a.id,): 1.0}, a.den), a.num, -1)
                self.cs.append(Cmp(pmul(e, {r: 1.0}), '==').z(self.tr))
                for i in r:
                    if i not in self.defined:
                        self.defined.add(i)
                        for d in self.c.atoms[i].cons:
                            self.cs.append(d.z(self.tr))

    def add(self, f):
        if f is True:
            return
        self.cs.append(f.z(self.tr) if f is not False else z3.BoolVal(False))
        if f is not False:
            self.define(f)

    def feasible(self, f, timeout):
        self.define(f)
        z = f.z(self.tr)
        return self._fresh(timeout, [z]) != z3.unsat

    def check(self, timeout, *extra):
        return self._fresh(timeout, extra)


class Exact:
    """Full (non-linear) encoding restricted to the cone of influence of the formulas given."""

    def __init__(self, c):
        self.c = c
        self.s = z3.Solver()
        self.vars = {}
        self.defined = set()

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            a = self.c.atoms[i]
            v = z3.ToReal(z3.Int('i%d' % i)) if a.is_int else z3.Real('a%d' % i)
            self.vars[i] = v
            if a.lo > -INF:
                self.s.add(v >= _zc(a.lo))
            if a.hi < INF:
                self.s.add(v <= _zc(a.hi))
        return v

    def tr(self, p):
        ts = []
        for m, c in sorted(p.items()):
            t = _zc(c)
            for i in m:
                t = t * self.atom(i)
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def add(self, f):
        if f is True:
            return
        if f is False:
            self.s.add(z3.BoolVal(False))
            return
        todo = [f]
        self.s.add(f.z(self.tr))
        while todo:
            g = todo.pop()
            for i in g.atoms():
                if i not in self.defined:
                    self.defined.add(i)
                    for d in self.c.atoms[i].cons:
                        todo.append(d)
                        self.s.add(d.z(self.tr))

    def check(self, timeout):
        self.s.set('timeout', timeout)
        return self.s.check()

    def model_env(self):
        """Values of the input atoms in the model (floats / ints)."""
        mod = self.s.model()
        env = {}
        for name, a in self.c.inputs.items():
            v = self.vars.get(a.id)
            if v is None:
                continue
            zv = mod.eval(v, model_completion=True)
            env[name] = zval(zv, a.is_int)
        return env


def zval(zv, is_int=False):
    if z3.is_algebraic_value(zv):
        zv = zv.approx(20)
    if z3.is_int_value(zv):
        r = zv.as_long()
    else:
        f = Fraction(zv.numerator_as_long(), zv.denominator_as_long())
        r = int(f) if (is_int and f.denominator == 1) else f
    if is_int:
        return int(r)
    return float(r)


# ---------------------------------------------------------------------------------------------------------------
# symbolic numbers
# ---------------------------------------------------------------------------------------------------------------

def mk(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        c = p[()]
        return c
    return Sym(p)


def poly(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, np.ndarray) and x.shape == ():
        return poly(x.item())
    if is_num(x):
        x = to_num(x)
        if isinstance(x, float) and not math.isfinite(x):
            raise EngineError('non-finite constant in symbolic arithmetic')
        return {(): x} if x != 0 else {}
    raise TypeError('not a number: %r' % (type(x),))


def _arr(op, s, o, rev=False):
    """Elementwise op of scalar s with array o."""
    r = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(o.shape):
        r[idx] = op(o[idx], s) if rev else op(s, o[idx])
    return r


def letdef(p):
    """A fresh name for polynomial p (T with T = p), used to keep products small."""
    c = ctx()
    lead = max(p)
    k = p[lead]
    n = {m: x / k for m, x in p.items()}
    lo, hi = c.iv(n)
    one = {(): 1.0}
    at = c.func('let', (n,), lo, hi, lambda v: v, lambda s: [Cmp(padd(s.p, n, -1), '==')], kind='div')
    at.num, at.den = n, one
    return {(at.id,): k}


def reduce_poly(p, limit=60000):
    """Normal form modulo the definitions of quotients and named sums (q * lead(den) -> num - q * (den - lead))."""
    c = ctx()
    rules = {}
    work = 0
    for _ in range(400):
        hit = None
        ids = set()
        for m in p:
            ids.update(m)
        for i in ids:
            if i not in rules:
                a = c.atoms[i]
                if a.kind == 'div' and a.den is not None:
                    rules[i] = (max(a.den), a.den, a.num)
                elif a.name == 'sqrt':
                    rules[i] = ((i,), None, a.args[0])
                elif a.name == 'cos' and a.kind == 'fn' and ('sin', pkey(a.args[0])) in c.by_key:
                    o = c.by_key[('sin', pkey(a.args[0]))].id
                    rules[i] = ((i,), None, {(): 1.0, (o, o): -1.0})
                else:
                    rules[i] = None
        # substitute the most recently created atom first
        new = {}
        changed = False
        for m, k in p.items():
            for i in sorted(set(m), reverse=True):
                r = rules[i]
                if r is None:
                    continue
                rest = msub(m, (i,))
                if r[1] is None:
                    rest = msub(rest, (i,))
                    if rest is None:
                        continue
                    rep = pmul(r[2], {rest: k})
                elif r[0] == ():
                    rep = pmul(r[2], {rest: k / r[1][()]})
                else:
                    rr = msub(rest, r[0])
                    if rr is None:
                        continue
                    d = dict(r[1])
                    lc = d.pop(r[0])
                    rep = padd(pmul(r[2], {rr: k / lc}), pmul(d, {mmul(rr, (i,)): k / lc}), -1)
                new = padd(new, rep)
                work += len(rep)
                changed = True
                break
            else:
                new = padd(new, {m: k})
                work += 1
            if work > limit:
                return None
        p = new
        if not changed:
            return p
    return None


def simplify(f):
    """Simplify the polynomials of a formula; the simplified formula is equivalent under the definitions."""
    if isinstance(f, Cmp):
        c = ctx()
        if any(c.atoms[i].kind == 'div' or c.atoms[i].name in ('sqrt', 'cos') for i in f.atoms()):
            q = reduce_poly(f.p)
            if q is not None and len(q) < len(f.p):
                return Cmp(q, f.op, f.tol)
        return f
    if isinstance(f, AndF):
        return AndF(*[simplify(g) for g in f.fs])
    if isinstance(f, OrF):
        return OrF(*[simplify(g) for g in f.fs])
    return f


def smul(a, b):
    if len(a) > 1 and len(b) > 1 and len(a) * len(b) > MAXPROD:
        if len(a) >= len(b):
            a = letdef(a)
            if len(b) > MAXPROD // 4:
                b = letdef(b)
        else:
            b = letdef(b)
            if len(a) > MAXPROD // 4:
                a = letdef(a)
    return pmul(a, b)


class Sym:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # --- arithmetic
    def __add__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        return mk(padd(self.p, poly(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        return mk(padd(self.p, poly(o), -1))

    def __rsub__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        return mk(padd(poly(o), self.p, -1))

    def __mul__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        if is_num(o) and 0.0 < abs(o) < 1e-14:
            return 0.0                                  # rounding residue such as cos(pi/2)
        return mk(smul(self.p, poly(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not (is_num(o) or isinstance(o, Sym)):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        return sfloor(sdiv(self, o))

    def __rfloordiv__(self, o):
        return sfloor(sdiv(o, self))

    def __mod__(self, o):
        return self - o * sfloor(sdiv(self, o))

    def __rmod__(self, o):
        return o - self * sfloor(sdiv(o, self))

    def __divmod__(self, o):
        q = sfloor(sdiv(self, o))
        return q, self - o * q

    def __neg__(self):
        return mk(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, e):
        if isinstance(e, Sym):
            return sfun2('pow', self, e)
        e = to_num(e)
        if e == int(e) and abs(e) <= 12:
            e = int(e)
            if e == 0:
                return 1.0
            r = self
            for _ in range(abs(e) - 1):
                r = r * self
            return r if e > 0 else sdiv(1.0, r)
        if e == 0.5:
            return ssqrt(self)
        return spow(self, e)

    def __rpow__(self, b):
        return sfun('exp', self * math.log(b))

    # --- comparison
    def _cmp(self, o, op, swap):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not (is_num(o) or isinstance(o, Sym)):
            return None
        if is_num(o) and not math.isfinite(to_num(o)):
            v = to_num(o)
            if v != v:
                return op == '!='
            if op in ('==',):
                return False
            if op == '!=':
                return True
            # self (<,<=) inf
            return (v > 0) if not swap else (v < 0)
        a, b = (poly(o), self.p) if swap else (self.p, poly(o))
        d = padd(a, b, -1)
        if len(d) == 1:
            (m, k), = d.items()
            if len(m) == 1 and ctx().atoms[m[0]].name == 'sqrt' and ctx().atoms[m[0]].kind == 'fn':
                # the sign of a root is that of its argument
                q = ctx().atoms[m[0]].args[0]
                if op in ('<', '<='):
                    if k > 0:
                        return False if op == '<' else Cmp(q, '<=')
                    return True if op == '<=' else Cmp(pscale(q, -1), '<')
        f = Cmp(d, op)
        if not d or (len(d) == 1 and () in d):
            c = d.get((), 0)
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
        return f

    def __lt__(self, o):
        r = self._cmp(o, '<', False)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, '<=', False)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, '<', True)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, '<=', True)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        r = self._cmp(o, '==', False)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, '!=', False)
        return True if r is None else r

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    # --- conversions
    def __float__(self):
        raise EngineError('symbolic value converted to a machine float')

    def __index__(self):
        return enum_int(self)

    def __int__(self):
        t = strunc(self)
        if isinstance(t, Sym):
            return enum_int(t)
        return int(t)

    def __round__(self, n=None):
        return sround(self, 0 if n is None else n)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    def __repr__(self):
        return 'Sym(%d terms)' % len(self.p)

    # --- numpy object-loop hooks
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sfun('exp', self)

    def log(self):
        return sfun('log', self)

    def sin(self):
        return sfun('sin', self)

    def cos(self):
        return sfun('cos', self)

    def tan(self):
        return stan(self)

    def arcsin(self):
        return sfun('asin', self)

    def arccos(self):
        return sfun('acos', self)

    def sinh(self):
        return sfun('sinh', self)

    def cosh(self):
        return sfun('cosh', self)

    def tanh(self):
        return sfun('tanh', self)

    def arctan(self):
        return sfun('atan', self)

    def radians(self):
        return self * (math.pi / 180.0)

    deg2rad = radians

    def degrees(self):
        return self * (180.0 / math.pi)

    rad2deg = degrees

    def floor(self):
        return sfloor(self)

    def ceil(self):
        return -sfloor(-self)

    def rint(self):
        return sround(self, 0)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self


numbers.Number.register(Sym)


def _trig(p):
    c = ctx()
    return all(c.atoms[i].name in ('sin', 'cos') for m in p for i in m)


def sdiv(a, b):
    pa, pb = poly(a), poly(b)
    if not pb:
        raise ZeroDivisionError('division by zero')
    if len(pb) == 1 and () in pb:
        c = pb[()]
        if isinstance(c, int) and not isinstance(c, bool):
            if all(isinstance(x, int) and x % c == 0 for x in pa.values()) and c in (1, -1):
                return mk({m: x // c for m, x in pa.items()})
        return mk({m: x / c for m, x in pa.items()})
    if not pa:
        return 0.0
    # (n/d)/b -> n/(d*b) for a lone quotient of sines and cosines
    if len(pa) == 1:
        (m, k), = pa.items()
        if len(m) == 1:
            q = ctx().atoms[m[0]]
            if q.kind == 'div' and q.den is not None and _trig(q.den) and _trig(pb):
                return sdiv(mk(pscale(q.num, k)), mk(pmul(q.den, pb)))
    # a / (k * n / d) with a constant n -> a * d / (k * n)
    if len(pb) == 1:
        (m, k), = pb.items()
        if len(m) == 1:
            q = ctx().atoms[m[0]]
            if q.kind == 'div' and q.den is not None and len(q.num) == 1 and () in q.num and q.num[()] != 0:
                note_nonzero(q.den)
                x = pmul(pa, q.den)
                return mk(pscale(x, 1.0 / (k * q.num[()])))
    # single-monomial denominator that divides every numerator monomial
    if len(pb) == 1:
        (dm, dc), = pb.items()
        if all(msub(m, dm) is not None for m in pa):
            note_nonzero(pb)
            return mk({msub(m, dm): x / dc for m, x in pa.items()})
        # cancel common factor
        common = dm
        for m in pa:
            common = tuple(_minter(common, m))
            if not common:
                break
        if common:
            note_nonzero({common: 1.0})
            pa = {msub(m, common): x for m, x in pa.items()}
            pb = {msub(dm, common): dc}
    # normalise scale: denominators with leading coefficient 1
    lead = max(pb)
    lc = pb[lead]
    pb = {m: x / lc for m, x in pb.items()}
    pa = {m: x / lc for m, x in pa.items()}
    # proportional?
    if len(pa) == len(pb) and lead in pa:
        k = pa[lead]
        if all(m in pa and abs(pa[m] - k * x) <= 1e-11 * (abs(k * x)) for m, x in pb.items()):
            note_nonzero(pb)
            return k
    # numerator = k*den + remainder (only for non-constant den with >1 term): keep as is
    nlead = max(pa)
    ns = pa[nlead]
    na = {m: x / ns for m, x in pa.items()}
    c = ctx()
    lo, hi = _idiv(c.iv(na), c.iv(pb))

    def cons(s):
        return [Cmp(padd(pmul(s.p, pb), na, -1), '==')]

    def ev(n, d):
        return n / d if d != 0 else float('nan')
    at = c.func('div', (na, pb), lo, hi, ev, cons, kind='div')
    at.num, at.den = na, pb
    note_nonzero(pb)
    return mk({(at.id,): ns})


def _minter(a, b):
    b = list(b)
    r = []
    for x in a:
        if x in b:
            b.remove(x)
            r.append(x)
    return r


def _idiv(n, d):
    if d[0] <= 0 <= d[1]:
        if n[0] >= 0 and d[0] >= 0:
            return (0.0 if d[1] == INF else (n[0] / d[1] if d[1] else 0.0), INF)
        return (-INF, INF)
    vs = []
    for x in n:
        for y in d:
            if abs(x) == INF and abs(y) == INF:
                return (-INF, INF)
            vs.append(x / y)
    return (min(vs), max(vs))


def note_nonzero(den):
    """Record that the current path divides by den; constrain it to be non-zero (hazard reported separately)."""
    c = ctx()
    lo, hi = c.iv(den)
    if lo > 0 or hi < 0:
        return
    k = pkey(den)
    if k in c.hazards:
        return
    c.hazards[k] = ('division by zero', Cmp(den, '=='))
    c.assume(Cmp(den, '!='))


def ssqrt(x):
    if is_num(x):
        return math.sqrt(x)
    c = ctx()
    p = x.p
    if len(p) == 1:
        (m, k), = p.items()
        # sqrt(k * y * y)
        if len(m) == 2 and m[0] == m[1] and k >= 0:
            y = mk({(m[0],): math.sqrt(k)})
            return abs(y)
    lo, hi = c.iv(p)
    if lo < 0:
        k = ('sqrt', pkey(p))
        if k not in c.hazards:
            c.hazards[k] = ('square root of a negative number', Cmp(p, '<'))
            c.assume(Cmp(pscale(p, -1), '<='))
    slo = math.sqrt(lo) if 0 < lo < INF else 0.0
    shi = math.sqrt(hi) if 0 <= hi < INF else INF

    def cons(s):
        return [Cmp(padd(pmul(s.p, s.p), p, -1), '==')]
    at = c.func('sqrt', (p,), slo, shi, lambda v: math.sqrt(v) if v > 0 else 0.0, cons)
    return mk({(at.id,): 1.0})


def _frange(fname, lo, hi):
    def safe(f, v, d):
        try:
            return f(v)
        except (OverflowError, ValueError):
            return d
    e = 1e-9
    if fname == 'exp':
        a, b = (safe(math.exp, lo, 0.0) if lo > -INF else 0.0), (safe(math.exp, hi, INF) if hi < INF else INF)
        return a * (1 - e), b * (1 + e)
    if fname == 'log':
        a = math.log(lo) if lo > 0 else -INF
        b = math.log(hi) if 0 < hi < INF else INF
        return a - e, b + e
    if fname in ('sin', 'cos'):
        if hi - lo >= 2 * math.pi or hi == INF or lo == -INF:
            return -1.0, 1.0
        f = math.sin if fname == 'sin' else math.cos
        sh = math.pi / 2 if fname == 'sin' else 0.0      # maxima at sh + 2k*pi
        vals = [f(lo), f(hi)]
        if math.floor((hi - sh) / (2 * math.pi)) >= math.ceil((lo - sh) / (2 * math.pi)):
            vals.append(1.0)
        if math.floor((hi - sh - math.pi) / (2 * math.pi)) >= math.ceil((lo - sh - math.pi) / (2 * math.pi)):
            vals.append(-1.0)
        return max(-1.0, min(vals) - e), min(1.0, max(vals) + e)
    if fname == 'asin':
        return (math.asin(max(-1.0, lo)) - e if lo < 1 else -math.pi / 2,
                math.asin(min(1.0, hi)) + e if hi > -1 else math.pi / 2)
    if fname == 'acos':
        return (math.acos(min(1.0, hi)) - e if hi > -1 else 0.0, math.acos(max(-1.0, lo)) + e if lo < 1 else math.pi)
    if fname == 'atan':
        return math.atan(lo) - e, math.atan(hi) + e
    if fname in ('sinh', 'tanh'):
        f = getattr(math, fname)
        a, b = safe(f, lo, -INF), safe(f, hi, INF)
        return a - e - abs(a) * e if a > -INF else a, b + e + abs(b) * e if b < INF else b
    if fname == 'cosh':
        m = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return safe(math.cosh, m, 1.0) * (1 - e), safe(math.cosh, max(abs(lo), abs(hi)), INF) * (1 + e)
    return -INF, INF


_FN = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'asin': math.asin, 'acos': math.acos,
       'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh}


def _root(p, hi):
    """sqrt of a polynomial known to be non-negative."""
    c = ctx()
    if not p:
        return 0.0
    if len(p) == 1 and () in p:
        return math.sqrt(max(0.0, p[()]))
    at = c.func('sqrt', (p,), 0.0, hi, lambda v: math.sqrt(v) if v > 0 else 0.0,
                lambda s: [Cmp(padd(pmul(s.p, s.p), p, -1), '==')])
    return mk({(at.id,): 1.0})


def ratio(p, limit=20000):
    """p as a quotient (num, den) free of quotient atoms; None if too large."""
    c = ctx()
    den = {(): 1.0}
    for _ in range(200):
        q = [i for i in {i for m in p for i in m} if c.atoms[i].kind == 'div' and c.atoms[i].den is not None]
        if not q:
            return p, den
        i = max(q)
        a = c.atoms[i]
        k = max(m.count(i) for m in p)
        pw = [{(): 1.0}]
        dw = [{(): 1.0}]
        for _ in range(k):
            pw.append(pmul(pw[-1], a.num))
            dw.append(pmul(dw[-1], a.den))
        new = {}
        for m, x in p.items():
            j = m.count(i)
            rest = tuple(t for t in m if t != i)
            new = padd(new, pmul(pmul(pw[j], dw[k - j]), {rest: x}))
            if len(new) > limit:
                return None
        p = new
        den = pmul(den, dw[k])
    return None


def equal_one(p):
    """True if p is identically one (as a rational function modulo the definitions of roots, sines and cosines)."""
    r = ratio(p)
    if r is None:
        return False
    z = reduce_poly(padd(r[0], r[1], -1))
    return z is not None and all(abs(x) <= 1e-9 for x in z.values())


def _invtrig(i):
    """(sin, cos) of the inverse trigonometric atom i."""
    c = ctx()
    a = c.atoms[i]
    nm = a.name
    if nm == 'asin':
        x = mk(dict(a.args[0]))
        return x, _root(poly(1.0 - x * x), 1.0)
    if nm == 'acos':
        x = mk(dict(a.args[0]))
        return _root(poly(1.0 - x * x), 1.0), x
    if nm == 'atan2':
        y, x = mk(dict(a.args[0])), mk(dict(a.args[1]))
        r2 = poly(x * x + y * y)
        if equal_one(r2):
            return y, x
        iv = 1.0 / _root(r2, INF)
        return y * iv, x * iv
    if nm == 'atan':
        x = mk(dict(a.args[0]))
        iv = 1.0 / _root(poly(1.0 + x * x), INF)
        return x * iv, iv
    return None


def _angle(fname, p):
    """sin / cos of an angle that contains a constant offset or an inverse trigonometric function."""
    c = ctx()
    for m, k in p.items():
        if len(m) == 1 and k in (1.0, -1.0) and c.atoms[m[0]].kind == 'fn':
            sc = _invtrig(m[0])
            if sc is not None:
                sn, cs = sc[0] * k, sc[1]
                rest = {t: x for t, x in p.items() if t != m}
                if not rest:
                    return sn if fname == 'sin' else cs
                r = mk(rest)
                s2, c2 = sfun('sin', r), sfun('cos', r)
                return sn * c2 + cs * s2 if fname == 'sin' else cs * c2 - sn * s2
    k = p.get((), 0.0)
    if k and len(p) > 1:
        r = mk({m: x for m, x in p.items() if m})
        s1, c1 = sfun('sin', r), sfun('cos', r)
        s2, c2 = math.sin(k), math.cos(k)
        s2, c2 = (0.0 if abs(s2) < 1e-15 else s2), (0.0 if abs(c2) < 1e-15 else c2)
        return s1 * c2 + c1 * s2 if fname == 'sin' else c1 * c2 - s1 * s2
    return None


def sfun(fname, x):
    if is_num(x):
        return _FN[fname](x)
    c = ctx()
    p = x.p
    lo, hi = c.iv(p)
    if fname == 'log' and lo <= 0:
        k = ('log', pkey(p))
        if k not in c.hazards:
            c.hazards[k] = ('logarithm of a non-positive number', Cmp(p, '<='))
            c.assume(Cmp(pscale(p, -1), '<'))
    if fname in ('asin', 'acos') and (lo < -1 or hi > 1):
        k = (fname, pkey(p))
        if k not in c.hazards:
            c.hazards[k] = ('inverse trigonometric function out of domain', Or(Cmp(padd({(): 1.0}, p, -1), '<'),
                                                                              Cmp(padd(p, {(): 1.0}), '<')))
            c.assume(Cmp(padd(p, {(): 1.0}, -1), '<='))
            c.assume(Cmp(padd(pscale(p, -1), {(): 1.0}, -1), '<='))
    if fname in ('sin', 'cos'):
        r = _angle(fname, p)
        if r is not None:
            return r
    # sin(-x) = -sin(x), cos(-x) = cos(x): canonical sign
    sgn = 1.0
    if fname in ('sin', 'cos', 'asin', 'atan', 'sinh', 'cosh', 'tanh') and p[max(p)] < 0:
        p = pscale(p, -1)
        lo, hi = -hi, -lo
        if fname not in ('cos', 'cosh'):
            sgn = -1.0
    flo, fhi = _frange(fname, lo, hi)

    def ev(v):
        try:
            if fname in ('asin', 'acos'):
                v = max(-1.0, min(1.0, v))
            return _FN[fname](v)
        except (OverflowError, ValueError):
            return float('nan')

    def cons(s):
        r = []
        if fname in ('sin', 'cos'):
            other = 'cos' if fname == 'sin' else 'sin'
            o = c.by_key.get((other, pkey(p)))
            if o is not None:
                q = padd(pmul(s.p, s.p), {(o.id, o.id): 1.0})
                f = Cmp(padd(q, {(): -1.0}), '==')
                r.append(f)
                o.cons.append(f)
            if lo >= -math.pi and hi <= math.pi and flo < 0 < fhi:
                # sign of the sine and of the cosine follows the angle
                if fname == 'sin':
                    r.append(Or(And(Cmp(p, '<='), Cmp(s.p, '<=')), And(Cmp(pscale(p, -1), '<='), Cmp(pscale(s.p, -1), '<='))))
                else:
                    hp = {(): math.pi / 2}
                    r.append(Or(And(Cmp(padd(p, hp), '<='), Cmp(s.p, '<=')), And(Cmp(padd(hp, p, -1), '<='), Cmp(s.p, '<=')),
                                And(Cmp(padd(p, hp, -1), '<='), Cmp(padd(pscale(p, -1), hp, -1), '<='), Cmp(pscale(s.p, -1), '<='))))
        elif fname in ('sinh', 'cosh'):
            o = c.by_key.get(('cosh' if fname == 'sinh' else 'sinh', pkey(p)))
            if o is not None:
                ch, sh = (s.p, {(o.id,): 1.0}) if fname == 'cosh' else ({(o.id,): 1.0}, s.p)
                f = Cmp(padd(padd(pmul(ch, ch), pmul(sh, sh), -1), {(): -1.0}), '==')
                r.append(f)
                o.cons.append(f)
        elif fname == 'exp':
            # convexity: exp(x) >= 1 + x, exp > 0
            r.append(Cmp(padd(padd({(): 1.0}, p), s.p, -1), '<='))
        elif fname == 'asin' and flo < 0 < fhi:
            r.append(Or(And(Cmp(p, '<='), Cmp(padd(s.p, p, -1), '<=')), And(Cmp(pscale(p, -1), '<='), Cmp(padd(p, s.p, -1), '<='))))
            # 1 - sin(s) <= pi/2 - s and 1 + sin(s) <= s + pi/2
            q = padd(s.p, p, -1)
            r.append(Cmp(padd(q, {(): 1.0 - math.pi / 2}), '<=', 1e-12))
            r.append(Cmp(padd(pscale(q, -1), {(): 1.0 - math.pi / 2}), '<=', 1e-12))
        elif fname == 'acos':
            hp = {(): math.pi / 2}
            r.append(Or(And(Cmp(p, '<='), Cmp(padd(hp, s.p, -1), '<=')), And(Cmp(pscale(p, -1), '<='), Cmp(padd(s.p, hp, -1), '<='))))
        return r
    at = c.func(fname, (p,), flo, fhi, ev, cons)
    return mk({(at.id,): sgn})


def sfun2(fname, a, b):
    c = ctx()
    pa, pb = poly(a), poly(b)
    fn = {'pow': lambda x, y: x ** y, 'atan2': math.atan2}[fname]
    if fname == 'atan2' and all(m == () for m in pa) and all(m == () for m in pb):
        return math.atan2(pa.get((), 0.0), pb.get((), 0.0))
    lo, hi = (-math.pi, math.pi) if fname == 'atan2' else (-INF, INF)
    at = c.func(fname, (pa, pb), lo, hi, fn)
    return mk({(at.id,): 1.0})


def spow(x, e):
    c = ctx()
    p = x.p
    lo, hi = c.iv(p)
    if lo < 0:
        k = ('pow', pkey(p))
        if k not in c.hazards:
            c.hazards[k] = ('fractional power of a negative number', Cmp(p, '<'))
            c.assume(Cmp(pscale(p, -1), '<='))
        lo = 0.0
    if e > 0:
        plo = lo ** e
        phi = hi ** e if hi < INF else INF
    else:
        plo = hi ** e if hi < INF else 0.0
        phi = lo ** e if lo > 0 else INF
    at = c.func('pow', (p, {(): e}), plo * (1 - 1e-9), phi * (1 + 1e-9), lambda v, ee: v ** ee if v > 0 else (0.0 if ee > 0 else float('inf')))
    return mk({(at.id,): 1.0})


def stan(x):
    if is_num(x):
        return math.tan(x)
    return sdiv(sfun('sin', x), sfun('cos', x))


def all_int(c, p):
    return all(isinstance(k, int) and all(c.atoms[i].is_int for i in m) for m, k in p.items())


def sfloor(x):
    if is_num(x):
        return math.floor(x)
    c = ctx()
    p = x.p
    if all_int(c, p):
        return x
    lo, hi = c.iv(p)
    flo = math.floor(lo) if lo > -INF else -INF
    fhi = math.floor(hi) if hi < INF else INF

    def cons(s):
        # s <= x < s + 1
        return [Cmp(padd(s.p, p, -1), '<='), Cmp(padd(padd(p, s.p, -1), {(): 1}, -1), '<')]
    at = c.func('floor', (p,), flo, fhi, lambda v: math.floor(v), cons, is_int=True)
    return mk({(at.id,): 1})


def strunc(x):
    if is_num(x):
        return math.trunc(x)
    if all_int(ctx(), x.p):
        return x
    if x >= 0:
        return sfloor(x)
    return -sfloor(-x)


def sround(x, n=0):
    """Round half to even of Python/numpy, modelled as a nearest multiple of 10**-n (ties: either neighbour)."""
    if is_num(x):
        return round(x, n)
    c = ctx()
    if n <= 0 and all_int(c, x.p) and n == 0:
        return x
    k = 10.0 ** n
    p = pscale(x.p, k)
    lo, hi = c.iv(p)

    def cons(s):
        d = padd(s.p, p, -1)
        return [Cmp(padd(d, {(): 0.5}, -1), '<='), Cmp(padd(pscale(d, -1), {(): 0.5}, -1), '<=')]
    at = c.func('rint', (p,), math.floor(lo) if lo > -INF else -INF, math.ceil(hi) if hi < INF else INF,
                lambda v: round(v), cons, is_int=True)
    return mk({(at.id,): 1 if n == 0 else 1.0 / k})


def enum_int(x):
    """Concretise a bounded integer by forking over its values."""
    c = ctx()
    if not all_int(c, x.p):
        raise EngineError('index is not an integer expression')
    lo, hi = c.iv(x.p)
    if hi - lo > 20000:
        raise EngineError('integer range too large to enumerate')
    lo, hi = int(lo), int(hi)
    while lo < hi:
        mid = (lo + hi) // 2
        if x <= mid:
            hi = mid
        else:
            lo = mid + 1
    return lo


def has_sym(x):
    if isinstance(x, (Sym, F)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(v, (Sym, F)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


# ---------------------------------------------------------------------------------------------------------------
# linear systems
# ---------------------------------------------------------------------------------------------------------------

def solve(a, b):
    """x with a x = b; a: (n,n) possibly symbolic; b: (n,k)."""
    a = np.asarray(a)
    b = np.asarray(b)
    n = a.shape[0]
    if not has_sym(a):
        inv = np.linalg.inv(a.astype(float))
        if has_sym(b):
            return inv.astype(object).dot(b)
        return inv.dot(b.astype(float))
    vec = b.ndim == 1
    bb = b.reshape(n, -1)
    r = np.empty(bb.shape, dtype=object)
    offdiag_zero = all(is_num(a[i, j]) and a[i, j] == 0 for i in range(n) for j in range(n) if i != j)
    if offdiag_zero:
        for i in range(n):
            for k in range(bb.shape[1]):
                r[i, k] = sdiv(bb[i, k], a[i, i]) if (isinstance(a[i, i], Sym) or isinstance(bb[i, k], Sym)) \
                    else bb[i, k] / a[i, i]
        return r.reshape(-1) if vec else r
    c = ctx()
    for k in range(bb.shape[1]):
        pa = [poly(a[i, j]) for i in range(n) for j in range(n)]
        pb = [poly(bb[i, k]) for i in range(n)]

        def mkev(i):
            def ev(*vals):
                m = np.array(vals[:n * n], dtype=float).reshape(n, n)
                v = np.array(vals[n * n:], dtype=float)
                return float(np.linalg.solve(m, v)[i])
            return ev
        ats = [c.func('solve%d' % i, pa + pb, -INF, INF, mkev(i), kind='lin') for i in range(n)]
        if not ats[0].cons:
            eqs = []
            for i in range(n):
                e = {}
                for j in range(n):
                    e = padd(e, pmul(pa[i * n + j], {(ats[j].id,): 1.0}))
                eqs.append(Cmp(padd(e, pb[i], -1), '=='))
            for at in ats:
                at.cons = list(eqs)
        for i in range(n):
            r[i, k] = mk({(ats[i].id,): 1.0})
    return r.reshape(-1) if vec else r
