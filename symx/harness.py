"""Harness context: the same harness body runs symbolically (z3 decides the obligations) and concretely (replay on the
real, unmodified modules)."""
import contextlib
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

import numpy as np

from . import engine as E
from .engine import Sym, And, Or, Not, Implies
from .loader import SymWorld, RealWorld, REPO
from .z3setup import z3


class Skip(BaseException):
    """Concrete run left the assumed input domain."""


class Base:
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)

    def __init__(self, cfg):
        self.cfg = cfg
        self.obl = []       # (name, formula, known)
        self.obs = []       # (name, value)
        self.notes = {}
        self.ident = {}     # comparisons settled by the normal form alone, confirmed by the solver at the end of the path
        self.cov = []       # (name, formula) situations that some path must be able to reach

    def cover(self, name, f):
        f = E.as_formula(f)
        self.cov.append((name, E.simplify(f) if isinstance(f, E.F) else f))

    # comparisons as formulas; tolerances are absolute
    def le(self, a, b, tol=0.0):
        a, b = _sc(a), _sc(b)
        d = a - b
        if isinstance(d, Sym):
            return E.Cmp(d.p, '<=', tol)
        if d <= tol and (isinstance(a, Sym) or isinstance(b, Sym)):
            self.ident[E.pkey(E.poly(a)), E.pkey(E.poly(b))] = (E.poly(a), E.poly(b), tol)
        return bool(d <= tol)

    def ge(self, a, b, tol=0.0):
        return self.le(b, a, tol)

    def lt(self, a, b):
        d = _sc(a) - _sc(b)
        if isinstance(d, Sym):
            return E.Cmp(d.p, '<')
        return bool(d < 0)

    def gt(self, a, b):
        return self.lt(b, a)

    def eq(self, a, b, tol):
        return And(self.le(a, b, tol), self.le(b, a, tol))

    def same(self, a, b, tol):
        """Equality, decided by the normal form of the difference where that is zero."""
        d = _sc(a) - _sc(b)
        if isinstance(d, Sym):
            p = _normal(d.p)
            if p is not None:
                if not p:
                    return True
                qs = [q for q in (_normal(q) for q in _equalities(E.ctx())) if q]
                if qs and len(qs) < 30:
                    ms = sorted(set(p).union(*qs))
                    if len(ms) < 400:
                        # is the difference a combination of expressions that vanish on this path?
                        A = np.array([[q.get(m, 0.0) for q in qs] for m in ms], dtype=float)
                        v = np.array([p.get(m, 0.0) for m in ms], dtype=float)
                        f = np.linalg.lstsq(A, v, rcond=None)[0]
                        if np.max(np.abs(A @ f - v)) <= 1e-9 * np.max(np.abs(v)) and np.max(np.abs(f)) < 1e6:
                            return True
        return self.eq(a, b, tol)

    def between(self, lo, x, hi, tol=0.0):
        return And(self.le(lo, x, tol), self.le(x, hi, tol))

    def check(self, name, f, known=None):
        """Obligation.  known: {finding id: formula characterising exactly the recorded defective behaviour}."""
        f = E.as_formula(f)
        if isinstance(f, E.F):
            f = E.simplify(f)
        self.obl.append((name, f, known))

    def check_all_eq(self, name, a, b, tol, known=None):
        a, b = np.asarray(a, dtype=object).flatten(), np.asarray(b, dtype=object).flatten()
        if len(a) != len(b):
            self.check(name + '.shape', False)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.check('%s[%d]' % (name, i), self.eq(x, y, tol), known)

    def observe(self, name, v):
        for i, x in enumerate(np.asarray(v, dtype=object).flatten()):
            self.obs.append(('%s[%d]' % (name, i), x))

    def mod(self, name):
        return self.world.mod(name)

    def roots(self, lo, hi):
        """Range in which a numerical root finder of the code looks (symbolic runs)."""

    def arr(self, x):
        """Object (symbolic mode) or float (real mode) array."""
        raise NotImplementedError

    @contextlib.contextmanager
    def expect_ok(self, name):
        """Exceptions escaping the code under analysis are violations of obligation `name`."""
        try:
            yield
        except (E.EngineError, NotImplementedError):
            raise
        except CodeRaised:
            raise
        except Exception as ex:                      # noqa: BLE001 - deliberately only Exception
            if not in_code(ex):
                raise
            self.notes['exception'] = '%s: %s' % (type(ex).__name__, ex)
            self.notes['trace'] = traceback.format_exc()[-1500:]
            self.check(name, False)
            raise CodeRaised(str(ex))


class CodeRaised(Exception):
    pass


def in_code(ex):
    """True if the exception passed through a frame of the code under analysis (not a failing call into it)."""
    tb = ex.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def _normal(p):
    """Numerator of the normal form of a polynomial ({} if it vanishes identically, None if too large)."""
    for _ in range(4):
        r = E.ratio(p)
        if r is None:
            return None
        big = max([1.0] + [abs(x) for x in r[0].values()])
        p = E.reduce_poly(r[0])
        if p is None:
            return None
        p = {m: x for m, x in p.items() if abs(x) > 1e-9 * big}
        if not p:
            break
    return p


def _equalities(ctx):
    """Polynomials known to vanish on the current path."""
    out, seen = [], {}
    for c in ctx.conds:
        if not isinstance(c, E.Cmp):
            continue
        if c.op == '==':
            out.append(c.p)
        elif c.op == '<=' and c.tol == 0.0:
            seen[E.pkey(c.p)] = c.p
    for p in list(seen.values()):
        if E.pkey(E.pscale(p, -1)) in seen:
            out.append(p)
    return out


def _sc(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError('scalar expected, got shape %s' % (x.shape,))
        x = x.reshape(-1)[0]
    if isinstance(x, (np.bool_, bool)):
        return int(x)
    return x


class SymH(Base):
    mode = 'sym'

    def __init__(self, cfg, ctx, world_factory):
        super().__init__(cfg)
        self.ctx = ctx
        self.world = world_factory(cfg)
        self.tmp = '/symfs'

    def inp(self, name, lo, hi):
        return self.ctx.input(name, float(lo), float(hi))

    def iinp(self, name, lo, hi):
        return self.ctx.input(name, int(lo), int(hi), True)

    def assume(self, f):
        self.ctx.assume(f)

    def roots(self, lo, hi):
        self.ctx.root_iv = (float(lo), float(hi))

    def arr(self, x):
        a = np.asarray(x, dtype=object)
        return a

    def file(self, path, obj):
        p = self.tmp + '/' + path
        self.world.vfs.files[p] = obj
        return p

    def frame(self, path):
        """Table written by the code (None if there is none)."""
        return self.world.vfs.files.get(self.tmp + '/' + path)

    def load(self, path):
        """JSON document or list of csv rows written by the code."""
        return self.world.vfs.files[self.tmp + '/' + path]

    def pick(self, f):
        """Truth value on this path (forks)."""
        return bool(f)


class RealH(Base):
    mode = 'real'

    def __init__(self, cfg, env, world, rng=None):
        super().__init__(cfg)
        self.env = env
        self.rng = rng
        self.world = world
        self.tmp = tempfile.mkdtemp(prefix='symx_')
        self.used = {}

    def inp(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            v = 0.5 * (lo + hi)
            if self.rng is not None:
                v = self.rng.uniform(lo, hi) if self.rng.random() < 0.85 else self.rng.choice((lo, hi))
            self.env[name] = v
        if v < lo:
            v = lo
        if v > hi:
            v = hi
        self.used[name] = float(v)
        return float(v)

    def iinp(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            v = (lo + hi) // 2 if self.rng is None else self.rng.randint(lo, hi)
        v = min(max(int(v), lo), hi)
        self.used[name] = v
        return v

    def assume(self, f):
        if isinstance(f, E.F):
            raise E.EngineError('symbolic value in a concrete run')
        if not f:
            raise Skip()

    def arr(self, x):
        return np.asarray(x, dtype=float)

    def file(self, path, obj):
        import csv
        p = os.path.join(self.tmp, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if hasattr(obj, 'to_csv'):
            obj.to_csv(p)
        elif path.endswith('.json'):
            with open(p, 'w') as f:
                json.dump(obj, f)
        elif path.endswith('.csv'):
            with open(p, 'w', newline='') as f:
                csv.writer(f).writerows(obj)
        else:
            with open(p, 'w') as f:
                f.write(obj)
        return p

    def frame(self, path):
        import pandas as pd
        p = os.path.join(self.tmp, path)
        return pd.read_csv(p, index_col=0, encoding='cp932') if os.path.exists(p) else None

    def load(self, path):
        import csv
        with open(os.path.join(self.tmp, path), encoding='utf-8') as f:
            return json.load(f) if path.endswith('.json') else [[float(x) for x in r] for r in csv.reader(f)]

    def pick(self, f):
        return bool(f)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def _num(v):
    try:
        return float(v)
    except Exception:
        return None


def run_real(fn, cfg, env, rng=None):
    """Concrete run of harness fn. -> (results {name: bool}, observations, used inputs, notes)"""
    world = RealWorld()
    h = RealH(cfg, dict(env), world, rng)
    try:
        out = io.StringIO()
        with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    fn(h)
                except CodeRaised:
                    pass
        res = {}
        for name, f, known in h.obl:
            ok = bool(f)
            kk = {k: bool(v) for k, v in (known or {}).items()}
            res[name] = (ok, kk)
        h.notes['covered'] = sorted({n for n, f in h.cov if f})
        return res, h.obs, h.used, h.notes
    finally:
        h.close()


def lips(fname, lo, hi):
    """Lipschitz constant of fname on [lo, hi] (inf if unknown)."""
    if fname in ('sin', 'cos', 'atan'):
        return 1.0
    if fname == 'exp':
        return math.exp(hi) * 1.0001 if hi < 700 else math.inf
    if fname == 'log':
        return 1.0001 / lo if lo > 0 else math.inf
    if fname in ('asin', 'acos'):
        m = max(abs(lo), abs(hi))
        return 1.0001 / math.sqrt(1 - m * m) if m < 1 else math.inf
    return math.inf


class Explorer:
    """Explores one harness configuration symbolically and discharges its obligations."""

    def __init__(self, prop, fn, cfg, world_factory=None, deadline=None, q_timeout=20000, seed=1, known_ids=(),
                 max_paths=3000, validate=3):
        self.prop = prop
        self.fn = fn
        self.cfg = cfg
        self.wf = world_factory or (lambda c: SymWorld())
        self.deadline = deadline or (time.time() + 1e9)
        self.q_timeout = q_timeout
        self.known_ids = set(known_ids)
        self.max_paths = max_paths
        self.rng = random.Random(seed)
        self.validate = validate
        self.st = dict(paths=0, aborted=0, decisions=0, obligations=0, discharged=0, queries=0, t_solver=0.0,
                       validated=0, spurious_witness=0, feas=0, identities=0, identities_confirmed=0, relax_unsat=0, exact_unsat=0, refinements=0)
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.errors = []
        self.samples = []
        self.functions = set()
        self._replays = {}
        self.covers = {}

    # -- one path
    def _check(self, s, timeout=None, *extra):
        self.st['queries'] += 1
        t0 = time.time()
        left = max(1.0, self.deadline - time.time())
        to = int(min(timeout or self.q_timeout, left * 1000))
        r = s.check(to, *extra)
        self.st['t_solver'] += time.time() - t0
        return r

    def run(self):
        ctx = E.Ctx()
        E.set_ctx(ctx)
        ctx.pending = [[]]
        tool = self._monitor_on()
        try:
            while ctx.pending:
                if time.time() > self.deadline:
                    self.inconclusive.append('time budget exhausted with %d paths pending' % len(ctx.pending))
                    break
                if self.st['paths'] + self.st['aborted'] >= self.max_paths:
                    self.inconclusive.append('path bound %d reached' % self.max_paths)
                    break
                if self.violations and len(self.violations) >= 3:
                    break
                prefix = ctx.pending.pop()
                ctx.begin_path(prefix)
                h = None
                try:
                    h = SymH(self.cfg, ctx, self.wf)
                    self._h = h
                    with np.errstate(all='ignore'):
                        self.fn(h)
                except E.PathAbort:
                    self.st['aborted'] += 1
                    continue
                except CodeRaised:
                    pass
                except Exception as ex:              # noqa: BLE001
                    self.errors.append('harness/engine error: %s: %s' % (type(ex).__name__, ex) + '\n' +
                                       traceback.format_exc()[-1800:])
                    break
                self.st['decisions'] += len(ctx.trail)
                self._finish_path(ctx, h)
        finally:
            self._monitor_off(tool)
            self.st['feas'] = ctx.n_feas
            self.st['t_solver'] += ctx.t_solver
            E.set_ctx(None)
        if not self.violations and not self.errors and self.st['validated'] == 0 and not self.inconclusive:
            self.errors.append('vacuous: no reachable path was validated against the real code')
        if not self.violations and not self.errors and not self.inconclusive:
            for n, ok in self.covers.items():
                if not ok:
                    self.errors.append('vacuous: situation never reached: ' + n)
        return self

    def _monitor_on(self):
        try:
            mon = sys.monitoring
            tid = 3
            mon.use_tool_id(tid, 'symx')
            funcs = self.functions

            def start(code, off):
                fn = code.co_filename
                if fn.startswith(REPO):
                    funcs.add(fn[len(REPO) + 1:-3].replace('/', '.') + '.' + code.co_qualname)
                return mon.DISABLE
            mon.register_callback(tid, mon.events.PY_START, start)
            mon.set_events(tid, mon.events.PY_START)
            mon.restart_events()
            return tid
        except Exception:
            return None

    def _monitor_off(self, tid):
        if tid is not None:
            sys.monitoring.set_events(tid, 0)
            sys.monitoring.free_tool_id(tid)

    def _finish_path(self, ctx, h):
        conds = list(ctx.conds)
        obl = []
        n_obl = 0
        for name, f, known in h.obl:
            n_obl += 1
            if f is True:
                continue
            obl.append((name, f, known))
        # the path condition itself (linear relaxation)
        if conds and obl and self._check(ctx._solver(), 4000) == z3.unsat:
            self.st['aborted'] += 1
            return
        self.st['paths'] += 1
        self.st['obligations'] += n_obl
        self._confirm(ctx, h)
        # 1. everything at once on increasingly tight linear relaxations
        todo = obl
        self.st['discharged'] += n_obl - len(obl)
        rel = None
        if obl:
            big = Or(*[Not(f) for name, f, known in obl])
            for closure, budget in ((0, 0), (1, 3000), (2, 20000)):
                rel = E.Relax(ctx, closure, budget)
                for f in conds:
                    rel.add(f)
                r = z3.sat
                if big is False:
                    r = z3.unsat
                elif big is not True:
                    rel.define(big)
                    rel.define(big)
                    r = self._check(rel, self.q_timeout, big.z(rel.tr))
                if r == z3.unsat:
                    self.st['discharged'] += len(obl)
                    self.st['relax_unsat'] += len(obl)
                    todo = []
                    break
                if len(rel.vars) > 4000:
                    break
        if todo:
            cand = []
            if r == z3.sat and big is not True:
                cand.append(self._fill(ctx, self._env_from(ctx, rel)))      # model of the relaxation
            # is the path really feasible? (exact)
            ex = E.Exact(ctx)
            for f in conds:
                ex.add(f)
            ck = self._check(ex, 5000) if conds else z3.sat
            if ck == z3.sat:
                cand.append(self._fill(ctx, ex.model_env() if conds else {}))
            if ck != z3.unsat and self._first_models(ctx, conds, cand):
                return
            if ck == z3.unsat:
                self.st['paths'] -= 1
                self.st['obligations'] -= n_obl
                self.st['discharged'] -= n_obl - len(todo)
                self.st['aborted'] += 1
                return
        for name, f, known in todo:
            if len(self.violations) >= 3:
                break
            if time.time() > self.deadline:
                self.inconclusive.append('time budget exhausted at obligation ' + name)
                break
            self._decide(ctx, conds, rel, name, f, known)
        for name, f in h.cov:
            self.covers.setdefault(name, False)
            if self.covers[name] or f is False or self.violations or time.time() > self.deadline:
                continue
            for eps in (1e-3, 0.0):
                ex = E.Exact(ctx)
                for c in conds:
                    ex.add(_tighten(c, eps))
                if f is not True:
                    ex.add(_tighten(f, eps))
                if self._check(ex, 3000) == z3.sat:
                    r = self._replay(self._fill(ctx, ex.model_env()))
                    if r is not None and name in r[3].get('covered', ()):
                        self.covers[name] = True
                        break
        # 2. validate the encoding against the real code on a witness of this path
        if self.st['validated'] < self.validate and not self.violations:
            self._witness(ctx, conds, ctx._solver(), h)

    def _confirm(self, ctx, h):
        """Comparisons that polynomial arithmetic reduced to constants are put to the solver with both sides as they were."""
        xs = list(h.ident.values())[:1500]
        if not xs:
            return
        rel = E.Relax(ctx, 0, 0)
        bad = [rel.tr(a) - rel.tr(b) > E._zc(max(tol, 1e-9)) for a, b, tol in xs]
        self.st['identities'] += len(xs)
        if self._check(rel, 5000, z3.Or(*bad)) == z3.unsat:
            self.st['identities_confirmed'] += len(xs)

    def _first_models(self, ctx, conds, cand):
        """Replay the solver's first models before the harder queries; True when one of them is a counterexample."""
        for env in cand:
            cache = {}
            try:
                if any(_near(ctx, c, env, cache) for c in conds):
                    continue                       # on the edge of a branch: left to the queries with margins
            except Exception:                      # noqa: BLE001
                continue
            rr = self._replay(env)
            if rr is not None and any(self._new_violation(v) for v in rr[0].values()):
                self._report(next(n for n, v in rr[0].items() if self._new_violation(v)), env)
                return True
        return False

    def _env_from(self, ctx, s):
        if isinstance(s, E.Exact):
            return s.model_env()
        mod = s.s.model()
        env = {}
        for nm, a in ctx.inputs.items():
            v = s.vars.get((a.id,))
            if v is not None:
                env[nm] = E.zval(mod.eval(v, model_completion=True), a.is_int)
        return env

    def _fill(self, ctx, env, mid=True):
        env = dict(env)
        for nm, a in ctx.inputs.items():
            if nm not in env:
                if a.is_int:
                    env[nm] = int((a.lo + a.hi) // 2)
                else:
                    env[nm] = 0.5 * (a.lo + a.hi) if mid else self.rng.uniform(a.lo, a.hi)
        return env

    def _find_roots(self, ctx, env):
        """Values of stubbed roots for the other inputs of env."""
        env = dict(env)
        for name, p, _ in ctx.roots:
            at = ctx.inputs[name]

            def g(v):
                e = dict(env)
                e[name] = v
                return ctx.eval_poly(p, e, {})
            n = 200
            xs = [at.lo + (at.hi - at.lo) * k / n for k in range(n + 1)]
            try:
                vs = [g(v) for v in xs]
            except Exception:                          # noqa: BLE001
                return env
            for k in range(n):
                if vs[k] * vs[k + 1] <= 0:
                    a, b, fa = xs[k], xs[k + 1], vs[k]
                    for _ in range(80):
                        m = 0.5 * (a + b)
                        fm = g(m)
                        if fa * fm <= 0:
                            b = m
                        else:
                            a, fa = m, fm
                    env[name] = 0.5 * (a + b)
                    break
        return env

    def _replay(self, env):
        key = tuple(sorted(env.items()))
        if key in self._replays:
            return self._replays[key]
        try:
            r = run_real(self.fn, self.cfg, env)
        except Skip:
            r = None
        self._replays[key] = r
        return r

    @staticmethod
    def _failed(res, name):
        """name of a failing obligation in a concrete run (prefer `name`)."""
        bad = [n for n, (ok, kk) in res.items() if not ok]
        if name in bad:
            return name
        return None

    def _decide(self, ctx, conds, rel, name, f, known):
        """Decide one obligation on one path."""
        if f is False:
            neg = True
        else:
            neg = None
        if known and f is not False:
            # recorded defect: is the behaviour right or exactly the recorded one?
            hit = [k for k in known if k in self.known_ids]
            g = Or(f, *[E.simplify(known[k]) if isinstance(known[k], E.F) else known[k] for k in hit]) if hit else f
            if hit and (g is True or self._search(ctx, conds, rel, name, g, 'quick') == 'proved'):
                self.st['discharged'] += 1
                for env in self._occurrences(ctx, conds, f):
                    v = (self._replay(env) or ({},))[0].get(name)
                    if v and not v[0]:
                        for k in hit:
                            if v[1].get(k):
                                self.known_hits.setdefault(k, (name, env))
                        break
                return
        got = self._search(ctx, conds, rel, name, f, 'ok')
        if got == 'proved':
            self.st['discharged'] += 1
            return
        if isinstance(got, dict):
            env = got
            res = self._replay(env)[0]
            kk = (known or {})
            hit = [k for k in kk if k in self.known_ids]
            if hit and name in res and not res[name][0] and not any(self._new_violation(v) for v in res.values()):
                # violated; is the behaviour exactly the recorded one?
                g = Or(f, *[kk[k] for k in hit])
                got2 = self._search(ctx, conds, rel, name, g, 'known')
                if got2 == 'proved':
                    for k in hit:
                        if res[name][1].get(k):
                            self.known_hits.setdefault(k, (name, env))
                    self.st['discharged'] += 1
                    return
                if isinstance(got2, dict):
                    self._report(name, got2)
                    return
                self.inconclusive.append('%s: %s' % (name, got2))
                return
            self._report(name, env)
            return
        self.inconclusive.append('%s: %s' % (name, got) + (self._h.notes.get('trace', '') if f is False else ''))

    def _occurrences(self, ctx, conds, f):
        """Inputs on this path at which f may fail (to show a recorded defect at work)."""
        if len(self.known_hits) >= len(self.known_ids):
            return
        ex = E.Exact(ctx)
        ex.add(f.neg(20.0))
        for c in conds:
            ex.add(c)
        if self._check(ex, 3000) == z3.sat:
            yield self._fill(ctx, ex.model_env())
        for _ in range(20):
            yield self._fill(ctx, {n: (self.rng.randint(int(a.lo), int(a.hi)) if a.is_int else self.rng.uniform(a.lo, a.hi))
                                   for n, a in ctx.inputs.items()})

    def sample(self, seconds):
        """Only where the solver gave no answer: concrete runs of the real code, looking for a violation (never a proof)."""
        t0, n = time.time(), 0
        while time.time() - t0 < seconds and n < 200:
            n += 1
            try:
                r = run_real(self.fn, self.cfg, {}, self.rng)
            except Skip:
                continue
            except Exception:                        # noqa: BLE001
                break
            bad = [k for k, v in r[0].items() if self._new_violation(v)]
            if bad:
                self.violations.append(dict(obligation=bad[0], inputs=r[2], notes=r[3], cfg=self.cfg))
                return
        self.st['undecided_samples'] = n

    def _report(self, name, env):
        r = self._replay(env)
        bad = [n for n, v in r[0].items() if self._new_violation(v)]
        if bad and name not in bad:
            name = bad[0]
        used, notes = r[2], r[3]
        self.violations.append(dict(obligation=name, inputs=used, notes=notes, cfg=self.cfg))

    def _bad(self, res, name, kind):
        if res is None:
            return False
        if kind == 'known' or name not in res[0] or res[0][name][0]:
            return any(self._new_violation(v) for v in res[0].values())
        return True

    def _new_violation(self, v):
        ok, kk = v
        return not ok and not any(b for k, b in kk.items() if k in self.known_ids)

    def _search(self, ctx, conds, rel, name, f, kind):
        """'proved' | env (reproduced on the real code) | reason string."""
        if f is True:
            return 'proved'
        if f is not False:
            n = Not(f)
            rel.define(n)
            zf = n.z(rel.tr)
            rel.define(n)
            if self._check(rel, self.q_timeout, zf) == z3.unsat:
                self.st['relax_unsat'] += 1
                return 'proved'
        extra = []          # refinement lemmas (formulas)
        last = 'solver returned unknown'
        margins = [1.0] if kind == 'quick' else [1000.0, 20.0, 1.02, 1.0]
        for mg in margins:
            for it in range(25):
                if time.time() > self.deadline:
                    return 'time budget exhausted'
                ex = E.Exact(ctx)
                if f is not False:
                    ex.add(f.neg(mg))
                for c in conds:
                    ex.add(c)
                for c in extra:
                    ex.add(c)
                r = self._check(ex)
                if r == z3.unsat:
                    if mg == 1.0:
                        self.st['exact_unsat'] += 1
                        return 'proved'
                    break
                if r == z3.sat:
                    env = self._fill(ctx, ex.model_env())
                    rr = self._replay(env)
                    if self._bad(rr, name, kind) or kind == 'quick':
                        return env
                    # spurious: refine transcendental atoms at the model point
                    new = self._refine(ctx, ex, env)
                    self.st['refinements'] += len(new)
                    if not new:
                        last = 'counterexample does not reproduce on the real code: ' + json.dumps(
                            {k: env[k] for k in list(env)[:12]})
                        break
                    extra += new
                    continue
                if kind == 'quick':
                    break
                # unknown: try with part of the inputs pinned to constants
                env = self._pinned(ctx, conds, extra, f, mg, name, kind)
                if env is not None:
                    return env
                last = 'solver returned unknown'
                break
        return last

    def _pinned(self, ctx, conds, extra, f, mg, name, kind, tries=6):
        """Under-approximation: pin inputs that occur non-linearly, ask the solver for the rest."""
        nl = set()
        forms = list(conds) + list(extra) + ([f] if f is not False else [])
        seen = set()
        stack = []
        for g in forms:
            stack += g.leaves()
        while stack:
            g = stack.pop()
            for m in g.p:
                if len(m) > 1:
                    nl.update(m)
                for i in m:
                    if i not in seen:
                        seen.add(i)
                        for d in ctx.atoms[i].cons:
                            stack += d.leaves()
                        for p in ctx.atoms[i].args:
                            if ctx.atoms[i].kind != 'in':
                                stack.append(E.Cmp(p, '=='))
                                if ctx.atoms[i].kind == 'fn':
                                    for mm in p:
                                        nl.update(mm)
        pins = [a for a in ctx.inputs.values() if a.id in nl and not a.is_int]
        for t in range(tries):
            if time.time() > self.deadline:
                return None
            ex = E.Exact(ctx)
            if f is not False:
                ex.add(f.neg(mg))
            for c in list(conds) + list(extra):
                ex.add(c)
            env0 = {}
            for a in pins:
                v = a.lo + (a.hi - a.lo) * round(self.rng.random(), 3)
                env0[a.name] = v
                ex.s.add(ex.atom(a.id) == E._zc(v))
            # transcendental atoms whose arguments are now constant
            for i in seen:
                a = ctx.atoms[i]
                if a.kind == 'fn' and a.evalf is not None:
                    try:
                        deps = self._deps(ctx, a)
                        if deps <= set(env0):
                            v = ctx.eval_atom(i, env0, {})
                            ex.s.add(ex.atom(i) >= E._zc(v - 1e-12 * (1 + abs(v))))
                            ex.s.add(ex.atom(i) <= E._zc(v + 1e-12 * (1 + abs(v))))
                    except Exception:
                        pass
            r = self._check(ex, 5000)
            if r == z3.sat:
                env = self._fill(ctx, {**ex.model_env(), **env0})
                if self._bad(self._replay(env), name, kind):
                    return env
        return None

    def _deps(self, ctx, a):
        out = set()
        st = [a.id]
        seen = set()
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            b = ctx.atoms[i]
            if b.kind == 'in':
                out.add(b.name)
            for p in b.args:
                for m in p:
                    st += list(m)
        return out

    def _refine(self, ctx, ex, env):
        """Lemmas tying transcendental atoms to their true values around the model point."""
        mod = ex.s.model()
        new = []
        pts = []
        for i in list(ex.vars):
            a = ctx.atoms[i]
            if a.kind != 'fn' or a.evalf is None or a.name in ('floor', 'rint', 'sqrt') or len(a.args) < 1:
                continue
            try:
                zv = E.zval(mod.eval(ex.vars[i], model_completion=True))
                xs = [E.zval(mod.eval(ex.tr(p), model_completion=True)) for p in a.args]
                tv = a.evalf(*xs)
            except Exception:
                continue
            if not math.isfinite(tv):
                continue
            pts.append((a, xs, zv, tv))
            if abs(tv - zv) <= 1e-9 * (1 + abs(tv)):
                continue
            s = {(i,): 1.0}
            lo, hi = ctx.iv(a.args[0])
            L = lips(a.name, lo, hi)
            x0 = xs[0]
            if a.name == 'pow':
                e = xs[1]
                if lo > 0 and hi < math.inf:
                    L = abs(e) * max(lo ** (e - 1), hi ** (e - 1)) * 1.0001
                else:
                    L = math.inf
            if a.name == 'exp':
                # tangent below
                q = E.padd(E.pscale(a.args[0], tv), {(): tv * (1 - x0)})
                new.append(E.Cmp(E.padd(q, s, -1), '<=', 1e-9 * (1 + abs(tv))))
            if a.name == 'log':
                q = E.padd(E.pscale(a.args[0], 1 / x0), {(): tv - 1})
                new.append(E.Cmp(E.padd(s, q, -1), '<=', 1e-9))
            if L < math.inf and len(a.args) == 1 or (a.name == 'pow' and L < math.inf):
                d = E.padd(a.args[0], {(): x0}, -1) if x0 else dict(a.args[0])
                dv = E.padd(s, {(): tv}, -1) if tv else dict(s)
                t = 1e-9 * (1 + abs(tv))
                # |f - tv| <= L |x - x0|
                for sg in (1, -1):
                    new.append(Or(E.Cmp(E.padd(E.pscale(dv, sg), E.pscale(d, L), -1), '<=', t),
                                  E.Cmp(E.padd(E.pscale(dv, sg), E.pscale(d, L)), '<=', t)))
        return [n for n in new if n is not True]

    def _witness(self, ctx, conds, rel, h):
        """Concrete run on a witness of the path; compare observations with the symbolic values."""
        cand = []
        if not conds:
            cand.append(self._fill(ctx, {}, mid=False))
        for eps in (1e-2, 1e-4, 1e-6, 0.0) if conds else ():
            ex = E.Exact(ctx)
            for c in conds:
                ex.add(_tighten(c, eps))
            if self._check(ex, 4000) == z3.sat:
                cand.append(self._fill(ctx, ex.model_env(), mid=False))
                cand.append(self._fill(ctx, ex.model_env()))
                if eps:
                    break
        if not cand and self._check(rel, 4000) == z3.sat:
            cand.append(self._fill(ctx, self._env_from(ctx, rel)))
        if conds:
            cand = cand + [None] * 40                  # then: random inputs that happen to take this path
        for env in cand:
            if env is None:
                env = {n: (self.rng.randint(int(a.lo), int(a.hi)) if a.is_int else self.rng.uniform(a.lo, a.hi))
                       for n, a in ctx.inputs.items()}
                env = self._fill(ctx, env)
            if ctx.roots:
                env = self._find_roots(ctx, env)
            cache = {}
            try:
                ok = all(abs(ctx.eval_poly(p, env, cache)) <= 1e-9 for _, p, _ in ctx.roots) and \
                    all(c.ev(lambda p: _tolv(ctx.eval_poly(p, env, cache), c)) for c in conds if not _is_root(ctx, c))
            except Exception:
                ok = False
            if not ok:
                continue
            # on the very edge of a branch rounding may send the real code the other way
            edge = any(_near(ctx, c, env, cache) for c in conds)
            rr = self._replay(env)
            if rr is None:
                continue
            res, obs, used, notes = rr
            if not edge and any(self._new_violation(v) for v in res.values()):
                # the obligation fails on the real code itself
                self._report(next(n for n, v in res.items() if self._new_violation(v)), env)
                return
            so = dict(h.obs)
            ro = dict(obs)
            if set(so) != set(ro):
                if not h.obl or any(f is False for _, f, _ in h.obl):
                    continue
                self.errors.append('observation sets differ between symbolic and concrete run: %s' % (
                    sorted(set(so) ^ set(ro))[:5],))
                return
            bad = False
            for k in so:
                a, b = so[k], ro[k]
                if isinstance(a, Sym):
                    a = ctx.eval_poly(a.p, env, cache)
                if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None:
                    if str(a) != str(b):
                        if edge:
                            bad = True
                            break
                        self.errors.append('validation mismatch %s: symbolic %s real %s (inputs %s)' % (k, a, b, _short(env)))
                        return
                    continue
                a, b = _num(a), _num(b)
                if a is None or b is None:
                    continue
                if not (abs(a - b) <= 1e-6 * (1 + max(abs(a), abs(b)))):
                    if edge:
                        bad = True
                        break
                    self.errors.append('validation mismatch %s: symbolic %r real %r (inputs %s)' % (k, a, b, _short(env)))
                    return
            if bad:
                continue
            self.st['validated'] += 1
            if len(self.samples) < 3:
                self.samples.append(dict(cfg=self.cfg, path_conditions=len(conds), inputs=_short(used, 20),
                                         observed={k: _num(v) if _num(v) is not None else str(v) for k, v in list(ro.items())[:8]}))
            return
        self.st['spurious_witness'] += 1


def _tighten(f, eps):
    """Strengthened formula: inequalities with a margin (witnesses away from branch boundaries)."""
    if not eps or not isinstance(f, E.F):
        return f
    if isinstance(f, E.Cmp):
        if f.op == '<':
            return E.Cmp(E.padd(f.p, {(): eps}), '<')
        if f.op == '<=':
            return E.Cmp(E.padd(f.p, {(): eps}), '<=', f.tol)
        return f
    return (And if isinstance(f, E.AndF) else Or)(*[_tighten(g, eps) for g in f.fs])


def _is_root(ctx, c):
    return any(c is r[2] for r in ctx.roots)


def _near(ctx, f, env, cache):
    if _is_root(ctx, f):
        return False
    for c in f.leaves():
        try:
            v = ctx.eval_poly(c.p, env, cache)
            sc = sum(abs(k) for k in c.p.values())
        except Exception:
            return True
        if abs(v - c.tol) <= 1e-9 * (1.0 + sc):
            return True
    return False


def _tolv(v, c):
    # tolerate rounding when re-evaluating path conditions in floating point
    return v


def _short(env, n=12):
    return {k: (round(v, 9) if isinstance(v, float) else v) for k, v in list(env.items())[:n]}
