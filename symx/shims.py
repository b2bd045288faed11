"""Stand-ins for the libraries the code under analysis imports, used in symbolic mode only.

They fall back to the real library whenever no symbolic value is involved.
"""
import copy
import csv as _csv
import io
import json as _json
import math as _math
import types

import numpy as _np
import pandas as _pd

from . import engine as E
from .engine import Sym, has_sym, is_num


# ------------------------------------------------------------------------------------------------- elementwise

def _ew(f, *xs):
    """Apply scalar function f elementwise with broadcasting."""
    if not any(isinstance(x, (_np.ndarray, list, tuple)) for x in xs):
        return f(*xs)
    arrs = [_np.asarray(_toarr(x), dtype=object) for x in xs]
    bs = _np.broadcast_arrays(*arrs)
    r = _np.empty(bs[0].shape, dtype=object)
    for idx in _np.ndindex(r.shape):
        r[idx] = f(*[b[idx] for b in bs])
    return r


def _toarr(x):
    if isinstance(x, _np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return mkarray(x)
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def mkarray(x, dtype=None):
    """np.array for nested lists that may hold symbolic scalars."""
    if isinstance(x, _np.ndarray):
        return x.copy()
    if isinstance(x, (Sym, E.F)):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, types.GeneratorType):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        parts = [mkarray(v) if isinstance(v, (list, tuple, _np.ndarray, Sym, E.F)) else v for v in x]
        if any(isinstance(p, _np.ndarray) and p.dtype == object for p in parts):
            shp = None
            out = []
            for p in parts:
                if not isinstance(p, _np.ndarray):
                    q = _np.empty((), dtype=object)
                    q[()] = p
                    p = q
                out.append(p.astype(object))
                shp = p.shape if shp is None else shp
                if p.shape != shp:
                    raise E.EngineError('ragged array')
            r = _np.empty((len(out),) + shp, dtype=object)
            for i, p in enumerate(out):
                r[i] = p[()] if p.shape == () else p
            return r
        return _np.array(x) if dtype is None else _np.array(x, dtype=dtype)
    return _np.array(x)


FLOATS = (float, _np.float64, _np.float32, 'float', 'float64', 'f8', 'd')


def is_float_dtype(d):
    if d is None:
        return False
    if d in (float, FloatShim):
        return True
    try:
        return _np.dtype(d).kind == 'f'
    except TypeError:
        return False


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, _np.ndarray) and x.size == 1 and has_sym(x):
            return x.reshape(-1)[0]
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls.__class__ or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return E.strunc(x)
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    pass


def _dt(d):
    if d is FloatShim:
        return float
    if d is IntShim:
        return int
    return d


class LazyInv:
    """inv(A) with symbolic A; only products with it are materialised (as solutions of A x = b)."""

    def __init__(self, a):
        self.a = a
        self.shape = a.shape
        self._m = None

    def mat(self):
        if self._m is None:
            self._m = E.solve(self.a, _np.identity(self.a.shape[0]).astype(object))
        return self._m

    def dot(self, b):
        if isinstance(b, LazyInv):
            b = b.mat()
        return E.solve(self.a, _toarr(b))

    __matmul__ = dot

    def __rmatmul__(self, b):
        return _np.dot(b, self.mat())

    def __mul__(self, o):
        return self.mat() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.mat() + o

    __radd__ = __add__

    def __getitem__(self, i):
        return self.mat()[i]

    @property
    def T(self):
        return self.mat().T

    def flatten(self):
        return self.mat().flatten()

    def __array__(self, dtype=None):
        return self.mat()


class _Linalg:
    def __getattr__(self, n):
        return getattr(_np.linalg, n)

    @staticmethod
    def inv(a):
        a = _toarr(a)
        if not has_sym(a):
            return _np.linalg.inv(a.astype(float))
        if a.shape == (1, 1):
            return _np.array([[E.sdiv(1.0, a[0, 0])]], dtype=object)
        return LazyInv(a)

    @staticmethod
    def solve(a, b):
        a, b = _toarr(a), _toarr(b)
        if not has_sym(a) and not has_sym(b):
            return _np.linalg.solve(a.astype(float), b.astype(float))
        return E.solve(a, b)

    @staticmethod
    def norm(a, *args, **kw):
        a = _toarr(a)
        if not has_sym(a):
            return _np.linalg.norm(a.astype(float), *args, **kw)
        return m_sqrt(sum(v * v for v in a.flat))


def _m(name, symf, realf):
    def f(x, *a):
        if isinstance(x, Sym):
            return symf(x, *a)
        return realf(x, *a)
    f.__name__ = name
    return f


m_sqrt = _m('sqrt', E.ssqrt, _math.sqrt)
m_exp = _m('exp', lambda x: E.sfun('exp', x), _math.exp)
m_log_ = _m('log', lambda x, *a: E.sfun('log', x) / _math.log(a[0]) if a else E.sfun('log', x), _math.log)
m_sin = _m('sin', lambda x: E.sfun('sin', x), _math.sin)
m_cos = _m('cos', lambda x: E.sfun('cos', x), _math.cos)
m_tan = _m('tan', E.stan, _math.tan)
m_asin = _m('asin', lambda x: E.sfun('asin', x), _math.asin)
m_acos = _m('acos', lambda x: E.sfun('acos', x), _math.acos)
m_atan = _m('atan', lambda x: E.sfun('atan', x), _math.atan)
m_sinh = _m('sinh', lambda x: E.sfun('sinh', x), _math.sinh)
m_cosh = _m('cosh', lambda x: E.sfun('cosh', x), _math.cosh)
m_tanh = _m('tanh', lambda x: E.sfun('tanh', x), _math.tanh)
m_floor = _m('floor', E.sfloor, _math.floor)
m_ceil = _m('ceil', lambda x: -E.sfloor(-x), _math.ceil)
m_radians = _m('radians', lambda x: x * (_math.pi / 180.0), _math.radians)
m_degrees = _m('degrees', lambda x: x * (180.0 / _math.pi), _math.degrees)
m_fabs = _m('fabs', lambda x: abs(x), _math.fabs)
m_trunc = _m('trunc', E.strunc, _math.trunc)


def m_log10(x):
    return m_log_(x) / _math.log(10.0) if isinstance(x, Sym) else _math.log10(x)


def m_atan2(y, x):
    if isinstance(y, Sym) or isinstance(x, Sym):
        return E.sfun2('atan2', y, x)
    return _math.atan2(y, x)


def m_pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    return _math.pow(a, b)


def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return bool(abs(a - b) <= abs_tol + 1e-12)
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_isnan(x):
    return False if isinstance(x, Sym) else _math.isnan(x)


def make_math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith('__')})
    m.__dict__.update(sqrt=m_sqrt, exp=m_exp, log=m_log_, log10=m_log10, sin=m_sin, cos=m_cos, tan=m_tan, asin=m_asin,
                      acos=m_acos, atan=m_atan, sinh=m_sinh, cosh=m_cosh, tanh=m_tanh, atan2=m_atan2, floor=m_floor, ceil=m_ceil, radians=m_radians,
                      degrees=m_degrees, fabs=m_fabs, copysign=m_copysign, trunc=m_trunc, pow=m_pow, isclose=m_isclose, isnan=m_isnan,
                      isfinite=lambda x: True if isinstance(x, Sym) else _math.isfinite(x),
                      isinf=lambda x: False if isinstance(x, Sym) else _math.isinf(x),
                      fsum=lambda xs: sum(xs))
    return m


def m_copysign(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _math.copysign(a, b)
    a = abs(a) * 1.0
    if isinstance(b, Sym):
        return a if b >= 0 else -a
    return a if _math.copysign(1.0, b) > 0 else -a


def _sign(x):
    if isinstance(x, Sym):
        if x > 0:
            return 1.0
        if x < 0:
            return -1.0
        return 0.0
    return float(_np.sign(x))


def s_max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a if a >= b else b
    return max(a, b)


def s_min(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a if a <= b else b
    return min(a, b)


class Vectorize:
    def __init__(self, pyfunc, otypes=None, excluded=None, **kw):
        self.f = pyfunc
        self.otypes = otypes
        self.excluded = set(excluded or ())

    def __call__(self, *args, **kw):
        names = list(kw)
        vals = list(args) + [kw[n] for n in names]
        na = len(args)
        skip = {i for i in range(na) if i in self.excluded} | {na + i for i, n in enumerate(names) if n in self.excluded}
        arrs = [None if i in skip else _np.asarray(_toarr(v), dtype=object) for i, v in enumerate(vals)]
        bs = _np.broadcast_arrays(*[a for a in arrs if a is not None])
        it = iter(bs)
        full = [None if a is None else next(it) for a in arrs]
        shape = bs[0].shape
        outs = []
        for idx in _np.ndindex(shape):
            v = [vals[i] if full[i] is None else full[i][idx] for i in range(len(vals))]
            outs.append(self.f(*v[:na], **dict(zip(names, v[na:]))))
        if outs and isinstance(outs[0], tuple):
            return tuple(self._pack([o[k] for o in outs], shape) for k in range(len(outs[0])))
        return self._pack(outs, shape)

    @staticmethod
    def _pack(outs, shape):
        if any(isinstance(o, (Sym, E.F)) for o in outs):
            r = _np.empty(len(outs), dtype=object)
            for i, o in enumerate(outs):
                r[i] = o
            return r.reshape(shape)
        return _np.array(outs).reshape(shape)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()
        self.vectorize = Vectorize
        self.float = float
        self.int = int
        self.bool = bool
        self.object = object

    def __getattr__(self, n):
        return getattr(_np, n)

    # ---- creation: float arrays become object arrays so they can hold symbols
    @staticmethod
    def _obj(a):
        return a.astype(object)

    def zeros(self, shape, dtype=float, **kw):
        a = _np.zeros(shape, dtype=_dt(dtype))
        return a.astype(object) if is_float_dtype(dtype) else a

    def ones(self, shape, dtype=float, **kw):
        a = _np.ones(shape, dtype=_dt(dtype))
        return a.astype(object) if is_float_dtype(dtype) else a

    def empty(self, shape, dtype=float, **kw):
        a = _np.zeros(shape, dtype=_dt(dtype)) if is_float_dtype(dtype) else _np.empty(shape, dtype=_dt(dtype))
        return a.astype(object) if is_float_dtype(dtype) else a

    def full(self, shape, fill_value, dtype=None, **kw):
        if isinstance(fill_value, (Sym,)) or has_sym(fill_value) or is_float_dtype(dtype) or \
                (dtype is None and isinstance(fill_value, (float, _np.floating))):
            a = _np.empty(shape, dtype=object)
            a[...] = fill_value
            return a
        return _np.full(shape, fill_value, dtype=_dt(dtype))

    def zeros_like(self, a, dtype=None, **kw):
        a = _toarr(a)
        d = a.dtype if dtype is None else dtype
        if a.dtype == object and dtype is None:
            d = float
        return self.zeros(a.shape, dtype=d)

    def ones_like(self, a, dtype=None, **kw):
        a = _toarr(a)
        d = a.dtype if dtype is None else dtype
        if a.dtype == object and dtype is None:
            d = float
        return self.ones(a.shape, dtype=d)

    def empty_like(self, a, dtype=None, **kw):
        return self.zeros_like(a, dtype)

    def full_like(self, a, fill_value, dtype=None, **kw):
        a = _toarr(a)
        if dtype is None and a.dtype != object and not has_sym(fill_value):
            r = _np.full_like(a, fill_value)
            return r.astype(object) if r.dtype.kind == 'f' else r
        r = _np.empty(a.shape, dtype=object)
        r[...] = fill_value
        return r

    def array(self, x, dtype=None, **kw):
        if isinstance(x, LazyInv):
            return x.mat()
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x.copy()
        if has_sym(x):
            return mkarray(x)
        if dtype is not None:
            return _np.array(x, dtype=_dt(dtype), **kw)
        return _np.array(x, **kw)

    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, _np.ndarray) and (dtype is None or x.dtype == object):
            return x
        return self.array(x, dtype=dtype)

    asanyarray = asarray

    # ---- algebra
    def dot(self, a, b, out=None):
        if isinstance(a, LazyInv):
            return a.dot(b)
        if isinstance(b, LazyInv):
            b = b.mat()
        return _np.dot(_toarr(a) if isinstance(a, (list, tuple)) else a, _toarr(b) if isinstance(b, (list, tuple)) else b)

    def matmul(self, a, b):
        return self.dot(a, b)

    def einsum(self, spec, *ops, **kw):
        if not any(has_sym(o) for o in ops):
            return _np.einsum(spec, *[_np.asarray(o).astype(float) if getattr(o, 'dtype', None) == object else o
                                      for o in ops], **kw)
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        dims = {}
        for s, o in zip(ins, ops):
            for ch, n in zip(s, o.shape):
                dims[ch] = n
        rest = [ch for ch in dims if ch not in out]
        r = _np.zeros([dims[ch] for ch in out]).astype(object)
        for oi in _np.ndindex(*[dims[ch] for ch in out]):
            ix = dict(zip(out, oi))
            t = 0
            for ri in _np.ndindex(*[dims[ch] for ch in rest]):
                ix.update(zip(rest, ri))
                p = 1
                for s, o in zip(ins, ops):
                    p = p * o[tuple(ix[ch] for ch in s)]
                t = t + p
            r[oi] = t
        return r

    def interp(self, x, xp, fp, **kw):
        if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
            return _np.interp(_np.asarray(x, dtype=float), _np.asarray(xp, dtype=float), _np.asarray(fp, dtype=float), **kw)
        xs = _toarr(x)
        xp, fp = list(_toarr(xp).flat), list(_toarr(fp).flat)

        def one(v):
            if v <= xp[0]:
                return fp[0]
            for i in range(len(xp) - 1):
                if v <= xp[i + 1]:
                    return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
            return fp[-1]
        r = _ew(one, xs)
        return r if isinstance(x, (_np.ndarray, list, tuple)) else one(x)

    def loadtxt(self, fname, *a, **kw):
        return loadtxt_of(self.vfs)(fname, lambda p, **k: _np.loadtxt(p, *a, **k), kw)

    def genfromtxt(self, fname, *a, **kw):
        return loadtxt_of(self.vfs)(fname, lambda p, **k: _np.genfromtxt(p, *a, **k), kw)

    def clip(self, a, lo, hi, **kw):
        def f(v, l, h):
            if l is not None:
                v = s_max(v, l)
            if h is not None:
                v = s_min(v, h)
            return v
        if not has_sym(a) and not has_sym(lo) and not has_sym(hi):
            return _np.clip(a, lo, hi)
        return _ew(f, a, lo, hi)

    def maximum(self, a, b, **kw):
        if not has_sym(a) and not has_sym(b):
            return _np.maximum(a, b)
        return _ew(s_max, a, b)

    def minimum(self, a, b, **kw):
        if not has_sym(a) and not has_sym(b):
            return _np.minimum(a, b)
        return _ew(s_min, a, b)

    fmax = maximum
    fmin = minimum

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **kw):
        if not has_sym(a) and not has_sym(b):
            return _np.isclose(_np.asarray(a, dtype=float), _np.asarray(b, dtype=float), rtol, atol)
        return _ew(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), a, b)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **kw):
        return bool(_np.all(self.isclose(a, b, rtol, atol)))

    def round(self, a, decimals=0, **kw):
        if not has_sym(a):
            return _np.round(a if getattr(a, 'dtype', None) != object else a.astype(float), decimals)
        return _ew(lambda v: E.sround(v, decimals) if isinstance(v, Sym) else round(v, decimals), a)

    around = round
    round_ = round

    def where(self, cond, *xs):
        if isinstance(cond, E.F):
            cond = bool(cond)
        if isinstance(cond, _np.ndarray) and cond.dtype == object:
            cond = _ew(bool, cond).astype(bool)
        if not xs:
            return _np.where(cond)
        return _np.where(cond, *[x.mat() if isinstance(x, LazyInv) else x for x in xs])

    def select(self, conds, choices, default=0):
        if not any(has_sym(c) for c in choices) and not any(has_sym(c) for c in conds):
            return _np.select(conds, choices, default)
        shape = _np.broadcast_arrays(*[_toarr(c) for c in conds])[0].shape
        r = _np.empty(shape, dtype=object)
        r[...] = default
        done = _np.zeros(shape, dtype=bool)
        for c, ch in zip(conds, choices):
            cb = _np.broadcast_to(_ew(bool, c).astype(bool) if isinstance(c, _np.ndarray) else bool(c), shape)
            chb = _np.broadcast_to(_toarr(ch), shape)
            for idx in _np.ndindex(shape):
                if cb[idx] and not done[idx]:
                    r[idx] = chb[idx]
                    done[idx] = True
        return r

    def diag(self, v, k=0):
        if isinstance(v, LazyInv):
            v = v.mat()
        return _np.diag(v, k)

    def isnan(self, a):
        return _ew(m_isnan, a).astype(bool) if has_sym(a) and isinstance(a, _np.ndarray) else \
            (False if isinstance(a, Sym) else _np.isnan(a))

    def power(self, a, b):
        return a ** b

    def square(self, a):
        return a * a

    def arctan2(self, y, x):
        if any(isinstance(v, _np.ndarray) and v.dtype == object for v in (y, x)) or has_sym(y) or has_sym(x):
            return _ew(m_atan2, y, x)
        return _np.arctan2(y, x)

    def hypot(self, a, b):
        return self.sqrt(a * a + b * b)

    def mean(self, a, axis=None, **kw):
        return _np.mean(_toarr(a), axis=axis, **kw)

    def average(self, a, axis=None, weights=None, **kw):
        if not has_sym(a) and not has_sym(weights):
            a = _np.asarray(a)
            return _np.average(a.astype(float) if a.dtype == object else a, axis=axis,
                               weights=None if weights is None else _np.asarray(weights, dtype=float), **kw)
        a = _toarr(a)
        if weights is None:
            return _np.mean(a, axis=axis)
        w = _np.broadcast_to(_toarr(weights), a.shape)
        return _np.sum(a * w, axis=axis) / _np.sum(w, axis=axis)

    def isfinite(self, a):
        if has_sym(a):
            return _ew(lambda v: True if isinstance(v, Sym) else _math.isfinite(v), a)
        return _np.isfinite(_np.asarray(a, dtype=float))

    def isinf(self, a):
        if has_sym(a):
            return _ew(lambda v: False if isinstance(v, Sym) else _math.isinf(v), a)
        return _np.isinf(_np.asarray(a, dtype=float))

    def add(self, a, b):
        return a + b

    def subtract(self, a, b):
        return a - b

    def multiply(self, a, b):
        return a * b

    def divide(self, a, b):
        return a / b

    true_divide = divide

    def negative(self, a):
        return -a

    def cumsum(self, a, axis=None, **kw):
        return _np.cumsum(_toarr(a), axis=axis, **kw)

    def logical_and(self, a, b):
        return _ew(lambda x, y: bool(x) and bool(y), a, b) if has_sym(a) or has_sym(b) else _np.logical_and(a, b)

    def logical_or(self, a, b):
        return _ew(lambda x, y: bool(x) or bool(y), a, b) if has_sym(a) or has_sym(b) else _np.logical_or(a, b)

    def logical_not(self, a):
        return _ew(lambda x: not bool(x), a) if has_sym(a) else _np.logical_not(a)


class OArr(_np.ndarray):
    """Object array whose elementwise methods also work on the plain numbers in it."""

    def round(self, decimals=0, out=None):
        if self.dtype != object:
            return super().round(decimals)
        return _ew(lambda v: E.sround(v, decimals) if isinstance(v, Sym) else _np.round(v, decimals), self).view(OArr)

    def clip(self, min=None, max=None, **kw):
        if self.dtype != object:
            return super().clip(min, max, **kw)

        def f(v):
            v = v if min is None else s_max(v, min)
            return v if max is None else s_min(v, max)
        return _ew(f, self).view(OArr)

    def astype(self, dtype, *a, **kw):
        if self.dtype == object and is_float_dtype(dtype):
            return self.copy()
        return super().astype(dtype, *a, **kw)


def loadtxt_of(vfs):
    """np.loadtxt / genfromtxt on a virtual csv table."""
    def load(path, real, kw):
        f = vfs.files.get(str(getattr(path, 'path', path)))
        if not isinstance(f, list):
            return real(path, **kw)
        skip = kw.get('skiprows', kw.get('skip_header', 0))
        cols = kw.get('usecols')
        if isinstance(cols, int):
            cols = [cols]
        rows = []
        for r in f[skip:]:
            rows.append([_cell(r[c]) for c in (range(len(r)) if cols is None else cols)])
        a = mkarray(rows).view(OArr)
        return a.T if kw.get('unpack') else a
    return load


def _cell(v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return float('nan')
    return v


def _unary(name, f):
    real = getattr(_np, name)

    def g(self, x, *a, **kw):
        if isinstance(x, LazyInv):
            x = x.mat()
        if isinstance(x, (list, tuple)):
            x = mkarray(x)
        if isinstance(x, Sym) or (isinstance(x, _np.ndarray) and x.dtype == object):
            if isinstance(x, _np.ndarray) and x.shape == ():
                return f(x.item())
            return _ew(f, x)
        return real(x, *a, **kw)
    g.__name__ = name
    setattr(NumpyShim, name, g)


for _n, _f in dict(sqrt=m_sqrt, exp=m_exp, log=m_log_, sin=m_sin, cos=m_cos, tan=m_tan, arcsin=m_asin, arccos=m_acos,
                   arctan=m_atan, radians=m_radians, deg2rad=m_radians, degrees=m_degrees, rad2deg=m_degrees,
                   floor=m_floor, ceil=m_ceil, absolute=abs, abs=abs, fabs=abs, sign=_sign, trunc=m_trunc,
                   log10=m_log10, sinh=m_sinh, cosh=m_cosh, tanh=m_tanh).items():
    _unary(_n, _f)


# ------------------------------------------------------------------------------------------------- files

class VFile:
    def __init__(self, path, obj=None, sink=None):
        self.path = path
        self.obj = obj
        self.sink = sink
        self.buf = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        if isinstance(self.obj, str):
            return self.obj
        raise E.EngineError('raw read of a virtual file')

    def __iter__(self):
        if isinstance(self.obj, str):
            return iter(self.obj.splitlines(True))
        raise E.EngineError('raw iteration over a virtual file')

    def write(self, s):
        self.buf.append(s)

    def close(self):
        pass


class VFS:
    """path -> python object (json document, list of csv rows, DataFrame)."""

    def __init__(self):
        self.files = {}
        self.written = {}

    def open(self, path, mode='r', *a, **kw):
        p = str(path)
        if p in self.files and 'r' in mode:
            return VFile(p, self.files[p])
        if 'w' in mode or 'a' in mode:
            v = VFile(p)
            self.written[p] = v
            return v
        return open(path, mode, *a, **kw)


def make_json(vfs):
    m = types.ModuleType('json')
    m.__dict__.update({k: v for k, v in _json.__dict__.items() if not k.startswith('__')})

    def load(f, *a, **kw):
        if isinstance(f, VFile):
            return copy.deepcopy(f.obj)
        return _json.load(f, *a, **kw)

    def dumps(o, *a, **kw):
        kw.setdefault('default', lambda v: repr(v))
        return _json.dumps(o, *a, **kw)

    def dump(o, f, *a, **kw):
        if isinstance(f, VFile):
            f.obj = copy.deepcopy(o)
            vfs.files[f.path] = f.obj
            return
        _json.dump(o, f, *a, **kw)
    m.load, m.dumps, m.dump = load, dumps, dump
    return m


def make_csv(vfs):
    m = types.ModuleType('csv')
    m.__dict__.update({k: v for k, v in _csv.__dict__.items() if not k.startswith('__')})

    def reader(f, *a, **kw):
        if isinstance(f, VFile):
            return iter(copy.deepcopy(f.obj)) if not isinstance(f.obj, str) else _csv.reader(f, *a, **kw)
        return _csv.reader(f, *a, **kw)

    class Writer:
        def __init__(self, f):
            self.f = f
            self.f.obj = []
            vfs.files[f.path] = self.f.obj

        def writerow(self, r):
            self.f.obj.append(list(r))

        def writerows(self, rs):
            for r in rs:
                self.f.obj.append(list(r))

    def writer(f, *a, **kw):
        if isinstance(f, VFile):
            return Writer(f)
        return _csv.writer(f, *a, **kw)
    m.reader, m.writer = reader, writer
    return m


def _objnum(v):
    return v.dtype == object and all(isinstance(x, (Sym, int, float, _np.number)) for x in v.values)


class SymSeries(_pd.Series):
    """pandas Series whose elements may be symbolic."""

    @property
    def _constructor(self):
        return SymSeries

    @property
    def _constructor_expanddim(self):
        return SymFrame

    def resample(self, rule, *a, **kw):
        if _objnum(self):
            return SymResampler(self, rule, a, kw)
        return super().resample(rule, *a, **kw)

    def groupby(self, *a, **kw):
        if _objnum(self):
            return SymResampler(self, None, a, kw)
        return super().groupby(*a, **kw)

    def round(self, decimals=0, *a, **kw):
        if _objnum(self):
            return SymSeries([E.sround(x, decimals) if isinstance(x, Sym) else round(float(x), decimals) for x in self.values],
                             index=self.index, name=self.name, dtype=object)
        return super().round(decimals, *a, **kw)

    def sum(self, *a, **kw):
        if _objnum(self):
            return sum(self.values.tolist())
        return super().sum(*a, **kw)

    def mean(self, *a, **kw):
        if _objnum(self):
            return sum(self.values.tolist()) / len(self)
        return super().mean(*a, **kw)

    def astype(self, dtype, *a, **kw):
        if has_sym(self.values) and is_float_dtype(dtype):
            return self
        return super().astype(dtype, *a, **kw)

    def to_numpy(self, dtype=None, *a, **kw):
        if has_sym(self.values):
            return self.values
        return super().to_numpy(dtype, *a, **kw)


class SymFrame(_pd.DataFrame):
    _vfs = None

    @property
    def _constructor(self):
        return SymFrame

    @property
    def _constructor_sliced(self):
        return SymSeries

    def resample(self, rule, *a, **kw):
        if any(_objnum(self.iloc[:, k]) for k in range(self.shape[1])):
            return SymResampler(self, rule, a, kw)
        return super().resample(rule, *a, **kw)

    def groupby(self, *a, **kw):
        if any(_objnum(self.iloc[:, k]) for k in range(self.shape[1])):
            return SymResampler(self, None, a, kw)
        return super().groupby(*a, **kw)

    def round(self, decimals=0, *a, **kw):
        r = SymFrame(index=self.index)
        for k in self.columns:
            d = decimals.get(k) if isinstance(decimals, dict) else decimals
            r[k] = self[k] if d is None else self[k].round(d)
        return r

    def mean(self, *a, **kw):
        return SymSeries([self[k].mean() for k in self.columns], index=self.columns, dtype=object)

    def sum(self, *a, **kw):
        return SymSeries([self[k].sum() for k in self.columns], index=self.columns, dtype=object)


class SymResampler:
    """resample / groupby of symbolic columns, by positions."""

    def __init__(self, obj, rule, a, kw):
        self.obj, self.rule, self.a, self.kw = obj, rule, a, kw
        pos = _pd.Series(range(len(obj)), index=obj.index)
        g = pos.resample(rule, *a, **kw) if rule is not None else pos.groupby(*a, **kw)
        self.bins = [(k, list(v.values)) for k, v in g]

    def __getitem__(self, k):
        return SymResampler(self.obj[k], self.rule, self.a, self.kw)

    def _col(self, s, f):
        return SymSeries([f(list(s.values[p])) if p else float('nan') for k, p in self.bins],
                         index=_pd.Index([k for k, p in self.bins]), name=s.name, dtype=object)

    def _do(self, f):
        if isinstance(self.obj, _pd.Series):
            return self._col(self.obj, f)
        r = SymFrame(index=_pd.Index([k for k, p in self.bins]))
        for k in self.obj.columns:
            r[k] = self._col(self.obj[k], f)
        return r

    def mean(self, *a, **kw):
        return self._do(lambda v: sum(v) / len(v))

    def sum(self, *a, **kw):
        return self._do(lambda v: sum(v))

    def first(self, *a, **kw):
        return self._do(lambda v: v[0])

    def last(self, *a, **kw):
        return self._do(lambda v: v[-1])

    asfreq = first

    def max(self, *a, **kw):
        return self._do(lambda v: _fold(s_max, v))

    def min(self, *a, **kw):
        return self._do(lambda v: _fold(s_min, v))

    def agg(self, f, *a, **kw):
        if isinstance(f, str):
            return getattr(self, f)()
        return self._do(lambda v: f(mkarray(v)))

    apply = aggregate = agg


def _fold(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


class PandasShim(types.ModuleType):
    def __init__(self, vfs):
        super().__init__('pandas')
        self._vfs = vfs

        class Frame(SymFrame):
            @property
            def _constructor(self):
                return Frame

            def to_csv(self, path=None, *a, **kw):
                if path is None:
                    return super().to_csv(path, *a, **kw)
                vfs.files[str(path)] = self.copy()
        self.DataFrame = Frame
        self.Series = SymSeries

    def __getattr__(self, n):
        return getattr(_pd, n)

    def read_csv(self, path, *a, **kw):
        p = str(path)
        if p in self._vfs.files:
            o = self._vfs.files[p]
            return self.DataFrame(o.copy()) if hasattr(o, 'copy') else o
        return _pd.read_csv(path, *a, **kw)


def _closes_over_sym(f, seen=None):
    """True if a function refers to symbolic values (through its closure, defaults or bound object)."""
    seen = set() if seen is None else seen
    if id(f) in seen:
        return False
    seen.add(id(f))
    vals = []
    for c in getattr(f, '__closure__', None) or ():
        try:
            vals.append(c.cell_contents)
        except ValueError:
            pass
    vals += list(getattr(f, '__defaults__', None) or ()) + list(getattr(f, 'args', None) or ()) + list((getattr(f, 'keywords', None) or {}).values())
    o = getattr(f, '__self__', None)
    if o is not None:
        vals += list(getattr(o, '__dict__', {}).values())
    for v in vals:
        if callable(v) and not isinstance(v, type):
            if _closes_over_sym(v, seen):
                return True
        elif has_sym(v):
            return True
    return False


def make_optimize():
    from scipy import optimize as _opt
    m = types.ModuleType('scipy.optimize')
    m.__dict__.update({k: getattr(_opt, k) for k in dir(_opt) if not k.startswith('__')})

    def solver(real):
        """Root finder: on a symbolic function any root in the range declared by the harness."""
        def find(f, x0, *a, **kw):
            if kw.get('args') or not (_closes_over_sym(f) or has_sym(x0)):
                def g(x, *r):
                    v = f(x, *r)
                    if has_sym(v):
                        raise E.EngineError('root finding on a symbolic function')
                    return _np.asarray(v, dtype=float)
                return real(g, x0, *a, **kw)
            c = E.ctx()
            shape = _np.shape(x0)
            y = _np.empty(shape, dtype=object)
            names = []
            for k in _np.ndindex(shape):
                names.append('~root%d' % (len(c.roots) + len(names) + 1))
                y[k] = c.input(names[-1], *c.root_iv)
            c.roots += [(n, None) for n in names]
            r = _np.asarray(f(y if shape else y[()]), dtype=object).reshape(-1)
            at = len(c.roots) - len(names)
            for k, v in enumerate(r):
                eq = E.as_formula(v == 0)
                c.roots[at + k] = (names[k], E.poly(v), eq)
                c.assume(eq)
            if real.__name__ == 'fsolve':
                return y.reshape(-1)
            return y if shape else y[()]
        return find
    for nm in ('fsolve', 'newton', 'brentq', 'brenth', 'bisect', 'ridder'):
        setattr(m, nm, solver(getattr(_opt, nm)))
    return m


def make_scipy():
    import scipy as _sp
    m = types.ModuleType('scipy')
    m.__dict__.update({k: getattr(_sp, k) for k in ('__version__',)})
    m.optimize = make_optimize()
    return m


def py_round(x, n=None):
    if isinstance(x, Sym):
        return E.sround(x, 0 if n is None else n)
    return round(x) if n is None else round(x, n)


def py_max(*a, **kw):
    if len(a) == 1:
        a = list(a[0])
    if kw or not any(isinstance(v, Sym) for v in a):
        return max(a, **kw)
    r = a[0]
    for v in a[1:]:
        r = v if v > r else r
    return r


def py_min(*a, **kw):
    if len(a) == 1:
        a = list(a[0])
    if kw or not any(isinstance(v, Sym) for v in a):
        return min(a, **kw)
    r = a[0]
    for v in a[1:]:
        r = v if v < r else r
    return r
