"""
Glue between symbolic values and numpy / pandas.

* `harness_scope(ctx)`: undo all patches of a path when it ends; in symbolic
  mode, keep pandas' float conversions from forcing symbolic values.
* `SymNp`: stand-in for the name `np` inside a pelicun module: the same numpy,
  with object-dtype versions of the few functions that insist on float64.
"""

from __future__ import annotations

import builtins
import contextlib
import itertools
import math

import numpy as np
import pandas as pd

from . import sym as S
from .sym import Sym, SymBool, has_sym, ite

_MISSING = object()


class SymWeibull:  # placeholder for typing
    pass


def add_patch_api(ctx):
    def patch(obj, name, value, symbolic_only=False):
        if symbolic_only and not ctx.symbolic:
            return
        if isinstance(obj, dict):
            old = obj.get(name, _MISSING)
            obj[name] = value
            ctx.patches.append((obj, name, old))
            return
        old = obj.__dict__.get(name, _MISSING)
        setattr(obj, name, value)
        ctx.patches.append((obj, name, old))

    ctx.patch = patch


def undo(ctx):
    for obj, name, old in reversed(ctx.patches):
        if isinstance(obj, dict):
            if old is _MISSING:
                obj.pop(name, None)
            else:
                obj[name] = old
        elif old is _MISSING:
            with contextlib.suppress(AttributeError):
                delattr(obj, name)
        else:
            setattr(obj, name, old)
    ctx.patches.clear()


def tofloat_any(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [tofloat_any(v) for v in x]
    return S.parse_number(x)


def _has_token(x):
    if isinstance(x, str):
        return '\u27e6' in x
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'OU' and any(_has_token(v) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(_has_token(v) for v in x)
    return False


_FLOATS = {float, 'float', 'float64', np.float64, np.dtype('float64'), 'f8'}


def _is_float_dtype(d):
    if d is SymFloat:
        return True
    try:
        return d in _FLOATS
    except TypeError:
        return False


def tofloat(v):
    """float(v), keeping symbolic values (and reading tokens)."""
    return S.parse_number(v)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym)) and not (
            isinstance(x, Sym) and x.t.is_int())

    def __call__(cls, x=0.0):
        v = S.parse_number(x)
        if isinstance(v, Sym) and v.t.is_int():
            return Sym(S.real_term(v))
        return v

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    """Stand-in for the name `float` inside a module (symbolic mode)."""


def obj_array(values, shape=None):
    values = list(values)
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a if shape is None else a.reshape(shape)


class SymArray(np.ndarray):
    """An array whose symbols survive a cast to float."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _is_float_dtype(dtype) and has_sym(self):
            return self.copy()
        return super().astype(dtype, *a, **k)


def _install_pandas(ctx):
    s_astype, d_astype = pd.Series.astype, pd.DataFrame.astype
    to_numeric = pd.to_numeric

    def ser_astype(self, dtype, *a, **k):
        if self.dtype == object and _is_float_dtype(dtype) and (
            has_sym(self.to_numpy()) or _has_token(self.to_numpy())
        ):
            return pd.Series(
                obj_array([tofloat(v) for v in self.to_numpy()]),
                index=self.index, name=self.name, dtype=object,
            )
        if self.dtype == object and dtype in (bool, 'bool') and has_sym(self.to_numpy()):
            return pd.Series([bool(v) for v in self.to_numpy()], index=self.index,
                             name=self.name, dtype=bool)
        return s_astype(self, dtype, *a, **k)

    def df_astype(self, dtype, *a, **k):
        if _is_float_dtype(dtype) and (
            has_sym(self.to_numpy()) or _has_token(self.to_numpy())
        ):
            vals = self.to_numpy(dtype=object)
            out = np.empty(vals.shape, dtype=object)
            for idx in itertools.product(*map(range, vals.shape)):
                out[idx] = tofloat(vals[idx])
            return pd.DataFrame(out, index=self.index, columns=self.columns)
        return d_astype(self, dtype, *a, **k)

    s_init = pd.Series.__init__

    def ser_init(self, data=None, index=None, dtype=None, *a, **k):
        if dtype is not None and _is_float_dtype(dtype):
            dtype = builtins.float
            if isinstance(data, (list, tuple, np.ndarray)) and len(data) and (
                    has_sym(data) or _has_token(data)):
                data, dtype = obj_array([tofloat(v) for v in data]), object
        s_init(self, data, index, dtype, *a, **k)

    ctx.patch(pd.Series, '__init__', ser_init)

    def num(arg, *a, **k):
        if has_sym(arg) or _has_token(np.asarray(arg)):
            if isinstance(arg, pd.Series):
                return ser_astype(arg, float)
            return obj_array([tofloat(v) for v in arg])
        return to_numeric(arg, *a, **k)

    ctx.patch(pd.Series, 'astype', ser_astype)
    ctx.patch(pd.DataFrame, 'astype', df_astype)
    ctx.patch(pd, 'to_numeric', num)

    read_csv = pd.read_csv

    def numbers(df):
        # columns of nothing but numbers are read as numbers
        for j in range(df.shape[1]):
            col = df.iloc[:, j]
            if col.dtype == object and _has_token(col.to_numpy()):
                try:
                    vals = [tofloat(v) for v in col.to_numpy()]
                except ValueError:
                    continue
                df.isetitem(j, obj_array(vals))
        return df

    def reader(src, *a, dtype=None, **k):
        if not isinstance(dtype, dict):
            df = read_csv(src, *a, dtype=dtype, **k)
            return numbers(df) if dtype is None else df
        try:
            return read_csv(src, *a, dtype=dtype, **k)
        except ValueError:
            fl = [c for c, t in dtype.items() if _is_float_dtype(t)]
            df = read_csv(src, *a, dtype={
                c: t for c, t in dtype.items() if c not in fl}, **k)
            for c in fl:
                if c in df.columns:
                    df[c] = obj_array([tofloat(v) for v in df[c]])
            return df

    ctx.patch(pd, 'read_csv', reader)

    describe = pd.DataFrame.describe

    def desc(self, percentiles=None, *a, **k):
        vals = self.to_numpy()
        if vals.dtype != object or not vals.size:
            return describe(self, percentiles, *a, **k)
        if not has_sym(vals):
            return describe(d_astype(self, builtins.float), percentiles, *a, **k)
        rows = describe(pd.DataFrame({"x": [0.0, 1.0]}), percentiles).index
        out = np.empty((len(rows), vals.shape[1]), dtype=object)
        for j in range(vals.shape[1]):
            v = sorted(x for x in vals[:, j] if not S.is_nan(x))
            n = len(v)
            mean = sum(v) / n if n else np.nan
            for i, r in enumerate(rows):
                if r == 'count':
                    x = builtins.float(n)
                elif not n:
                    x = np.nan
                elif r == 'mean':
                    x = mean
                elif r == 'std':
                    x = SYMNP.std(obj_array(v), ddof=1) if n > 1 else np.nan
                elif r in ('min', 'max'):
                    x = v[0 if r == 'min' else -1]
                else:
                    h = builtins.float(r[:-1]) / 100 * (n - 1)
                    b = builtins.min(int(h), n - 1)
                    x = v[b] if b == n - 1 else v[b] + (v[b + 1] - v[b]) * (h - b)
                out[i, j] = x
        return pd.DataFrame(out, index=rows, columns=self.columns)

    ctx.patch(pd.DataFrame, 'describe', desc)

    from pandas.core import nanops

    ens = nanops._ensure_numeric

    def ensure(x):
        if has_sym(x) or isinstance(x, (Sym, SymBool)):
            return x
        return ens(x)

    ctx.patch(nanops, '_ensure_numeric', ensure)


@contextlib.contextmanager
def harness_scope(ctx):
    add_patch_api(ctx)

    def symnp(*modules):
        if ctx.symbolic:
            for m in modules:
                ctx.patch(m, 'np', SYMNP)

    ctx.symnp = symnp

    def symfloat(*modules):
        if ctx.symbolic:
            for m in modules:
                ctx.patch(m, 'float', SymFloat)

    ctx.symfloat = symfloat
    try:
        if ctx.symbolic:
            _install_pandas(ctx)
        yield ctx
    finally:
        undo(ctx)


# ------------------------------------------------------------------ numpy ---


def _elem(f):
    """Apply f elementwise, keeping shape and pandas containers."""

    def g(x, *a, **k):
        if isinstance(x, (pd.Series, pd.DataFrame)):
            if isinstance(x, pd.Series):
                return pd.Series(
                    obj_array([f(v) for v in x.to_numpy(dtype=object)]),
                    index=x.index, name=x.name)
            v = x.to_numpy(dtype=object)
            return pd.DataFrame(g(v), index=x.index, columns=x.columns)
        if isinstance(x, (np.ndarray, list, tuple)):
            arr = np.asarray(x, dtype=object)
            out = np.empty(arr.shape, dtype=object)
            for idx in itertools.product(*map(range, arr.shape)):
                out[idx] = f(arr[idx])
            return out
        return f(x)

    return g


def _isnan(v):
    return S.is_nan(v)


def as_bool_array(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.astype(bool)
    return a


class SymNp:
    """numpy with object-friendly versions of the float-only functions."""

    def __getattr__(self, name):
        return getattr(np, name)

    # creation: object dtype so that symbolic values can be stored
    def zeros(self, shape, dtype=None, **k):
        if dtype in (None, float, np.float64, SymFloat):
            return np.full(shape, 0.0, dtype=object)
        return np.zeros(shape, dtype=dtype, **k)

    def ones(self, shape, dtype=None, **k):
        if dtype in (None, float, np.float64, SymFloat):
            return np.full(shape, 1.0, dtype=object)
        return np.ones(shape, dtype=dtype, **k)

    def empty(self, shape, dtype=None, **k):
        if dtype in (None, float, np.float64, SymFloat):
            return np.full(shape, np.nan, dtype=object)
        return np.empty(shape, dtype=dtype, **k)

    def full(self, shape, fill_value, dtype=None, **k):
        if dtype in (float, np.float64) or (
            dtype is None and isinstance(fill_value, (float, Sym, np.floating))
        ):
            return np.full(shape, fill_value, dtype=object)
        return np.full(shape, fill_value, dtype=dtype, **k)

    def _like(self, a, v, dtype=None):
        a = np.asarray(a)
        if dtype in (None, float) and a.dtype.kind in 'fO':
            return np.full(a.shape, v, dtype=object)
        return np.full_like(a, v, dtype=dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, 0.0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, 1.0, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self._like(a, v, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, np.nan, dtype)

    def array(self, x, dtype=None, **k):
        if dtype is SymFloat:
            dtype = float
        if dtype in (float, np.float64) and _has_token(x):
            return np.array(tofloat_any(x), dtype=object)
        if has_sym(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
            return np.array(x, dtype=object, **k)
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if dtype is SymFloat:
            dtype = float
        if dtype in (float, np.float64) and _has_token(x):
            return np.array(tofloat_any(x), dtype=object)
        if has_sym(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
            return np.asarray(x, dtype=object)
        return np.asarray(x, dtype=dtype, **k)

    def atleast_1d(self, x):
        if isinstance(x, Sym):
            return obj_array([x]).view(SymArray)
        x = np.atleast_1d(x)
        return x.view(SymArray) if x.dtype == object else x

    # predicates
    def isnan(self, x):
        if isinstance(x, Sym):
            return False
        if _needs(x):
            if isinstance(x, (pd.Series, pd.DataFrame)):
                return x.isna()
            return as_bool_array(_elem(_isnan)(x))
        return np.isnan(x)

    def isinf(self, x):
        if isinstance(x, Sym):
            return False
        if _needs(x):
            return as_bool_array(_elem(lambda v: bool(S.is_inf(v)))(x))
        return np.isinf(x)

    def isneginf(self, x):
        if isinstance(x, Sym):
            return False
        if _needs(x):
            return as_bool_array(
                _elem(lambda v: bool(S.is_inf(v)) and v < 0)(x))
        return np.isneginf(x)

    def isposinf(self, x):
        if isinstance(x, Sym):
            return False
        if _needs(x):
            return as_bool_array(
                _elem(lambda v: bool(S.is_inf(v)) and v > 0)(x))
        return np.isposinf(x)

    def isfinite(self, x):
        if isinstance(x, Sym):
            return True
        if _needs(x):
            return as_bool_array(
                _elem(lambda v: not (S.is_inf(v) or S.is_nan(v)))(x))
        return np.isfinite(x)

    # elementwise functions
    def _fn(name, method):
        def f(self, x, *a, **k):
            if _needs(x):
                def one(v):
                    if isinstance(v, Sym):
                        return getattr(v, method)()
                    if name == 'log' and 0 < v < 1e-300:
                        # stands for 'smallest positive float': its normal
                        # cdf is 0.0 in float64
                        return -math.inf
                    return getattr(np, name)(v)
                return _elem(one)(x)
            return getattr(np, name)(x, *a, **k)
        return f

    exp = _fn('exp', 'exp')
    log = _fn('log', 'log')
    sqrt = _fn('sqrt', 'sqrt')
    floor = _fn('floor', 'floor')
    ceil = _fn('ceil', 'ceil')
    rint = _fn('rint', 'rint')
    trunc = _fn('trunc', 'trunc')
    abs = _fn('abs', '__abs__')
    fabs = _fn('fabs', '__abs__')
    absolute = _fn('absolute', '__abs__')
    sign = _fn('sign', 'sign')
    del _fn

    def round(self, x, decimals=0):
        if _needs(x):
            return _elem(
                lambda v: v.__round__(decimals) if isinstance(v, Sym)
                else np.round(v, decimals))(x)
        return np.round(x, decimals)

    around = round

    def maximum(self, a, b):
        if _needs(a) or _needs(b):
            return _bin(lambda x, y: x if S.is_nan(x) else y if S.is_nan(y)
                        else x if bool(x >= y) else y, a, b)
        return np.maximum(a, b)

    def minimum(self, a, b):
        if _needs(a) or _needs(b):
            return _bin(lambda x, y: x if S.is_nan(x) else y if S.is_nan(y)
                        else x if bool(x <= y) else y, a, b)
        return np.minimum(a, b)

    def fmax(self, a, b):
        if _needs(a) or _needs(b):
            return _bin(lambda x, y: y if S.is_nan(x) else x if S.is_nan(y)
                        else x if bool(x >= y) else y, a, b)
        return np.fmax(a, b)

    def fmin(self, a, b):
        if _needs(a) or _needs(b):
            return _bin(lambda x, y: y if S.is_nan(x) else x if S.is_nan(y)
                        else x if bool(x <= y) else y, a, b)
        return np.fmin(a, b)

    def clip(self, x, lo=None, hi=None, **k):
        if _needs(x) or _needs(lo) or _needs(hi):
            if lo is not None:
                x = self.maximum(x, lo)
            if hi is not None:
                x = self.minimum(x, hi)
            return x
        return np.clip(x, lo, hi, **k)

    def where(self, c, *ab):
        if not ab:
            return np.where(as_bool_array(np.asarray(c)))
        a, b = ab
        if _needs(c) or _needs(a) or _needs(b):
            c = np.asarray(c)
            if c.dtype == object:
                c = c.astype(bool)
            return np.where(c, _obj(a), _obj(b))
        return np.where(c, a, b)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _needs(a) or _needs(b):
            def one(x, y):
                if S.is_nan(x) or S.is_nan(y):
                    return equal_nan and S.is_nan(x) and S.is_nan(y)
                if S.is_inf(x) or S.is_inf(y):
                    return bool(x == y)
                return bool(abs(x - y) <= atol + rtol * abs(y))
            r = _bin(one, a, b)
            return r.astype(bool) if isinstance(r, np.ndarray) else r
        return np.isclose(a, b, rtol, atol, equal_nan)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _needs(a) or _needs(b):
            return bool(np.all(self.isclose(a, b, rtol, atol, equal_nan)))
        return np.allclose(a, b, rtol, atol, equal_nan)

    def array_equal(self, a, b, **k):
        if _needs(a) or _needs(b):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            return a.shape == b.shape and all(
                bool(x == y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b, **k)

    def nan_to_num(self, x, nan=0.0, **k):
        if _needs(x):
            return _elem(lambda v: nan if S.is_nan(v) else v)(x)
        return np.nan_to_num(x, nan=nan, **k)

    # searching: scalar semantics of numpy, decided by forks
    def interp(self, x, xp, fp, left=None, right=None, **k):
        if not (_needs(x) or _needs(xp) or _needs(fp)):
            return np.interp(x, xp, fp, left=left, right=right, **k)
        xp, fp = list(xp), list(fp)

        def one(v):
            if S.is_nan(v):
                return v
            if bool(v <= xp[0]):
                if bool(v < xp[0]):
                    return fp[0] if left is None else left
                return fp[0]
            if bool(v >= xp[-1]):
                if bool(v > xp[-1]):
                    return fp[-1] if right is None else right
                return fp[-1]
            for i in range(len(xp) - 1):
                if bool(v < xp[i + 1]):
                    if S.is_inf(xp[i]) or S.is_inf(xp[i + 1]):
                        return fp[i + 1] if S.is_inf(xp[i]) else fp[i]
                    return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (
                        xp[i + 1] - xp[i])
            return fp[-1]

        return _elem(one)(x)

    def searchsorted(self, a, v, side='left', sorter=None):
        if not (_needs(a) or _needs(v)):
            return np.searchsorted(a, v, side=side, sorter=sorter)
        a = list(a) if sorter is None else [a[i] for i in sorter]

        def one(x):
            for i, y in enumerate(a):
                if bool(x <= y) if side == 'left' else bool(x < y):
                    return i
            return len(a)

        r = _elem(one)(v)
        return r.astype(int) if isinstance(r, np.ndarray) else r

    def digitize(self, x, bins, right=False):
        if _needs(x) or _needs(bins):
            return self.searchsorted(
                bins, x, side='left' if right else 'right')
        return np.digitize(x, bins, right=right)

    def diff(self, x, *a, **k):
        return np.diff(np.asarray(x), *a, **k)

    def std(self, x, ddof=0, axis=None, **k):
        if _needs(x):
            if np.size(x) == 2 and axis in (None, 0):
                a, b = np.asarray(x, dtype=object).ravel()
                return abs(a - b) * (0.5 / (2 - ddof)) ** 0.5
            return self.sqrt(self.var(x, ddof=ddof, axis=axis))
        return np.std(x, ddof=ddof, axis=axis, **k)

    def var(self, x, ddof=0, axis=None, **k):
        if _needs(x):
            x = np.asarray(x, dtype=object)
            n = x.size if axis is None else x.shape[axis]
            m = np.mean(x, axis=axis, keepdims=True)
            return np.sum((x - m) ** 2, axis=axis) / (n - ddof)
        return np.var(x, ddof=ddof, axis=axis, **k)

    def nanmax(self, x, *a, **k):
        if _needs(x):
            vals = [v for v in np.asarray(x, dtype=object).ravel() if not S.is_nan(v)]
            return builtins.max(vals) if vals else np.nan
        return np.nanmax(x, *a, **k)

    def nanmin(self, x, *a, **k):
        if _needs(x):
            vals = [v for v in np.asarray(x, dtype=object).ravel() if not S.is_nan(v)]
            return builtins.min(vals) if vals else np.nan
        return np.nanmin(x, *a, **k)

    def nansum(self, x, *a, **k):
        if _needs(x):
            return np.sum(self.nan_to_num(x), *a, **k)
        return np.nansum(x, *a, **k)

    class _LinAlg:
        def __getattr__(self, name):
            return getattr(np.linalg, name)

        @staticmethod
        def norm(x, ord=None, axis=None, **k):
            if _needs(x):
                x = np.asarray(x, dtype=object)
                s = np.sum(x * x, axis=axis)
                return SYMNP.sqrt(s)
            return np.linalg.norm(x, ord, axis, **k)

        @staticmethod
        def cholesky(a, **k):
            if _needs(a):
                return sym_cholesky(a)
            return np.linalg.cholesky(a, **k)

    linalg = _LinAlg()


def sym_cholesky(a):
    """Textbook Cholesky; LinAlgError unless positive definite."""
    a = np.asarray(a, dtype=object)
    n = a.shape[0]
    L = np.full((n, n), 0.0, dtype=object)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if bool(s <= 0):
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i, i] = s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


def _deep_sym(x):
    return any(
        isinstance(v, (Sym, SymBool)) or
        (isinstance(v, (list, tuple)) and _deep_sym(v)) or
        (isinstance(v, (np.ndarray, pd.Series)) and has_sym(v)) for v in x)


def _needs(x):
    if x is None or isinstance(x, (str, int, float)):
        return False
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return any(t == object for t in (
            [x.dtype] if isinstance(x, pd.Series) else x.dtypes))
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return _deep_sym(x)
    return False


def _obj(x):
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _bin(f, a, b):
    if not hasattr(a, '__len__') and not hasattr(b, '__len__'):
        return f(a, b)
    wrap = None
    if isinstance(a, pd.Series):
        wrap = a
        a = a.to_numpy(dtype=object)
        if isinstance(b, pd.Series):
            b = b.to_numpy(dtype=object)
    aa, bb = np.broadcast_arrays(
        np.asarray(_obj(a), dtype=object), np.asarray(_obj(b), dtype=object))
    out = np.empty(aa.shape, dtype=object)
    for idx in itertools.product(*map(range, aa.shape)):
        out[idx] = f(aa[idx], bb[idx])
    if wrap is not None:
        return pd.Series(out, index=wrap.index, name=wrap.name)
    return out


SYMNP = SymNp()
