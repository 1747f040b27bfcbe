"""
Stand-ins for scipy.stats distributions used by pelicun (symbolic mode only).

norm      -> uninterpreted strictly increasing cdf Phi with inverse
weibull   -> uninterpreted increasing kernel W on (0, inf) of (x/scale, shape)
uniform   -> exact piecewise linear
Contract used: what scipy documents (loc/scale handling, support, limits).
"""

from __future__ import annotations

import numpy as np
import pandas as pd
import z3

from . import sym as S
from .funcs import NORM, npdf, ratio, Kernel, apply_uf, R, _app
from .shim import SYMNP, _bin, _elem, obj_array
from .sym import Sym, mk, real_term


def _any_sym(*xs):
    from .shim import _needs

    return any(_needs(x) for x in xs)


def _vec(f, *args):
    """Broadcasting elementwise application over object arrays."""
    if not any(hasattr(a, '__len__') for a in args):
        return f(*args)
    arrs = np.broadcast_arrays(
        *[np.asarray(a if hasattr(a, '__len__') else obj_array([a]), dtype=object)
          for a in args])
    out = np.empty(arrs[0].shape, dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = f(*[a[idx] for a in arrs])
    return out


class SymNorm:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def cdf(self, x, loc=0.0, scale=1.0):
        if not _any_sym(x, loc, scale):
            return self._real.cdf(x, loc=loc, scale=scale)

        def one(x, m, s):
            if bool(s <= 0):
                return float('nan')
            return NORM.cdf(ratio(x - m, s))

        return _vec(one, x, loc, scale)

    def ppf(self, p, loc=0.0, scale=1.0):
        if not _any_sym(p, loc, scale):
            return self._real.ppf(p, loc=loc, scale=scale)

        def one(p, m, s):
            if bool(s <= 0):
                return float('nan')
            return NORM.ppf(p) * s + m

        return _vec(one, p, loc, scale)

    def pdf(self, x, loc=0.0, scale=1.0):
        if not _any_sym(x, loc, scale):
            return self._real.pdf(x, loc=loc, scale=scale)

        def one(x, m, s):
            if bool(s <= 0):
                return float('nan')
            return npdf(ratio(x - m, s)) / s

        return _vec(one, x, loc, scale)

    def sf(self, x, loc=0.0, scale=1.0):
        return 1.0 - self.cdf(x, loc, scale)


class SymUniform:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def cdf(self, x, loc=0.0, scale=1.0):
        def one(x, a, s):
            if S.is_nan(s) or bool(s <= 0):
                return float('nan')
            if bool(x <= a):
                return 0.0
            if bool(x >= a + s):
                return 1.0
            return (x - a) / s

        return _vec(one, x, loc, scale)

    def ppf(self, p, loc=0.0, scale=1.0):
        def one(p, a, s):
            if S.is_nan(s) or bool(s <= 0) or bool(p < 0) or bool(p > 1):
                return float('nan')
            return a + p * s

        return _vec(one, p, loc, scale)


class SymWeibull:
    """weibull_min(c): cdf(x) = W(x/scale; c), one kernel per shape term."""

    def __init__(self, real):
        self._real = real
        self.kernels = {}

    def __getattr__(self, n):
        return getattr(self._real, n)

    def kernel(self, c):
        key = str(c.t) if isinstance(c, Sym) else repr(float(c))
        if key not in self.kernels:
            self.kernels[key] = Kernel(
                f'weib{len(self.kernels)}_', support='positive')
        return self.kernels[key]

    def cdf(self, x, c, loc=0.0, scale=1.0):
        def one(x, c, m, s):
            if bool(s <= 0):
                return float('nan')
            return self.kernel(c).cdf((x - m) / s)

        return _vec(one, x, c, loc, scale)

    def ppf(self, p, c, loc=0.0, scale=1.0):
        def one(p, c, m, s):
            if bool(s <= 0):
                return float('nan')
            return self.kernel(c).ppf(p) * s + m

        return _vec(one, p, c, loc, scale)


def sym_cholesky_scipy(a, lower=False, **k):
    L = SYMNP.linalg.cholesky(a) if _any_sym(a) else None
    if L is None:
        from scipy.linalg import cholesky

        return cholesky(a, lower=lower, **k)
    return L if lower else L.T


class Rng:
    """
    Random generator stub: every call returns arbitrary values of the
    documented type (uniforms in the open interval (0, 1), any permutation).
    """

    def __init__(self, ctx, name='u', replay=None):
        self.ctx, self.name, self.n = ctx, name, 0
        self.calls = []
        self.lim = (0, 1)
        # with `replay`, the draws of another generator are handed out again
        self.replay, self.memo = replay, {}

    def _memo(self, nm, gen):
        if self.replay is not None and nm in self.replay.memo:
            return self.replay.memo[nm]
        self.memo[nm] = v = gen()
        return v

    def _next(self, kind):
        self.n += 1
        return f'{self.name}{self.n}_{kind}'

    def random(self, size=None, **k):
        nm = self._next('random')
        self.calls.append(('random', size))
        if size is None:
            return self._memo(
                nm, lambda: self.ctx.real(nm, *self.lim, True, True))
        shape = tuple(np.atleast_1d(size).tolist())
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            t = nm + '_'.join(map(str, idx))
            out[idx] = self._memo(
                t, lambda t=t: self.ctx.real(t, *self.lim, True, True))
        return out if self.ctx.symbolic else out.astype(float)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + self.random(size) * (high - low)

    def permutation(self, n):
        self.calls.append(('permutation', n))
        if isinstance(n, (int, np.integer)):
            nm = self._next('perm')
            return np.array(
                self._memo(nm, lambda: self.ctx.perm(nm, int(n))))
        a = np.asarray(n)
        nm = self._next('perm')
        return a[self._memo(nm, lambda: self.ctx.perm(nm, len(a)))]

    def choice(self, a, size=None, replace=True, p=None, **k):
        nm = self._next('choice')
        self.calls.append(('choice', size))
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return opts[self._memo(
                nm, lambda: self.ctx.choice(nm, list(range(len(opts)))))]
        shape = tuple(np.atleast_1d(size).tolist())
        n = int(np.prod(shape))
        if not replace:
            pm = self._memo(nm, lambda: self.ctx.perm(nm, len(opts)))[:n]
            return np.array([opts[i] for i in pm]).reshape(shape)
        ix = [self._memo(f'{nm}{i}', lambda i=i: self.ctx.choice(
            f'{nm}{i}', list(range(len(opts))))) for i in range(n)]
        return np.array([opts[i] for i in ix]).reshape(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        nm = self._next('normal')
        self.calls.append(('normal', size))

        def one(t):
            return self._memo(t, lambda: self.ctx.real(t, -4, 4))

        if size is None:
            return loc + scale * one(nm)
        shape = tuple(np.atleast_1d(size).tolist())
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = one(nm + '_'.join(map(str, idx)))
        out = out if self.ctx.symbolic else out.astype(float)
        return loc + scale * out

    def integers(self, low, high=None, size=None, **k):
        nm = self._next('int')
        if high is None:
            low, high = 0, low
        if size is None:
            return self.ctx.int(nm, low, high - 1)
        shape = tuple(np.atleast_1d(size).tolist())
        n = int(np.prod(shape))
        return np.array(
            [int(self.ctx.int(f'{nm}{i}', low, high - 1)) for i in range(n)]
        ).reshape(shape)


def patch_uq(ctx):
    """Make pelicun.uq run on symbols (no effect in concrete mode)."""
    import pelicun.uq as uq

    ctx.symnp(uq)
    if ctx.symbolic:
        ctx.patch(uq, 'norm', SymNorm(uq.norm))
        ctx.patch(uq, 'uniform', SymUniform(uq.uniform))
        ctx.patch(uq, 'weibull_min', SymWeibull(uq.weibull_min))
        ctx.patch(uq, 'cholesky', sym_cholesky_scipy)
    return uq
