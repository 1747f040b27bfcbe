"""C01  Sampled variables follow exactly the (truncated) distribution asked for."""

import numpy as np
import scipy.stats as st

from engine.dists import patch_uq
from engine.funcs import NORM
from engine.harness import assume_note, harness
from engine.shim import obj_array
from engine.sym import Sym

assume_note(
    'norm.cdf/ppf: uninterpreted strictly increasing bijection R<->(0,1) with '
    'Phi(0)=1/2; weibull_min: uninterpreted increasing kernel on (0,inf); '
    'uniform: exact; exp/log: uninterpreted with monotonicity and inverse axioms',
    'uniform samples lie in the open interval (0,1)',
    'truncation limits keep a probability mass of at least 0.001 (pelicun '
    'rejects a vanishing mass)',
)


def arr(ctx, values):
    return obj_array(values) if ctx.symbolic else np.array(values, dtype=float)


# --- the oracle: textbook distributions -----------------------------------------
def base(ctx, fam, th, uq):
    """(cdf, inverse cdf, lower end of support) of the untruncated family."""
    if fam in {'normal_std', 'normal_cov', 'normal'}:
        mu = th[0]
        s = th[1] if fam == 'normal_std' else th[1] * abs(th[0])
        if ctx.symbolic:
            return (lambda x: NORM.cdf((x - mu) / s),
                    lambda p: mu + s * NORM.ppf(p), None)
        return (lambda x: st.norm.cdf((x - mu) / s),
                lambda p: mu + s * st.norm.ppf(p), None)
    if fam == 'lognormal':
        m, b = th
        if ctx.symbolic:
            from engine.funcs import exp, log

            return (lambda x: NORM.cdf((log(x) - log(m)) / b),
                    lambda p: exp(log(m) + b * NORM.ppf(p)), 0.0)
        return (lambda x: st.norm.cdf(np.log(x / m) / b),
                lambda p: m * np.exp(b * st.norm.ppf(p)), 0.0)
    if fam == 'weibull':
        lam, k = th
        if ctx.symbolic:
            w = uq.weibull_min.kernel(k)
            return (lambda x: w.cdf(x / lam), lambda p: lam * w.ppf(p), 0.0)
        return (lambda x: 1 - np.exp(-((x / lam) ** k)),
                lambda p: lam * (-np.log(1 - p)) ** (1 / k), 0.0)
    if fam == 'uniform':
        a, b = th
        return (lambda x: (x - a) / (b - a), lambda p: a + p * (b - a), a)
    raise AssertionError(fam)


def theta_for(ctx, fam, tag=''):
    if fam in {'normal_cov', 'normal'}:
        neg = ctx.flag('neg_mean' + tag)
        m = ctx.real('mean' + tag, 0.5, 20)
        c = ctx.real('cov' + tag, 0.05, 2)
        return [-m if neg else m, c]
    if fam == 'normal_std':
        return [ctx.real('mean' + tag, -20, 20), ctx.real('std' + tag, 0.1, 5)]
    if fam == 'lognormal':
        return [ctx.real('median' + tag, 0.1, 20), ctx.real('beta' + tag, 0.1, 2)]
    if fam == 'weibull':
        return [ctx.real('scale' + tag, 0.1, 10), 1.5]
    if fam == 'uniform':
        a = ctx.real('a' + tag, -10, 10)
        w = ctx.real('w' + tag, 0.5, 10)
        return [a, a + w]
    raise AssertionError(fam)


def limits_for(ctx, fam, th, cfg):
    """Truncation limits; the returned pair holds NaN for a missing limit."""
    lo = hi = float('nan')
    if fam in {'normal_std', 'normal_cov', 'normal'}:
        s = th[1] if fam == 'normal_std' else th[1] * abs(th[0])
        z0 = ctx.real('za', -3, 2.5)
        z1 = ctx.real('zb', -2.5, 3)
        ctx.assume(z1 - z0 >= 0.1)
        lo, hi = th[0] + s * z0, th[0] + s * z1
    elif fam in {'lognormal', 'weibull'}:
        z0 = ctx.real('ra', -1.0, 1.5)  # a limit at or below zero is legal
        z1 = ctx.real('rb', 0.2, 3)
        ctx.assume(z1 - z0 >= 0.2)
        lo, hi = th[0] * z0, th[0] * z1
    elif fam == 'uniform':
        w = th[1] - th[0]
        z0 = ctx.real('ra', -1.0, 0.8)
        z1 = ctx.real('rb', 0.2, 2)
        ctx.assume(z1 - z0 >= 0.1)
        lo, hi = th[0] + w * z0, th[0] + w * z1
    return (lo if 'a' in cfg else float('nan'), hi if 'b' in cfg else float('nan'))


def nan(x):
    return not isinstance(x, Sym) and x != x


def setup(ctx, fam, cfg, n=1):
    uq = patch_uq(ctx)
    cls = uq.rv_class_map(fam)
    th = theta_for(ctx, fam)
    lim = limits_for(ctx, fam, th, cfg)
    kw = {}
    if cfg:
        kw['truncation_limits'] = arr(ctx, lim)
    rv = cls('X', theta=arr(ctx, th), **kw)
    G, Gi, supp = base(ctx, fam, th, uq)
    a, b = lim
    if supp is not None and not nan(a):
        a = uq.np.maximum(a, supp)
    if fam == 'uniform':
        a = th[0] if nan(a) else a
        b = th[1] if nan(b) else uq.np.minimum(b, th[1])
        ga, gb = G(a), G(b)
    else:
        if supp is not None and not nan(a) and bool(a <= supp):
            a = float('nan')
        ga = 0.0 if nan(a) else G(a)
        gb = 1.0 if nan(b) else G(b)
    ctx.assume(gb - ga >= 0.001)
    return rv, G, Gi, a, b, ga, gb


FAMS = ['normal_cov', 'normal_std', 'lognormal', 'uniform', 'weibull', 'normal']
CFGS = ['', 'a', 'b', 'ab']
GRID = [{'fam': f, 'cfg': c} for f in FAMS for c in CFGS]


@harness('1 uniform value, symbolic parameters and truncation limits', GRID,
         must_reach=('quantile',))
def quantile(ctx, fam, cfg):
    rv, G, Gi, a, b, ga, gb = setup(ctx, fam, cfg)
    u = ctx.real('u', 0, 1, True, True)
    uni = arr(ctx, [u])
    rv.uni_sample = uni
    rv.inverse_transform_sampling()
    ctx.check(len(rv.sample) == 1, 'size')
    x = rv.sample[0]
    ctx.eq(x, Gi(ga + u * (gb - ga)), 'quantile')
    ctx.eq(uni[0], u, 'uniform sample untouched')
    tol = 0 if ctx.symbolic else 1e-6 * (1 + abs(x))
    if not nan(a):
        ctx.check(x >= a - tol, 'within lower limit')
    if not nan(b):
        ctx.check(x <= b + tol, 'within upper limit')


@harness('1 value anywhere on the real line', GRID, must_reach=('cdf',))
def cdf(ctx, fam, cfg):
    rv, G, Gi, a, b, ga, gb = setup(ctx, fam, cfg)
    x = ctx.real('x', -60, 60)
    if fam in {'lognormal', 'weibull'}:
        ctx.assume((x <= 0) | (x >= 1e-6) if ctx.symbolic
                   else x <= 0 or x >= 1e-6)
    got = rv.cdf(arr(ctx, [x]))[0]
    if not nan(a) and bool(x <= a):
        want = 0.0
    elif not nan(b) and bool(x >= b):
        want = 1.0
    elif fam in {'lognormal', 'weibull'} and bool(x <= 0):
        want = 0.0
    else:
        want = (G(x) - ga) / (gb - ga)
    ctx.eq(got, want, 'cdf')


@harness('2 samples with their own parameters (theta as a matrix)',
         [{'fam': f, 'cfg': c} for f in ('normal_std', 'lognormal')
          for c in ('', 'ab')], must_reach=('row quantile',))
def varying_theta(ctx, fam, cfg):
    uq = patch_uq(ctx)
    cls = {'normal_std': uq.NormalRandomVariable,
           'lognormal': uq.LogNormalRandomVariable}[fam]
    ths = [theta_for(ctx, fam, str(i)) for i in range(2)]
    kw = {}
    lo = hi = float('nan')
    if cfg:
        lo, hi = limits_for(ctx, fam, ths[0], cfg)
        kw['truncation_limits'] = arr(ctx, [lo, hi])
    flat = arr(ctx, [v for t in ths for v in t]).reshape(2, 2)
    rv = cls('X', theta=flat, **kw)
    mass = []
    for t in ths:
        G, Gi, supp = base(ctx, fam, t, uq)
        low = nan(lo) or (supp is not None and bool(lo <= supp))
        mass.append((0.0 if low else G(lo), 1.0 if nan(hi) else G(hi), Gi))
        ctx.assume(mass[-1][1] - mass[-1][0] >= 0.001)
    u = [ctx.real(f'u{i}', 0, 1, True, True) for i in range(2)]
    x = rv.inverse_transform(arr(ctx, u))
    for i, (ga, gb, Gi) in enumerate(mass):
        ctx.eq(x[i], Gi(ga + u[i] * (gb - ga)), f'row quantile[{i}]')


@harness('piecewise linear CDF with 2-4 points', [{'n': n} for n in (2, 3, 4)],
         must_reach=('linear quantile',))
def multilinear(ctx, n):
    uq = patch_uq(ctx)
    x = [ctx.real('x0', -10, 10)]
    y = [0.0]
    for i in range(1, n):
        x.append(x[-1] + ctx.real(f'dx{i}', 0.1, 5))
        y.append(1.0 if i == n - 1 else y[-1] + ctx.real(f'dy{i}', 0.05, 0.4))
    if n > 2:
        ctx.assume(y[-2] <= 0.95)
    th = arr(ctx, [v for p in zip(x, y) for v in p]).reshape(n, 2)
    rv = uq.rv_class_map('multilinear_CDF')('X', theta=th)
    u = ctx.real('u', 0, 1, True, True)
    got = rv.inverse_transform(arr(ctx, [u]))[0]
    want = None
    for i in range(n - 1):
        if i == n - 2 or bool(u < y[i + 1]):
            want = x[i] + (x[i + 1] - x[i]) * (u - y[i]) / (y[i + 1] - y[i])
            break
    ctx.eq(got, want, 'linear quantile')
    v = ctx.real('v', -30, 30)
    got = rv.cdf(arr(ctx, [v]))[0]
    if bool(v <= x[0]):
        want = 0.0
    elif bool(v >= x[-1]):
        want = 1.0
    else:
        for i in range(n - 1):
            if bool(v < x[i + 1]):
                want = y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])
                break
    ctx.eq(got, want, 'linear cdf')


@harness('3 CDF points, any order', must_reach=('accepted', 'rejected'))
def multilinear_validity(ctx):
    """Invalid piecewise linear CDFs are rejected, valid ones accepted."""
    uq = patch_uq(ctx)
    x = [ctx.real(f'x{i}', -5, 5) for i in range(3)]
    y = [ctx.real(f'y{i}', -1, 2) for i in range(3)]
    for p in (x, y):  # keep clear of the 'equal up to rounding' band
        for i in range(2):
            d = p[i + 1] - p[i]
            ctx.assume((d > 0.001) | (d <= 0) if ctx.symbolic
                       else (d > 0.001) or d <= 0)
    ok = (y[0] == 0) & (y[2] == 1) & (x[0] < x[1]) & (x[1] < x[2]) & (
        y[0] < y[1]) & (y[1] < y[2])
    th = arr(ctx, [v for p in zip(x, y) for v in p]).reshape(3, 2)
    try:
        uq.rv_class_map('multilinear_CDF')('X', theta=th)
    except ValueError:
        ctx.check(~ok if not isinstance(ok, bool) else not ok, 'rejected')
    else:
        ctx.check(ok, 'accepted')
