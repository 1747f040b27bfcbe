"""C25  The probability of a box of correlated variables."""

import itertools
import math

import numpy as np
import scipy.stats as st

from engine.dists import Rng, patch_uq
from engine.funcs import NORM
from engine.harness import assume_note, harness
from engine.shim import SymArray, obj_array

assume_note(
    'Genz\'s integration routine (mvndst, compiled) is trusted: the box, the '
    'open sides and the correlations it is called with are decided; norm.cdf/ppf '
    'are uninterpreted strictly increasing inverse functions')


def arr(ctx, values):
    return obj_array(values).view(SymArray) if ctx.symbolic else np.array(values, dtype=float)


def integrator(ctx, uq):
    calls = []

    def mvndst(lower, upper, infin, correl):
        lower, upper, infin, correl = (
            np.atleast_1d(v) for v in (lower, upper, infin, correl))
        n = len(infin)
        ctx.check(len(lower) == len(upper) == n, 'dimensions')
        ctx.check(len(correl) == max(1, n * (n - 1) // 2), 'dimensions')
        value = ctx.real(f'p{len(calls)}', 0, 1)
        box = []
        for a, b, i in zip(lower, upper, infin):
            ctx.check(i in {-1, 0, 1, 2}, 'dimensions')
            box.append((a if i in {1, 2} else None, b if i in {0, 2} else None))
            # the routine returns NaN for a side that is bounded by infinity
            ctx.check(not any(isinstance(v, float) and not math.isfinite(v)
                              for v in box[-1]), 'limits')
        rho, k = {}, 0
        for i in range(n):
            for j in range(i):
                rho[j, i] = rho[i, j] = correl[k]
                k += 1
        calls.append((box, rho, value))
        return 1e-7, value, 0

    ctx.patch(uq, 'mvndst', mvndst)
    return calls


def same(ctx, got, want, label):
    if want is None:
        ctx.check(got is None, label)
    else:
        ctx.check(got is not None, label)
        if got is not None:
            ctx.eq(got, want, label)


KINDS = ('none', 'low', 'high', 'both')


@harness('1-4 dimensions, symbolic means, standard deviations, correlations and '
         'limits, every combination of bounded and open sides (NaN or infinite); '
         'numbers or arrays in one dimension',
         [{'n': n} for n in (1, 2, 3, 4)],
         must_reach=('limits', 'probability'))
def density(ctx, n):
    uq = patch_uq(ctx)
    calls = integrator(ctx, uq)
    mu = [ctx.real(f'mu{i}', -5, 5) for i in range(n)]
    sd = [ctx.real(f'sd{i}', 0.1, 5) for i in range(n)]
    r = {(i, j): ctx.real(f'r{i}{j}', -0.9, 0.9)
         for i in range(n) for j in range(i)}
    cov = np.array([[sd[i] * sd[j] * (1 if i == j else r[max(i, j), min(i, j)])
                     for i in range(n)] for j in range(n)],
                   dtype=object if ctx.symbolic else float)
    open_ = ctx.choice('open', [math.nan, math.inf])
    kinds = [ctx.choice(f'side{i}', KINDS) for i in range(n)]
    if n >= 3:
        ctx.assume(kinds[0] != 'none' or kinds[1] == 'low')
    if n == 4:
        ctx.assume(kinds[2] == kinds[0] and kinds[3] == 'both')
    lo = [ctx.real(f'a{i}', -9, 0) if k in {'low', 'both'} else -open_
          for i, k in enumerate(kinds)]
    hi = [ctx.real(f'b{i}', 0, 9) if k in {'high', 'both'} else open_
          for i, k in enumerate(kinds)]
    if n == 1 and ctx.flag('numbers'):
        args = (mu[0], sd[0] ** 2, lo[0], hi[0])
    else:
        args = (arr(ctx, mu), cov, arr(ctx, lo), arr(ctx, hi))
    alpha, _ = uq.mvn_orthotope_density(*args)
    ctx.check(len(calls) == 1, 'probability')
    box, rho, value = calls[0]
    ctx.eq(alpha, value, 'probability')
    for i in range(n):
        for k, side in ((0, lo), (1, hi)):
            want = (None if isinstance(side[i], float)
                    and not math.isfinite(side[i]) else
                    (side[i] - mu[i]) / sd[i])
            same(ctx, box[i][k], want, 'limits')
        for j in range(i):
            ctx.eq(rho[i, j], r[i, j], 'correlation')


def variables(ctx, uq):
    """A normal, a lognormal and a uniform variable and their quantile scores."""
    cdf, ppf = ((NORM.cdf, NORM.ppf) if ctx.symbolic
                else (st.norm.cdf, st.norm.ppf))
    log = uq.np.log
    m, s = ctx.real('m', 1, 5), ctx.real('s', 0.5, 2)
    t = ctx.real('t', 0, 1)
    med, b = ctx.real('med', 1, 5), ctx.real('beta', 0.1, 0.6)
    w = ctx.real('w', 1, 5)
    rvs = {
        'N': uq.rv_class_map('normal_std')(
            'N', theta=arr(ctx, [m, s]), truncation_limits=arr(ctx, [math.nan, m + t])),
        'L': uq.rv_class_map('lognormal')('L', theta=arr(ctx, [med, b])),
        'U': uq.rv_class_map('uniform')('U', theta=arr(ctx, [0.0, w]))}

    def score(name, x):
        if name == 'N':
            return ppf(cdf((x - m) / s) / cdf(t / s))
        if name == 'L':
            return ppf(cdf((log(x) - log(med)) / b))
        return ppf(x / w)

    def point(name, k):
        # lower and upper limits within the range of the variable
        f = ctx.real(f'x{name}{k}', 0.1, 0.5) if k == 0 else ctx.real(
            f'x{name}{k}', 0.5, 0.9)
        if name == 'N':
            return m - (1 - f) * s
        if name == 'L':
            return med * (0.5 + f)
        return w * f

    return rvs, score, point


@harness('sets of 3 variables (truncated normal, lognormal, uniform) in two '
         'orders; symbolic parameters, correlations and limits; all or any '
         'ordered subset of them; sides open or bounded',
         [{'order': o, 'sub': s} for o in ('NLU', 'ULN')
          for s in (None, 'N', 'UN', 'NU', 'LUN', 'NLU')],
         must_reach=('limits', 'probability', 'correlation'))
def set_box(ctx, order, sub):
    uq = patch_uq(ctx)
    rvs, score, point = variables(ctx, uq)
    r = {frozenset(p): ctx.real('r' + ''.join(p), -0.4, 0.4)
         for p in itertools.combinations('LNU', 2)}
    rho = np.array([[1.0 if a == b else r[frozenset((a, b))] for b in order]
                    for a in order], dtype=object if ctx.symbolic else float)
    s = uq.RandomVariableSet('S', [rvs[n] for n in order], rho)
    names = list(sub) if sub else list(s.RV)
    ctx.check(sorted(s.RV) == ['L', 'N', 'U'], 'correlation')
    calls = integrator(ctx, uq)
    kinds = [ctx.choice(f'side{n}', KINDS) for n in names]
    if len(names) == 3:
        ctx.assume(kinds[1] in {'high', 'both'})
    if all(k == 'none' for k in kinds):
        got = s.orthotope_density(*[arr(ctx, [math.nan] * len(names)).reshape(-1, 1)] * 2,
                                  sub and list(sub))
        ctx.check(list(got) == [1.0], 'probability')
        return
    side = [[point(n, k) if kind in {('low', 'high')[k], 'both'} else math.nan
             for n, kind in zip(names, kinds)] for k in (0, 1)]
    got = s.orthotope_density(*[arr(ctx, v).reshape(-1, 1) for v in side],
                              sub and list(sub))
    ctx.check(len(calls) == len(got) == 1, 'probability')
    box, corr, value = calls[0]
    ctx.eq(got[0], value, 'probability')
    ctx.check(len(box) == len(names), 'limits')
    for i, n in enumerate(names):
        for k in (0, 1):
            x = side[k][i]
            same(ctx, box[i][k], None if isinstance(x, float) and math.isnan(x)
                 else score(n, x), 'limits')
        for j in range(i):
            ctx.eq(corr[i, j], r[frozenset((n, names[j]))], 'correlation')


@harness('limits of a set of 2 variables given as a list, as described in the '
         'documentation of the function', must_reach=())
def set_box_list(ctx):
    uq = patch_uq(ctx)
    cls = uq.rv_class_map('uniform')
    w = ctx.real('w', 1, 5)
    s = uq.RandomVariableSet(
        'S', [cls(n, theta=arr(ctx, [0.0, w])) for n in 'AB'], np.eye(2))
    calls = integrator(ctx, uq)
    x = [ctx.real(f'x{i}', 0.2, 0.8) * w for i in range(2)]
    got = s.orthotope_density(arr(ctx, [math.nan] * 2), arr(ctx, x))
    ok = len(calls) == 1 and np.size(got) == 1
    ctx.check(ok, 'one probability for a list of limits')
    if ok:
        ppf = NORM.ppf if ctx.symbolic else st.norm.ppf
        for i in range(2):
            same(ctx, calls[0][0][i][1], ppf(x[i] / w), 'limits')
