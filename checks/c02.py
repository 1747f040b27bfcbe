"""C02  Discrete and resampling variables: right outcome for every uniform draw."""

import numpy as np

from engine.dists import patch_uq
from engine.harness import assume_note, harness
from engine.shim import obj_array
from engine.sym import Sym

assume_note('uniform samples lie in the half-open interval [0,1)')


def arr(ctx, values):
    return obj_array(values) if ctx.symbolic else np.array(values, dtype=float)


@harness('2-5 categories with symbolic probabilities, 2 uniform draws',
         [{'k': k} for k in (1, 2, 3)], thorough=[{'k': 4}, {'k': 5}],
         must_reach=('category',))
def multinomial(ctx, k):
    """k given probabilities; outcome k-1 also takes the probability left over."""
    uq = patch_uq(ctx)
    p = [ctx.real(f'p{i}', 0, 1) for i in range(k)]
    tot = 0
    for x in p:
        tot = tot + x
    # pelicun requires sum <= 1 (kept clear of the rounding band around 1)
    ctx.assume(tot <= 0.999)
    rv = uq.rv_class_map('multinomial')('X', theta=arr(ctx, p))
    u = [ctx.real(f'u{i}', 0, 1, hi_open=True) for i in range(2)]
    uni = arr(ctx, u)
    rv.uni_sample = uni
    rv.inverse_transform_sampling()
    s = rv.sample
    ctx.check(len(s) == 2, 'size')
    for i in range(2):
        cum, want = 0, k - 1
        for c in range(k - 1):
            cum = cum + p[c]
            if bool(u[i] < cum):
                want = c
                break
        ctx.eq(s[i], want, f'category[{i}]')
    # the uniform draws may be shared (anchored variables): they must survive
    for i in range(2):
        ctx.eq(uni[i], u[i], f'uniform draw kept[{i}]')
        ctx.eq(rv.uni_sample[i], u[i], f'uniform draw kept[{i}]')


@harness('probabilities that sum to more than one are rejected, 3 categories',
         must_reach=('rejected', 'accepted'))
def multinomial_validity(ctx):
    uq = patch_uq(ctx)
    p = [ctx.real(f'p{i}', 0, 1) for i in range(3)]
    t = p[0] + p[1] + p[2]
    ctx.assume((t <= 0.999) | (t >= 1.001) if ctx.symbolic
               else t <= 0.999 or t >= 1.001)
    try:
        uq.rv_class_map('multinomial')('X', theta=arr(ctx, p))
    except ValueError:
        ctx.check(t > 1, 'rejected')
    else:
        ctx.check(t <= 1, 'accepted')


@harness('1-4 observations, 2 draws', [{'n': n} for n in (1, 2, 3, 4)],
         thorough=[{'n': 7}], must_reach=('observation',))
def empirical(ctx, n):
    uq = patch_uq(ctx)
    obs = [ctx.real(f'x{i}', -10, 10) for i in range(n)]
    rv = uq.rv_class_map('empirical')('X', theta=arr(ctx, obs))
    u = [ctx.real(f'u{i}', 0, 1, hi_open=True) for i in range(2)]
    # keep draws off the (measure zero) edges between observations
    for v in u:
        for j in range(1, n):
            ctx.assume((v * n - j > 1e-6) | (v * n - j < -1e-6) if ctx.symbolic
                       else abs(v * n - j) > 1e-6)
    rv.uni_sample = arr(ctx, u)
    rv.inverse_transform_sampling()
    for i in range(2):
        want = obs[n - 1]
        for j in range(n - 1):
            if bool(u[i] * n < j + 1):
                want = obs[j]
                break
        ctx.eq(rv.sample[i], want, f'observation[{i}]')


@harness('1-4 observations, sample size 1-9 (symbolic)',
         [{'n': n} for n in (1, 2, 3, 4)], must_reach=('cyclic order',))
def coupled(ctx, n):
    """Coupled empirical: the observations are repeated in order."""
    uq = patch_uq(ctx)
    obs = [ctx.real(f'x{i}', -10, 10) for i in range(n)]
    rv = uq.rv_class_map('coupled_empirical')('X', theta=arr(ctx, obs))
    m = int(ctx.int('size', 1, 9))
    rv.inverse_transform_sampling(m)
    ctx.check(len(rv.sample) == m, 'size')
    for i in range(m):
        ctx.eq(rv.sample[i], obs[i % n], 'cyclic order')
    d = ctx.real('value', -10, 10)
    rv = uq.rv_class_map('deterministic')('Y', theta=arr(ctx, [d]))
    rv.inverse_transform_sampling(m)
    ctx.check(len(rv.sample) == m, 'size')
    for i in range(m):
        ctx.eq(rv.sample[i], d, 'constant')


@harness('a mapping applied to 2 samples of a normal variable',
         must_reach=('mapped',))
def mapping(ctx):
    """f_map is applied to the samples, and only on the way out."""
    uq = patch_uq(ctx)
    a = ctx.real('a', -3, 3)
    rv = uq.rv_class_map('uniform')(
        'X', theta=arr(ctx, [0.0, 2.0]), f_map=lambda x: x * x * a + 1)
    u = [ctx.real(f'u{i}', 0, 1, True, True) for i in range(2)]
    rv.uni_sample = arr(ctx, u)
    rv.inverse_transform_sampling()
    for i in range(2):
        ctx.eq(rv.sample[i], (2 * u[i]) * (2 * u[i]) * a + 1, 'mapped')
        ctx.eq(rv.sample[i], rv.sample_DF.iloc[i], 'mapped')
