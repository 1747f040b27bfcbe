"""C09  A block is in the damage state of its highest exceeded limit state."""

import contextlib
import io

import numpy as np
import pandas as pd
import scipy.stats as st

from engine.dists import Rng
from engine.funcs import NORM, exp, log
from engine.harness import assume_note, harness
from engine.sym import sor
from engine.models import (
    demand_spec, make_assessment, params_table, set_assets, set_demands)

assume_note('Monte Carlo sampling with an arbitrary random generator; capacity '
            'samples are read from DamageModel_DS._generate_dmg_sample')

MC = {'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0},
      'NonDirectionalMultipliers': {'ALL': 1.0}}


def load(ctx, a, rows, cmps):
    with contextlib.redirect_stdout(io.StringIO()):
        a.damage.load_model_parameters([params_table(ctx, rows)], set(cmps))


def calc(a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        a.damage.calculate(**k)
    return a.damage.ds_model.ds_sample


@harness('2 components: 3 limit states (the middle one split into 2 states with '
         'symbolic weights) and 1 limit state; any order of the capacities; '
         'columns and components in either order; 1 realization, or 2 with 2 limit states',
         [{'n': 1}, {'n': 2}], must_reach=('highest exceeded',))
def states(ctx, n):
    a = make_assessment(ctx, MC)
    rng = a.options._rng = Rng(ctx)
    w = ctx.real('w', 0.01, 0.99)
    nls = 3 if n == 1 else 2
    caps = [ctx.real(f'cap{i}', 0, 10) for i in range(nls)]
    cap2 = ctx.real('capB', 0, 10)
    r1 = demand_spec()
    for i, c in enumerate(caps):
        r1[f'LS{i + 1}-Family'] = np.nan
        r1[f'LS{i + 1}-Theta_0'] = c
        r1[f'LS{i + 1}-DamageStateWeights'] = f'{w} | {1 - w}' if i == 1 else np.nan
    r2 = {**demand_spec(), 'LS1-Family': np.nan, 'LS1-Theta_0': cap2}
    rev = n == 1 and ctx.flag('other order')
    rows = {'c.2': r2, 'c.1': r1} if rev else {'c.1': r1, 'c.2': r2}
    load(ctx, a, rows, rows)
    pgs = [('c.1', '1', '1', '0'), ('c.2', '1', '2', '0')]
    pgs = pgs[::-1] if rev else pgs
    set_assets(ctx, a, pgs, [[1.0, 1.0]] * n)
    d = [[ctx.real(f'd{i}_{j}', 0, 10) for j in range(2)] for i in range(n)]
    set_demands(ctx, a, [('PFA', '1', '1'), ('PFA', '1', '2')], d)
    ds = calc(a)
    ctx.check(ds.shape == (n, 2), 'one column per block')
    for i in range(n):
        got = ds['c.1', '1', '1', '0', '1'].iloc[i]
        exceeded = [k for k, c in enumerate(caps) if bool(d[i][0] > c)]
        hi = exceeded[-1] + 1 if exceeded else 0
        if hi == 2:
            # which of the two states: decided by one draw
            ctx.check(bool(got == 2) or bool(got == 3), 'split state')
            draws = list(rng.memo.values())
            ctx.check(sor(*[(u < w) if got == 2 else (u >= w) for u in draws])
                      if ctx.symbolic else
                      any((u < w) == (got == 2) for u in draws),
                      'split state by weight')
        else:
            ctx.check(got == {0: 0, 1: 1, 3: 4}[hi], 'highest exceeded')
        ctx.check(ds['c.2', '1', '2', '0', '1'].iloc[i]
                  == int(bool(d[i][1] > cap2)), 'highest exceeded')


@harness('one limit state split into 3 states with symbolic weights, one draw',
         must_reach=('split by weight',))
def split(ctx):
    a = make_assessment(ctx, MC)
    ws = [ctx.real(f'w{i}', 0.05, 0.45) for i in range(2)]
    ws.append(1 - ws[0] - ws[1])
    rng = Rng(ctx)
    a.options._rng = rng
    r = {**demand_spec(), 'LS1-Family': np.nan, 'LS1-Theta_0': 1.0,
         'LS1-DamageStateWeights': '|'.join(str(w) for w in ws)}
    load(ctx, a, {'c.1': r}, ['c.1'])
    set_assets(ctx, a, [('c.1', '1', '1', '0')], [[1.0]])
    set_demands(ctx, a, [('PFA', '1', '1')], [[2.0]])
    ds = calc(a).iloc[0, 0]
    # capacities may consume draws of their own: the last one decides the split
    u = list(rng.memo.values())[-1]
    want = 1 if bool(u < ws[0]) else 2 if bool(u < ws[0] + ws[1]) else 3
    ctx.check(ds == want, 'split by weight')


@harness('12 limit states with increasing symbolic capacities; listed in '
         'order', must_reach=('highest exceeded',))
def many_limit_states(ctx):
    a = make_assessment(ctx, MC)
    a.options._rng = Rng(ctx)
    c, d = ctx.real('c', 0.5, 2), ctx.real('d', 0, 30)
    r = demand_spec()
    for i in range(1, 13):
        r[f'LS{i}-Family'] = np.nan
        r[f'LS{i}-Theta_0'] = c * i
    # as read from a parameter table (its columns come sorted by name)
    a.damage.ds_model.damage_params = None
    load(ctx, a, {'c.1': r}, ['c.1'])
    set_assets(ctx, a, [('c.1', '1', '1', '0')], [[1.0]])
    set_demands(ctx, a, [('PFA', '1', '1')], [[d]])
    ds = calc(a).iloc[0, 0]
    want = sum(1 for i in range(1, 13) if bool(d > c * i))
    ctx.check(ds == want, 'highest exceeded')


FAMS = ('lognormal', 'normal_std', 'normal_cov', 'uniform', 'deterministic',
        'multilinear_CDF')


def same(ctx, u, v):
    return ctx.entailed((u == v).t) if ctx.symbolic else abs(u - v) < 1e-9


def quantile(ctx, fam, t, u):
    if fam == 'uniform':
        return t[0] + u * (t[1] - t[0])
    if fam == 'deterministic':
        return t[0]
    if fam == 'multilinear_CDF':
        # points (1,0) (2,0.4) (4,1)
        return 1 + u / 0.4 if bool(u <= 0.4) else 2 + (u - 0.4) * 2 / 0.6
    z = NORM.ppf(u) if ctx.symbolic else st.norm.ppf(u)
    if fam == 'lognormal':
        return exp(log(t[0]) + t[1] * z) if ctx.symbolic else float(
            np.exp(np.log(t[0]) + t[1] * z))
    if fam == 'normal_cov':
        return t[0] * (1 + t[1] * z)
    return t[0] + t[1] * z


@harness('2 groups with 1 and 2 blocks, 2 limit states: uniform, then each '
         'supported family; 2 realizations (1 for the piecewise-linear one); arbitrary draws',
         [{'fam': f} for f in FAMS],
         must_reach=('own draw', 'limit states share the draw'))
def capacities(ctx, fam):
    a = make_assessment(ctx, MC)
    rng = a.options._rng = Rng(ctx)
    t = (ctx.real('t0', 2, 5), ctx.real('t1', 5.5, 9) if fam == 'uniform'
         else ctx.real('t1', 0.1, 0.5))
    lo, hi = ctx.real('lo', 1, 2), ctx.real('hi', 3, 4)
    r = {**demand_spec(), 'LS1-Family': 'uniform', 'LS1-Theta_0': lo,
         'LS1-Theta_1': hi,
         'LS2-Family': np.nan if fam == 'deterministic' else fam}
    if fam == 'multilinear_CDF':
        r['LS2-Theta_0'] = '1,2,4|0,0.4,1'
    else:
        r['LS2-Theta_0'] = t[0]
        r['LS2-Theta_1'] = np.nan if fam == 'deterministic' else t[1]
    load(ctx, a, {'c.1': r}, ['c.1'])
    pgs = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0')]
    pgb = pd.DataFrame({'Blocks': [1, 2]}, index=pd.MultiIndex.from_tuples(
        pgs, names=['cmp', 'loc', 'dir', 'uid']))
    n = 1 if fam == 'multilinear_CDF' else 2
    cap, _ = a.damage.ds_model._generate_dmg_sample(n, pgb)
    free = dict(rng.memo)
    for pg, nb in zip(pgs, (1, 2)):
        for b in range(1, nb + 1):
            for i in range(n):
                u = (cap[(*pg, str(b), '1')].iloc[i] - lo) / (hi - lo)
                match = [k for k, v in free.items() if same(ctx, u, v)]
                ctx.check(bool(match), 'own draw')
                if not match:
                    return
                v = free.pop(match[0])
                ctx.eq(cap[(*pg, str(b), '2')].iloc[i], quantile(ctx, fam, t, v),
                       'limit states share the draw')


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
       '/': lambda x, y: x / y}


@harness('capacity adjustment of a component at one of 2 places: every operation with '
         'any number, for all or single limit states, one for each realization or '
         'one for all; 3 limit states (uniform, then 2 of each family), 2 '
         'realizations, 1 and 2 blocks, arbitrary draws',
         [{'fam': f, 'how': h} for f in ('lognormal', 'normal', 'deterministic')
          for h in ('all', 'one', 'each')] + [{'fam': 'uniform', 'how': 'all'}],
         must_reach=('adjusted capacity',))
def adjusted(ctx, fam, how):
    a = make_assessment(ctx, MC)
    rng = a.options._rng = Rng(ctx)
    t = [(ctx.real(f't{i}', 2, 5), ctx.real('b', 5.5, 9) if fam == 'uniform'
          else ctx.real(f'b{i}', 0.1, 0.5)) for i in range(1 if fam == 'uniform' else 2)]
    lo, hi = ctx.real('lo', 1, 2), ctx.real('hi', 3, 4)
    r = {**demand_spec(), 'LS1-Family': 'uniform', 'LS1-Theta_0': lo,
         'LS1-Theta_1': hi}
    for i, (m, s) in enumerate(t):
        r[f'LS{i + 2}-Family'] = np.nan if fam == 'deterministic' else fam
        r[f'LS{i + 2}-Theta_0'] = m
        r[f'LS{i + 2}-Theta_1'] = np.nan if fam == 'deterministic' else s
    op = [ctx.choice('op', list(OPS))]
    if how != 'all':
        op.append({'+': '*', '-': '/', '*': '-', '/': '+'}[op[0]])
    k = [ctx.real(f'k{i}', 0.5, 1.5) for i in range(len(op))]
    spec = [f'{o}{x}' for o, x in zip(op, k)]
    where = ctx.choice('where', ['1', '2'])
    given = {'all': {'ALL': spec[0]},
             'one': {'LS3': spec[0], **({'LS2': spec[-1]} if where == '2' else {})},
             'each': {ctx.choice('ls', ['ALL', 'LS2', 'LS3']): spec}}[how]
    text = {f'c.1-{where}-1': given}
    load(ctx, a, {'c.1': r}, ['c.1'])
    pgs = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0')]
    pgb = pd.DataFrame({'Blocks': [1, 2]}, index=pd.MultiIndex.from_tuples(
        pgs, names=['cmp', 'loc', 'dir', 'uid']))
    with contextlib.redirect_stdout(io.StringIO()):
        cap, _ = a.damage.ds_model._generate_dmg_sample(2, pgb, text)
    for pg, nb in zip(pgs, (1, 2)):
        for b in range(1, nb + 1):
            for i in range(2):
                u = (cap[(*pg, str(b), '1')].iloc[i] - lo) / (hi - lo)
                v = [v for v in rng.memo.values() if same(ctx, u, v)]
                ctx.check(bool(v), 'own draw')
                if not v:
                    return
                for ls, (m, s) in enumerate(t, 2):
                    key = 'ALL' if 'ALL' in given else f'LS{ls}'
                    if pg[1] == where and key in given and fam != 'uniform':
                        j = i if how == 'each' else spec.index(given[key])
                        m = OPS[op[j]](m, k[j])
                    ctx.eq(cap[(*pg, str(b), str(ls))].iloc[i], quantile(
                        ctx, 'normal_cov' if fam == 'normal' else fam, (m, s), v[0]),
                        'adjusted capacity')
