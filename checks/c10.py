"""C10  Damage quantities: every block counted once, in its damage state."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.harness import harness
from engine.models import (
    demand_spec, frame, make_assessment, params_table, set_assets, set_demands)

MC = {'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0},
      'NonDirectionalMultipliers': {'ALL': 1.0}}
NAMES = ['cmp', 'loc', 'dir', 'uid', 'block']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


PG = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0'), ('c.2', '1', '2', 'x')]


@harness('performance groups of 1-2 blocks, 1-2 realizations, every block in '
         'any state 0-2 (also groups differing in uid only), whole groups possibly not evaluated; symbolic '
         'quantities; zero state kept or dropped',
         [{'blocks': b, 'n': n, 'given': g, 'drop': d, 'twins': t}
          for b, n, g, t in (((2,), 2, True, False), ((2, 1), 1, True, False),
                             ((1, 1), 1, False, False),
                             ((1, 1, 1), 1, True, False),
                             ((1, 2), 1, True, True))
          for d in (False, True)],
         must_reach=('quantity in state', 'total conserved', 'not evaluated'))
def quantities(ctx, blocks, n, given, drop, twins):
    a = make_assessment(ctx)
    pgs = [PG[0], (*PG[0][:3], 'x')] if twins else PG[:len(blocks)]
    q = [[ctx.real(f'q{i}{j}', 0, 100) for j in range(len(pgs))] for i in range(n)]
    set_assets(ctx, a, pgs, q, blocks if given else None)
    cols, ds = [], {}
    for j, (pg, nb) in enumerate(zip(pgs, blocks)):
        na = [ctx.flag(f'na{i}{j}') for i in range(n)]
        for b in range(1, nb + 1):
            c = (*pg, str(b))
            cols.append(c)
            ds[c] = [-1 if na[i] else ctx.choice(f's{i}{j}{b}', [0, 1, 2])
                     for i in range(n)]
    if drop and all(x in (0, -1) for v in ds.values() for x in v):
        return  # nothing to report
    if all(x == -1 for v in ds.values() for x in v):
        return
    a.damage.ds_model.ds_sample = pd.DataFrame(
        ds, columns=pd.MultiIndex.from_tuples(cols, names=NAMES))
    out = quiet(a.damage.ds_model.prepare_dmg_quantities, a.asset.cmp_sample,
                a.asset.cmp_marginal_params, dropzero=drop)
    ctx.check(out.shape[0] == n and list(out.columns.names)
              == ['cmp', 'loc', 'dir', 'uid', 'ds'], 'layout')
    for j, (pg, nb) in enumerate(zip(pgs, blocks)):
        mine = [ds[*pg, str(b)] for b in range(1, nb + 1)]
        states = {x for m in mine for x in m} - {-1} - ({0} if drop else set())
        have = {c[4] for c in out.columns if c[:4] == pg}
        ctx.check(have == {str(x) for x in states}, 'states reported')
        for i in range(n):
            if mine[0][i] == -1:
                for x in states:
                    v = out[(*pg, str(x))].iloc[i]
                    # not evaluated: no number, never a damaged quantity
                    ctx.check(pd.isna(v) or bool(v == 0), 'not evaluated')
                ctx.reach('not evaluated')
                continue
            tot = 0
            for x in states:
                v = out[(*pg, str(x))].iloc[i]
                cnt = sum(m[i] == x for m in mine)
                v = 0 if pd.isna(v) else v
                ctx.eq(v, q[i][j] * cnt / nb, 'quantity in state')
                tot = tot + v
            if drop:
                lost = sum(m[i] == 0 for m in mine)
                tot = tot + q[i][j] * lost / nb
            ctx.eq(tot, q[i][j], 'total conserved')


@harness('3 groups of 2 components with symbolic block counts 1-3 and one '
         'component without parameters; batch sizes 1-4 and 1000; every order '
         'of the groups', must_reach=('every block once', 'batch limit'))
def batches(ctx):
    a = make_assessment(ctx, MC)
    a.damage.ds_model.damage_params = params_table(
        ctx, {'c.1': {'x': 1.0}, 'c.2': {'x': 1.0}})
    nb = [ctx.choice(f'n{i}', [1, 2, 3]) for i in range(3)]
    pgs = [*PG, ('c.0', '1', '1', '0')]
    perm = ctx.choice('order', [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]])
    blk = pd.DataFrame(
        {'Blocks': [([*nb, 2])[k] for k in perm]},
        index=pd.MultiIndex.from_tuples(
            [pgs[k] for k in perm], names=NAMES[:4])).astype('int64')
    size = ctx.choice('size', [1, 2, 3, 4, 1000])
    before = blk.copy()
    out = a.damage.ds_model._get_pg_batches(blk, size, ['c.0'])
    ctx.check(blk.equals(before), 'input untouched')
    got = {k[1:]: int(v) for k, v in out['Blocks'].items()}
    ctx.check(len(out) == 3 and got == dict(zip(PG, nb)), 'every block once')
    for _, g in out.groupby(level=0):
        ctx.check(int(g['Blocks'].sum()) <= size or len(g) == 1, 'batch limit')


@harness('full calculation: 2 components, 3 groups with 1-2 blocks, symbolic '
         'demands, capacities and quantities; batch sizes 1, 2 and 1000; with '
         'and without listing every damage state; one component without '
         'parameters', [{'size': s, 'list_all': l} for s in (1, 2, 1000)
                        for l in (False, True, 'no weights')],
         must_reach=('quantity in state', 'every state listed'))
def full(ctx, size, list_all):
    a = make_assessment(ctx, {**MC, 'ListAllDamageStates': bool(list_all)})
    a.options._rng = Rng(ctx)
    c = [ctx.real(f'c{i}', 0, 10) for i in range(3)]
    rows = {
        'c.1': {**demand_spec(), 'LS1-Family': np.nan, 'LS1-Theta_0': c[0],
                'LS2-Family': np.nan, 'LS2-Theta_0': c[1]},
        'c.2': {**demand_spec(), 'LS1-Family': np.nan, 'LS1-Theta_0': c[2]},
    }
    split = list_all is True
    if list_all != 'no weights':
        rows['c.1'].update({'LS1-DamageStateWeights': np.nan,
                            'LS2-DamageStateWeights': '0.5|0.5' if split else np.nan})
    # the first limit state of c.1 is not below the second one: no draw needed
    pgs = [*PG, ('c.0', '1', '1', '0')]
    blocks = [2, 1, 1, 3]
    q = [ctx.real(f'q{j}', 0, 100) for j in range(4)]
    set_assets(ctx, a, pgs, [q], blocks)
    quiet(a.damage.load_model_parameters, [params_table(ctx, rows)],
          {'c.1', 'c.2', 'c.0'})
    ctx.check(a.damage.missing_components == ['c.0'], 'missing component')
    d = {e: ctx.real(f'd{e[1]}{e[2]}', 0, 10)
         for e in (('PFA', '1', '1'), ('PFA', '2', '1'), ('PFA', '1', '2'))}
    if split:
        ctx.assume(d['PFA', '2', '1'] < c[1])
    set_demands(ctx, a, list(d), [list(d.values())])
    quiet(a.damage.calculate, block_batch_size=size)
    out = a.damage.ds_model.sample
    ctx.check({x[:4] for x in out.columns} == set(PG), 'groups')
    for pg, qj in zip(PG, q):
        dm = d['PFA', pg[1], pg[2]]
        lim = c[:2] if pg[0] == 'c.1' else c[2:]
        hit = [k for k, x in enumerate(lim) if bool(dm > x)]
        state = hit[-1] + 1 if hit else 0
        mine = {x[4]: out[x].iloc[0] for x in out.columns if x[:4] == pg}
        if list_all:
            want = {'0', '1', '2', '3'} if split else {'0', '1', '2'}
            want = want if pg[0] == 'c.1' else {'0', '1'}
            ctx.check(set(mine) == want, 'every state listed')
            # state 2 is split in two
            if state == 2 and split:
                mine['2'] = mine['2'] + mine.pop('3')
        ctx.reach('every state listed')
        for x, v in mine.items():
            ctx.eq(v, qj if int(x) == state else 0.0, 'quantity in state')
        ctx.check(str(state) in mine, 'quantity in state')


@harness('2 blocks x 3 realizations, any states -1..2',
         must_reach=('relative frequency', 'never evaluated'))
def probabilities(ctx):
    a = make_assessment(ctx)
    cols = [(*PG[0], '1'), (*PG[1], '1')]
    v = [[ctx.choice(f's{i}{j}', [-1, 0, 1, 2]) for j in range(2)]
         for i in range(2)]
    v.append([ctx.choice('s2', [-1, 2]), v[0][1]])
    a.damage.ds_model.ds_sample = pd.DataFrame(
        v, columns=pd.MultiIndex.from_tuples(cols, names=NAMES))
    p = a.damage.ds_model.probabilities()
    ctx.check({tuple(x) for x in p.index} == set(cols), 'rows')
    for j, c in enumerate(cols):
        seen = [r[j] for r in v if r[j] != -1]
        for s in (0, 1, 2):
            x = p.loc[c, s] if s in p.columns else np.nan
            if not seen:
                ctx.check(pd.isna(x), 'never evaluated')
            elif s in seen:
                ctx.check(abs(x - seen.count(s) / len(seen)) < 1e-12,
                          'relative frequency')
            else:
                ctx.check(pd.isna(x) or x == 0, 'relative frequency')
        ctx.check(-1 not in p.columns, 'rows')
