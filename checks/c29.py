"""C29  With the same seed, the same inputs give the same results in every run."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.harness import assume_note, harness
from engine.models import (
    arr, demand_spec, frame, make_assessment, modules, params_table, patch_grid,
    patch_interp1d,
    set_assets, set_demands, write_table)
from engine.order import Runs

assume_note('what may differ between two runs: the order of every set with text in '
            'it (it follows the hash seed of the process), generators made without '
            'a seed, the global numpy generator, and what an earlier run left behind')

N3 = ['type', 'loc', 'dir']
N4 = ['cmp', 'loc', 'dir', 'uid']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def assessment(ctx, **options):
    a = make_assessment(ctx, {
        'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0},
        'NonDirectionalMultipliers': {'ALL': 1.0}, 'Seed': 7, **options}, stories=2)
    patch_interp1d(ctx)
    return a


def twice(ctx, stage, **options):
    """Both runs get equal inputs; every result has to be the same."""
    runs = Runs(ctx, modules().values())
    one = stage(assessment(ctx, **options))
    runs.again()
    two = stage(assessment(ctx, **options))
    ctx.check(set(one) == set(two), 'same entries')
    for k, v in one.items():
        if k in two:
            if isinstance(v, str):
                ctx.check(v == two[k], 'same result')
            else:
                ctx.eq(v, two[k], 'same result')


def cells(*frames):
    out = {}
    for i, f in enumerate(frames):
        if f is None:
            out[i, None] = 'nothing'
            continue
        ctx_cols = [c if isinstance(c, tuple) else (c,) for c in f.columns]
        for j, c in enumerate(ctx_cols):
            for r, v in zip(f.index, f.iloc[:, j]):
                out[(i, *map(str, c), str(r))] = v
    return out


FAM = {'normal': (4.0, 0.2), 'lognormal': (4.0, 0.3), 'uniform': (2.0, 6.0)}
EDPS = ['PFA-1-1', 'PID-1-1', 'PFA-2-1']


@harness('3 demands of any family, independent, correlated or empirical (2 '
         'observations); 2 realizations; Monte Carlo or Latin hypercube sampling',
         [{'kind': k, 'method': m} for k, m in (
             ('independent', 'MonteCarlo'), ('correlated', 'MonteCarlo'),
             ('empirical', 'MonteCarlo'), ('independent', 'LHS'),
             ('independent', 'LHS_midpoint'), ('coupled', 'MonteCarlo'))],
         must_reach=('same result', 'same entries'))
def demands(ctx, kind, method):
    emp = {'empirical': EDPS[:2], 'coupled': EDPS}.get(kind, [])
    rows = [['g' if e.startswith('PFA') else 'rad',
             'empirical' if e in emp else f, *(FAM[f] if e not in emp else (np.nan,) * 2)]
            for e, f in zip(EDPS, FAM)]
    two = kind == 'independent' and method != 'MonteCarlo'
    m = pd.DataFrame(rows[:2] if two else rows, index=EDPS[:2] if two else EDPS,
                     columns=['Units', 'Family', 'Theta_0', 'Theta_1'])
    model = {'marginals': m}
    if kind == 'correlated':
        rho = ctx.real('rho', -0.4, 0.4)
        model['correlation'] = frame(ctx, [
            [1.0 if x == y else rho for x in EDPS] for y in EDPS],
            index=EDPS, columns=EDPS)
    if emp:
        obs = [[ctx.real(f'o{i}{j}', 0.1, 9) for j in range(len(emp))]
               for i in range(2)]
        model['empirical'] = pd.DataFrame(
            [['g' if e.startswith('PFA') else 'rad' for e in emp], *obs],
            index=['Units', 0, 1], columns=emp, dtype=object)

    def stage(a):
        quiet(a.demand.load_model, {
            k: v.copy() for k, v in model.items()})
        quiet(a.demand.generate_sample, {
            'SampleSize': 2, 'PreserveRawOrder': kind == 'coupled'})
        return cells(a.demand.sample)

    twice(ctx, stage, Sampling={'SamplingMethod': method})


@harness('3 groups of 2-3 components with random quantities of any family; 2 '
         'realizations', must_reach=('same result', 'same entries'))
def assets(ctx):
    f = ctx.perm('family', 3)
    fams = [list(FAM)[i] for i in f]
    same = ctx.flag('component twice')
    m = pd.DataFrame(
        [['ea', str(i + 1), '1', x, *FAM[x]] for i, x in enumerate(fams)],
        index=['c.1', 'c.2', 'c.1' if same else 'c.3'],
        columns=['Units', 'Location', 'Direction', 'Family', 'Theta_0', 'Theta_1'])

    def stage(a):
        quiet(a.asset.load_cmp_model, {'marginals': m.copy()})
        quiet(a.asset.generate_cmp_sample, 2)
        return {**cells(a.asset.cmp_sample),
                'ids': repr(a.asset.list_unique_component_ids())}

    twice(ctx, stage)


@harness('2 components with random capacities (one with 2 limit states, the first '
         'one split in two), at 2 locations; directional or not; a damage process; '
         'symbolic demands and weight; with or without a capacity adjustment',
         [{'scale': s} for s in (False, True)],
         must_reach=('same result', 'same entries'))
def damage(ctx, scale):
    w = ctx.real('w', 0.1, 0.9)
    t = [ctx.real(f't{i}', 1, 5) for i in range(2)]
    rows = {
        'c.1': {**demand_spec(), 'LS1-Family': 'lognormal', 'LS1-Theta_0': t[0],
                'LS1-Theta_1': 0.3, 'LS1-DamageStateWeights': f'{w} | {1 - w}'},
        'c.2': {**demand_spec(directional=0), 'LS1-Family': 'normal',
                'LS1-Theta_0': t[1], 'LS1-Theta_1': 0.2}}
    d = ctx.real('d', 0.5, 8)
    pgs = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0'), ('c.2', '1', '0', '0')]

    def stage(a):
        quiet(a.damage.load_model_parameters, [params_table(ctx, rows)], set(rows))
        set_assets(ctx, a, pgs, [[1.0] * 3])
        set_demands(ctx, a, [('PFA', '1', '1'), ('PFA', '2', '1'), ('PFA', '1', '2')],
                    [[d, 2 * d, 1.0]])
        k = {'scaling_specification': {'c.1-1-1': {'LS1': '*1.5'}}} if scale else {}
        quiet(a.damage.calculate,
              dmg_process={'1_c.1-LOC': {'DS2': 'c.2_DS1'}}, **k)
        return cells(a.damage.ds_model.ds_sample, a.damage.ds_model.sample)

    twice(ctx, stage)


def consequence(y, t, unit='USD_2011'):
    return {'DV-Unit': unit, 'Quantity-Unit': '1 EA', 'DS1-Family': 'lognormal',
            'DS1-Theta_0': y, 'DS1-Theta_1': t}


@harness('2-3 components with random consequences of their damage states in cost '
         'and time; loss map filled, partly given, or given; correlated or not',
         [{'policy': p, 'rho': r} for p, r in (
             ('fill', 0.0), ('fill_all', 0.5), (None, 0.5), ('part', 0.0))],
         must_reach=('same result', 'same entries'))
def repairs(ctx, policy, rho):
    y = [ctx.real(f'y{i}', 1, 5) for i in range(2)]
    t = ctx.real('t', 0.1, 0.6)
    q = ctx.real('q', 0, 10)
    ids = ['c.1', 'c.2', 'c.3'] if policy in ('fill', 'part') else ['c.1', 'c.2']
    rows = {(c, dv): consequence(yy, t) for c in ids
            for dv, yy in (('Cost', y[0]), ('Time', y[1]))}
    cols = pd.MultiIndex.from_tuples(
        [(c, '1', '1', '0', '1') for c in ids], names=[*N4, 'ds'])

    def stage(a):
        set_assets(ctx, a, [(c, '1', '1', '0') for c in ids], [[1.0] * len(ids)])
        a.asset.cmp_marginal_params.index.names = N4
        a.loss.decision_variables = ('Cost', 'Time')
        given = {None: ids, 'part': ids[:1]}.get(policy)
        quiet(a.loss.add_loss_map,
              None if given is None else pd.DataFrame({'Repair': given}, index=given),
              'fill' if policy == 'part' else policy)
        with write_table({'-'.join(k): v for k, v in rows.items()}) as p:
            quiet(a.loss.load_model_parameters, [p])
        set_demands(ctx, a, [('PFA', '1', '1')], [[1.0]])
        a.damage.ds_model.sample = frame(ctx, [[q] * len(ids)], columns=cols)
        quiet(a.loss.calculate)
        return {**cells(a.loss.ds_model.sample),
                'map': repr(sorted(a.loss._loss_map['Repair'].items()))}

    twice(ctx, stage, RepairCostAndTimeCorrelation=rho)


@harness('2 components with random loss functions in cost and time, at 1-2 '
         'locations, 1-2 blocks; loss map filled or given; correlated or not',
         [{'policy': p, 'rho': r} for p, r in (('fill', 0.0), (None, 0.5))],
         must_reach=('same result', 'same entries'))
def functions(ctx, policy, rho):
    y = [ctx.real(f'y{i}', 1, 5) for i in range(2)]
    t = ctx.real('t', 0.1, 0.6)
    d = ctx.real('d', 0, 4)
    rows = {}
    for c in ('c.1', 'c.2'):
        for dv, yy in (('Cost', y[0]), ('Time', y[1])):
            rows[c, dv] = {
                'DV-Unit': 'USD_2011', 'Demand-Type': 'Peak Floor Acceleration',
                'Demand-Unit': 'mps2', 'Demand-Offset': 0, 'Demand-Directional': 1,
                'LossFunction-Family': 'lognormal',
                'LossFunction-Theta_0': f'0,{yy}|0,5', 'LossFunction-Theta_1': t}
    pgs = [('c.1', '1', '1', '0'), ('c.2', '1', '1', '0'), ('c.2', '2', '1', '0')]

    def stage(a):
        set_assets(ctx, a, pgs, [[1.0] * 3], [2, 1, 1])
        a.loss.decision_variables = ('Cost', 'Time')
        quiet(a.loss.add_loss_map, None if policy else pd.DataFrame(
            {'Repair': ['c.1', 'c.2']}, index=['c.1', 'c.2']), policy)
        with write_table({'-'.join(k): v for k, v in rows.items()}) as p:
            quiet(a.loss.load_model_parameters, [p])
        set_demands(ctx, a, [('PFA', '1', '1'), ('PFA', '2', '1')], [[d, d]])
        quiet(a.loss.calculate)
        return cells(a.loss.lf_model.sample)

    twice(ctx, stage, RepairCostAndTimeCorrelation=rho)


@harness('losses of 3 components, two of them combined at 2 places, aggregated with '
         'a random replacement cost and time; symbolic losses, thresholds and '
         'replacement parameters', must_reach=('same result', 'same entries'))
def aggregation(ctx):
    from pelicun import uq

    patch_grid(ctx)
    p = [('1', '1', '0'), ('2', '1', '0')]
    cols = [(dv, 'L' + c, c, *x) for dv in ('Cost', 'Time')
            for c, x in (('w', p[0]), ('f', p[0]), ('f', p[1]), ('w', p[1]),
                         ('o', p[1]))]
    v = [[ctx.real(f'v{j}', 0, 0.4) for j in range(len(cols))]]
    t0 = [ctx.real(f't{i}', 1, 3) for i in range(2)]
    ratio = {'Cost': ctx.real('ratio', 0.3, 0.9), 'Time': 5.0}
    tab = arr(ctx, [0, .2, .4, .2, ctx.real('z', 0.2, 0.4), .5, .4, .5, .6]).reshape(3, 3)

    def stage(a):
        a.loss.decision_variables = ('Cost', 'Time')
        a.loss.dv_units = {'Cost': 'USD_2011', 'Time': 'worker_day'}
        a.loss.lf_model.sample = frame(ctx, v, columns=pd.MultiIndex.from_tuples(
            cols, names=['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']))
        reg = uq.RandomVariableRegistry(a.options.rng)
        for dv, t in zip(('Cost', 'Time'), t0):
            reg.add_RV(uq.rv_class_map('lognormal')(
                name=dv, theta=arr(ctx, [t, 0.3])))
        agg, exc = quiet(
            a.loss.aggregate_losses, replacement_configuration=(reg, ratio),
            loss_combination={'Cost': {('w', 'f'): tab}}, future=True)
        return cells(agg, exc)

    twice(ctx, stage)
