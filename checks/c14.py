"""C14  Losses from loss functions (demand -> loss)."""

import contextlib
import io

import numpy as np
import pandas as pd
import scipy.stats as st

from engine.dists import Rng
from engine.funcs import NORM, exp
from engine.harness import assume_note, harness
from engine.models import (
    frame, make_assessment, patch_interp1d, set_assets, set_demands, used_symbols,
    write_table)

assume_note('scipy.interpolate.interp1d is replaced by its documented contract '
            '(linear between the points, ValueError outside of them)')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def setup(ctx, rho=0.0, units=None):
    a = make_assessment(ctx, {
        'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0},
        'NonDirectionalMultipliers': {'ALL': 1.0},
        'RepairCostAndTimeCorrelation': rho}, units=units)
    rng = a.options._rng = Rng(ctx)
    patch_interp1d(ctx)
    return a, rng


def row(theta0, fam=None, t1=np.nan, dtype='Peak Floor Acceleration',
        offset=0, directional=1, unit='USD_2011', dunit='mps2'):
    return {'DV-Unit': unit, 'Demand-Type': dtype, 'Demand-Unit': dunit,
            'Demand-Offset': offset, 'Demand-Directional': directional,
            'LossFunction-Family': np.nan if fam is None else fam,
            'LossFunction-Theta_0': theta0, 'LossFunction-Theta_1': t1}


def give(ctx, a, rows, lmap, dvs, extra=None):
    a.loss.decision_variables = dvs
    a.loss._loss_map = pd.DataFrame({'Repair': lmap})
    with contextlib.ExitStack() as stack:
        ps = [stack.enter_context(write_table(
            {'-'.join(k): v for k, v in r.items()})) for r in (rows, extra) if r]
        quiet(a.loss.load_model_parameters, ps)


def interp(x, ys, xs):
    for (x0, x1), (y0, y1) in zip(zip(xs, xs[1:]), zip(ys, ys[1:])):
        if bool(x <= x1):
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    raise AssertionError


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-4 * (1e-3 + abs(float(b)))


def text_eq(ctx, got, want, label):
    """The functions are stored as text with 6 digits after unit conversion."""
    if ctx.symbolic:
        ctx.eq(got, want, label)
    else:
        ctx.check(close(got, want), label, f'{got!r} vs {want!r}')


def deviation(ctx, fam, t1, u):
    cdf, ppf = ((NORM.cdf, NORM.ppf) if ctx.symbolic
                else (st.norm.cdf, st.norm.ppf))
    if fam == 'lognormal':
        return (exp if ctx.symbolic else np.exp)(t1 * ppf(u))
    pa = cdf(-1 / t1)
    return 1 + t1 * ppf(u * (1 - pa) + pa)


@harness('2 components (consequence of the same or of another name, shared or '
         'not), 1, 2 or 11 blocks, 1-2 realizations, 3-point loss functions with symbolic '
         'y-values, symbolic demands, quantities and decision variable unit; '
         'no random deviation; directional, non-directional and shifted demands',
         [{'name': nm, 'blocks': b, 'shared': s}
          for nm, b, s in (('same', (1, 2), False), ('other', (2, 1), False),
                           ('other', None, True), ('same', (11, 1), False))],
         must_reach=('loss', 'columns'))
def median(ctx, name, blocks, shared):
    uy = ctx.real('uy', 0.01, 100)
    a, _ = setup(ctx, units={'uy': uy, 'ux': 2.0})
    y = [ctx.real(f'y{i}', 0, 10) for i in range(6)]
    l1, l2 = ('c.1', 'c.2') if name == 'same' else ('L1', 'L2')
    fy = {l1: y[:3], l2: y[3:]}
    # x-values 0, 2, 5 in ux (2.0 base units)
    rows = {(l1, 'Cost'): row('{},{},{}|0,2,5'.format(*y[:3]), unit='uy', dunit='ux'),
            (l2, 'Cost'): row('{},{},{}|0,2,5'.format(*y[3:]), unit='uy', dunit='ux',
                              directional=0, offset=1),
            ('L9', 'Cost'): row('7,8|0,100', unit='uy', dunit='ux')}
    lmap = {'c.1': l1, 'c.2': l1 if shared else l2, 'c.8': 'L9'}
    give(ctx, a, rows, lmap, ('Cost',))
    pgs = [('c.1', '1', '1', '0'), ('c.2', '1', '2', 'x'), ('c.5', '1', '1', '0')]
    n = 1 if name == 'same' else 2
    q = [[ctx.real(f'q{i}{j}', 0, 100) for j in range(3)] for i in range(n)]
    set_assets(ctx, a, pgs, q, None if blocks is None else [*blocks, 1])
    edps = [('PFA', '1', '1'), ('PFA', '1', '2'), ('PFA', '2', '1'), ('PFA', '2', '2')]
    d = [[ctx.real(f'd{i}{j}', 0, 10) for j in range(4)] for i in range(n)]
    set_demands(ctx, a, edps, d)
    quiet(a.loss.calculate)
    out = a.loss.lf_model.sample
    want = {('Cost', lmap[p[0]], *p) for p in pgs[:2]}
    ctx.check(set(out.columns) == want and out.columns.is_unique, 'columns')
    if set(out.columns) != want:
        return
    for i in range(n):
        for j, p in enumerate(pgs[:2]):
            l = lmap[p[0]]
            if l == l1:
                e = d[i][0 if p[2] == '1' else 1]
            else:
                e = d[i][2] if bool(d[i][2] >= d[i][3]) else d[i][3]
            text_eq(ctx, out['Cost', l, *p].iloc[i],
                    q[i][j] * uy * interp(e, fy[l], (0, 4, 10)), 'loss')


@harness('random deviations (normal, lognormal) for Cost and Time, 1-2 blocks, 1 '
         'realization, Cost/Time correlation 0 and 1; another component whose '
         'Time comes from damage states or from nowhere',
         [{'fam': f, 'rho': r, 'cmp': c}
          for f, r, c in (('normal', 0.0, 'c.1'), ('normal', 1.0, 'Time.Cost'),
                          ('lognormal', 0.0, 'Time.Cost'), ('lognormal', 1.0, 'c.1'))],
         must_reach=('loss', 'own draw', 'columns'))
def random_part(ctx, fam, rho, cmp):
    lid = 'L1' if cmp == 'c.1' else 'Cost.1'
    a, rng = setup(ctx, rho)
    y = [ctx.real(f'y{i}', 1, 10) for i in range(6)]
    t1 = [ctx.real('t10', 0.1, 0.6)]
    t1.append(t1[0])
    rows = {(lid, 'Cost'): row('{},{}|0,10'.format(*y[:2]), fam, t1[0]),
            (lid, 'Time'): row('{},{}|0,10'.format(*y[2:4]), fam, t1[1],
                                unit='worker_day'),
            ('L2', 'Cost'): row('{},{}|0,10'.format(*y[4:]))}
    extra = None
    if ctx.flag('time from damage'):
        extra = {('L2', 'Time'): {
            'DV-Unit': 'worker_day', 'Quantity-Unit': '1 EA', 'DS1-Family': np.nan,
            'DS1-Theta_0': 3.0}}
    give(ctx, a, rows, {cmp: lid, 'c.2': 'L2'}, ('Cost', 'Time'), extra)
    pgs = [(cmp, '1', '1', '0'), ('c.2', '1', '1', '0')]
    q = [[ctx.real(f'q{j}', 1, 100) for j in range(2)]]
    nb = ctx.choice('blocks', [1, 2]) if rho == 0 else 1
    set_assets(ctx, a, pgs, q, [nb, 2])
    d = ctx.real('d', 0, 10)
    set_demands(ctx, a, [('PFA', '1', '1')], [[d]])
    quiet(a.loss.calculate)
    out = a.loss.lf_model.sample
    want = {('Cost', lid, *pgs[0]), ('Time', lid, *pgs[0]), ('Cost', 'L2', *pgs[1])}
    ctx.check(set(out.columns) == want, 'columns')
    if set(out.columns) != want:
        return
    text_eq(ctx, out['Cost', 'L2', *pgs[1]].iloc[0],
            q[0][1] * interp(d, y[4:], (0, 10)), 'loss')
    if ctx.symbolic:
        ids = {str(v.t): v for v in rng.memo.values()}
        used = {dv: set(ids) & used_symbols(out[dv, lid, *pgs[0]].iloc[0])
                for dv in ('Cost', 'Time')}
    else:
        # draws in the order they were made (Cost blocks, then Time blocks)
        used = None
    for k, dv in enumerate(('Cost', 'Time')):
        got = out[dv, lid, *pgs[0]].iloc[0]
        med = q[0][0] * interp(d, y[2 * k:2 * k + 2], (0, 10))
        if rho == 1.0:
            # both driven by the same draws
            if ctx.symbolic:
                ctx.check(used['Cost'] == used['Time'] and len(used['Cost']) > 0,
                          'own draw')
            else:
                o = out['Cost', lid, *pgs[0]].iloc[0]
                ctx.check(close(o * interp(d, y[2:4], (0, 10)),
                                out['Time', lid, *pgs[0]].iloc[0]
                                * interp(d, y[:2], (0, 10))), 'loss')
            ctx.reach('loss')
            continue
        if ctx.symbolic:
            us = used[dv]
            ctx.check(len(us) == nb and not (used['Cost'] & used['Time']), 'own draw')
            if len(us) != nb:
                return
            cand = [[ids[x] for x in us]]
        else:
            import itertools
            cand = itertools.combinations(list(rng.memo.values()), nb)
        def total(us, med=med, k=k):
            s = 0
            for u in us:
                s = s + deviation(ctx, fam, t1[k], u)
            return med * s / nb
        if ctx.symbolic:
            ctx.eq(got, total(cand[0]), 'loss')
        else:
            ctx.check(any(close(got, total(c)) for c in cand), 'loss')


@harness('a demand anywhere inside or outside the domain of the function; '
         'functions with unequal numbers of x- and y-values',
         must_reach=('inside', 'refused'))
def domain(ctx):
    a, _ = setup(ctx)
    bad = ctx.choice('form', ['good', 'short'])
    give(ctx, a, {('L1', 'Cost'): row('1,2,4|1,3,5' if bad == 'good'
                                      else '1,2|1,3,5')}, {'c.1': 'L1'}, ('Cost',))
    q = ctx.real('q', 1, 2)
    set_assets(ctx, a, [('c.1', '1', '1', '0')], [[q]])
    d = ctx.real('d', 0, 10)
    set_demands(ctx, a, [('PFA', '1', '1')], [[d]])
    try:
        quiet(a.loss.calculate)
    except ValueError:
        ctx.check(bad == 'short' or bool((d < 1) | (d > 5)), 'refused')
        return
    ctx.check(bad == 'good' and bool((d >= 1) & (d <= 5)), 'refused')
    ctx.eq(a.loss.lf_model.sample.iloc[0, 0],
           q * interp(d, (1, 2, 4), (1, 3, 5)), 'inside')


@harness('2 damaged components and 2 decision variables: each loss from the damage '
         'states, from a loss function or from neither, in any combination; symbolic '
         'quantities, consequences, functions and demands',
         [{'first': x} for x in ('d-', 'df', 'fd', 'ff', 'f-', 'dd')],
         must_reach=('loss', 'columns'))
def mixed(ctx, first):
    a, _ = setup(ctx)
    dvs = ('Cost', 'Time')
    kind = {('L1', dv): k for dv, k in zip(dvs, first)}
    for dv in dvs:
        kind['c.2', dv] = ctx.choice(f'{dv} of c.2', ['d', 'f', '-'])
    y = {k: ctx.real(f'y {k}', 0, 10) for k in kind}
    unit = {'Cost': 'USD_2011', 'Time': 'worker_day'}
    q0 = {'DV-Unit': 'USD_2011', 'Quantity-Unit': '1 EA'}
    states = {k: {**q0, 'DV-Unit': unit[k[1]], 'DS1-Family': np.nan,
                  'DS1-Theta_0': y[k]} for k, v in kind.items() if v == 'd'}
    funcs = {k: row('0,{}|0,10'.format(y[k]), unit=unit[k[1]])
             for k, v in kind.items() if v == 'f'}
    # the functions are accelerations in mps2
    lmap = {'c.1': 'L1', 'c.2': 'c.2'}
    give(ctx, a, states or funcs, lmap, dvs, funcs if states else None)
    pgs = [('c.1', '1', '1', '0'), ('c.2', '2', '1', '0')]
    q = [ctx.real(f'q{j}', 0, 100) for j in range(2)]
    p = [ctx.real(f'damaged {j}', 0, 100) for j in range(2)]
    d = [ctx.real(f'd{j}', 0, 10) for j in range(2)]
    set_assets(ctx, a, pgs, [q], None)
    set_demands(ctx, a, [('PFA', '1', '1'), ('PFA', '2', '1')], [d])
    a.damage.ds_model.sample = frame(
        ctx, [[v for x in p for v in (100 - x, x)]], columns=pd.MultiIndex.from_tuples(
            [(*g, s) for g in pgs for s in '01'],
            names=['cmp', 'loc', 'dir', 'uid', 'ds']))
    quiet(a.loss.calculate)
    both = {}
    for which, model in (('d', a.loss.ds_model), ('f', a.loss.lf_model)):
        want = {}
        for j, g in enumerate(pgs):
            l = lmap[g[0]]
            for dv in dvs:
                if kind[l, dv] == which:
                    if which == 'd':
                        want[dv, l, g[0], '1', *g[1:]] = p[j] * y[l, dv]
                    else:
                        want[dv, l, *g] = q[j] * y[l, dv] * d[j] / 10
        got = model.sample
        names = set() if got is None else set(got.columns)
        ctx.check(names == set(want), 'columns', f'{names ^ set(want)}')
        for k in names & set(want):
            (ctx.eq if which == 'd' else lambda *x: text_eq(ctx, *x))(
                got[k].iloc[0], want[k], 'loss')
        both.update({k if which == 'd' else (*k[:3], 'N/A', *k[3:]): v
                     for k, v in want.items()})
    if not both:
        return
    df, units = quiet(a.loss.save_sample, save_units=True)
    if df.columns.nlevels == 6:  # no losses of damage states
        both = {(*k[:3], *k[4:]): v for k, v in both.items()}
    ctx.check(set(df.columns) == set(both), 'all losses saved')
    for k, v in both.items():
        if k in df.columns:
            text_eq(ctx, df[k].iloc[0], v, 'loss saved')
            ctx.check(units[k] == unit[k[0]], 'unit saved')
    total, _ = quiet(a.loss.aggregate_losses, future=True)
    for dv, col in (('Cost', ('repair_cost', '')), ('Time', ('repair_time', 'sequential'))):
        parts = [v for k, v in both.items() if k[0] == dv]
        ctx.check((col[0] in total.columns.get_level_values(0)) == bool(parts), 'totals')
        if parts:
            got = total[col[0]].iloc[0]
            got = got['sequential'] if dv == 'Time' else (
                got.iloc[0] if isinstance(got, pd.Series) else got)
            text_eq(ctx, got, sum(parts), 'total')
