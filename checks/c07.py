"""C07  Adjustments hit exactly the selected entries, each exactly once."""

import itertools
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.harness import assume_note, harness
from engine.models import frame, make_assessment

assume_note('capacity adjustment is observed on the generated capacities, with '
            'an arbitrary random generator and Monte Carlo sampling')


@harness('5 labelled rows (or columns) x 2 values; any condition set over 3 '
         'levels (each level free or one of 3 values, one of them absent)',
         [{'axis': x} for x in (0, 1)],
         must_reach=('selected scaled', 'others unchanged', 'no match refused'))
def by_labels(ctx, axis):
    from pelicun import base

    ctx.symnp(base)
    labels = [('A', 'X', 'K'), ('A', 'X', 'L'), ('A', 'Y', 'K'), ('B', 'X', 'K'),
              ('B', 'Y', 'L')]
    mi = pd.MultiIndex.from_tuples(labels, names=['l1', 'l2', 'l3'])
    v = [[ctx.real(f'v{i}{j}', -9, 9) for j in range(2)] for i in range(5)]
    if axis == 0:
        df = frame(ctx, v, index=mi, columns=['p', 'q'])
    else:
        df = frame(ctx, [list(r) for r in zip(*v)], index=[0, 1], columns=mi)
    cond = {}
    for i, (l, opts) in enumerate((('l1', 'AB'), ('l2', 'XY'), ('l3', 'KL'))):
        c = ctx.choice(l, [None, *opts, 'absent'])
        if c is not None:
            cond[l] = c
    # the order in which the conditions are listed does not matter
    if ctx.flag('reverse'):
        cond = dict(reversed(list(cond.items())))
    k = ctx.real('factor', -5, 5)
    raise_missing = ctx.flag('raise_missing')
    hit = [all(lab[['l1', 'l2', 'l3'].index(l)] == c for l, c in cond.items())
           for lab in labels]
    try:
        base.multiply_factor_multiple_levels(
            df, cond, k, axis, raise_missing=raise_missing)
    except ValueError:
        ctx.check(raise_missing and not any(hit), 'no match refused')
        return
    ctx.check(any(hit) or not raise_missing, 'no match refused')
    for i, h in enumerate(hit):
        for j in range(2):
            got = df.iloc[i, j] if axis == 0 else df.iloc[j, i]
            ctx.eq(got, v[i][j] * k if h else v[i][j],
                   'selected scaled' if h else 'others unchanged')


LOSS = [('Cost', 'L1', 'c.1', '1', '1', '1', '0'),
        ('Cost', 'L1', 'c.1', '2', '2', '1', '0'),
        ('Cost', 'L2', 'c.2', '1', '2', '2', '0'),
        ('Time', 'L1', 'c.1', '1', '1', '1', '0'),
        ('Time', 'L2', 'c.2', '1', '3', '2', '0')]


@harness('1-2 specification rows: decision variable, optional component, '
         'location and direction (single, range or empty), symbolic factors; '
         '5 loss columns in the damage-state model, 2 in the loss-function model',
         [{'rows': 1}, {'rows': 2}],
         must_reach=('selected scaled', 'others unchanged'))
def consequences(ctx, rows):
    a = make_assessment(ctx)
    names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
    cols = pd.MultiIndex.from_tuples(LOSS, names=names)
    v = [ctx.real(f'v{j}', 0, 9) for j in range(5)]
    a.loss.ds_model.sample = frame(ctx, [v], columns=cols)
    lf = [('Cost', 'L3', 'c.1', '1', '1', '0'), ('Time', 'L3', 'c.3', '2', '2', '0')]
    w = [ctx.real(f'w{j}', 0, 9) for j in range(2)]
    a.loss.lf_model.sample = frame(ctx, [w], columns=pd.MultiIndex.from_tuples(
        lf, names=['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']))
    spec = []
    for r in range(rows):
        if rows == 1:
            s = {'Decision Variable': ctx.choice('dv', ['Cost', 'Time', 'Carbon']),
                 'Component': ctx.choice('cmp', ['', 'c.1', 'c.2']),
                 'Location': ctx.choice('loc', ['', '2', '1--2', '2--3']),
                 'Direction': ctx.choice('dir', ['', '1', '1--2'])}
        else:
            s = ({'Decision Variable': 'Cost', 'Component': 'c.1', 'Location': '',
                  'Direction': ctx.choice('dir', ['', '1--2'])} if r == 0 else
                 {'Decision Variable': ctx.choice('dv', ['Cost', 'Time']),
                  'Component': '', 'Location': ctx.choice('loc', ['', '1--3']),
                  'Direction': ''})
        s['Scale Factor'] = ctx.real(f'k{r}', 0.1, 5)
        spec.append(s)
    with tempfile.TemporaryDirectory() as d:
        p = Path(d, 's.csv')
        pd.DataFrame([{k: x if isinstance(x, (str, float)) else str(x)
                       for k, x in s.items()} for s in spec]).to_csv(
                           p, index=False)
        a.loss.consequence_scaling(str(p))

    def match(s, dv, cmp, loc, dr):
        def ok(t, x):
            if t == '':
                return True
            if '--' in t:
                lo, hi = t.split('--')
                return int(lo) <= int(x) <= int(hi)
            return t == x
        return (s['Decision Variable'] == dv and ok(s['Component'], cmp)
                and ok(s['Location'], loc) and ok(s['Direction'], dr))

    for sample, base_v, keys in (
        (a.loss.ds_model.sample, v, [(k[0], k[2], k[4], k[5]) for k in LOSS]),
        (a.loss.lf_model.sample, w, [(k[0], k[2], k[3], k[4]) for k in lf]),
    ):
        for j, k in enumerate(keys):
            want, hit = base_v[j], False
            for s in spec:
                if match(s, *k):
                    want, hit = want * s['Scale Factor'], True
            ctx.eq(sample.iloc[0, j], want,
                   'selected scaled' if hit else 'others unchanged')


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y,
       '*': lambda x, y: x * y, '/': lambda x, y: x / y}


@harness('2 performance groups (one with 2 blocks), 2 limit states, 2 '
         'realizations; adjustment of one group for ALL or one limit state, '
         'by one operation or one per realization, symbolic operands',
         [{'fam': f, 'ls': l, 'per': p} for f in ('normal', 'lognormal', None)
          for l in ('ALL', 'LS2') for p in (False, True)],
         must_reach=('capacity',))
def capacity(ctx, fam, ls, per):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}})
    rng = Rng(ctx)
    a.options._rng = rng
    n = 2
    th = {l: (ctx.real(f't0{l}', 1, 5), ctx.real(f't1{l}', 0.1, 0.5))
          for l in ('LS1', 'LS2')}
    famv = np.nan if fam is None else fam
    cols = pd.MultiIndex.from_tuples(
        [(l, c) for l in ('LS1', 'LS2')
         for c in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')])
    row = []
    for l in ('LS1', 'LS2'):
        row += [famv, th[l][0], th[l][1] if fam else np.nan, np.nan]
    a.damage.ds_model.damage_params = pd.DataFrame(
        [row], index=['c.1'], columns=cols, dtype=object)
    pgs = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0')]
    pgb = pd.DataFrame({'Blocks': [1, 2]}, index=pd.MultiIndex.from_tuples(
        pgs, names=['cmp', 'loc', 'dir', 'uid']))
    op = ctx.choice('op', list('+-*/'))
    ks = [ctx.real(f'k{i}', 0.5, 0.9) for i in range(n if per else 1)]
    model = a.damage.ds_model
    plain, plain_ds = model._generate_dmg_sample(n, pgb, None)
    txt = [op + str(k) for k in ks]
    spec = {'c.1-2-1': {ls: txt if per else txt[0]}}
    a.options._rng = Rng(ctx, replay=rng)
    cap, cap_ds = model._generate_dmg_sample(n, pgb, spec)
    want_cols = {(*pg, str(b), l[2:]) for pg, nb in zip(pgs, (1, 2))
                 for b in range(1, nb + 1) for l in ('LS1', 'LS2')}
    for t in (plain, cap, plain_ds, cap_ds):
        ctx.check(set(t.columns) == want_cols and len(t) == n, 'capacity columns')
    for c in want_cols:
        l = 'LS' + c[-1]
        for i in range(n):
            t0 = t1 = th[l][0]
            if c[1] == '2' and ls in {'ALL', l}:
                t1 = OPS[op](t0, ks[i] if per else ks[0])
            # same draw: the capacity is proportional to its location parameter
            ctx.eq(cap[c].iloc[i] * t0, plain[c].iloc[i] * t1, 'capacity')
            if fam is None:
                ctx.eq(cap[c].iloc[i], t1, 'capacity')
            ctx.eq(cap_ds[c].iloc[i], int(c[-1]), 'damage state of limit state')
            ctx.eq(plain_ds[c].iloc[i], int(c[-1]), 'damage state of limit state')


@harness('malformed adjustment specifications', must_reach=('refused',))
def capacity_errors(ctx):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}})
    a.options._rng = Rng(ctx)
    cols = pd.MultiIndex.from_tuples(
        [('LS1', c) for c in ('Family', 'Theta_0', 'Theta_1',
                              'DamageStateWeights')])
    a.damage.ds_model.damage_params = pd.DataFrame(
        [['normal', ctx.real('t', 1, 2), 0.5, np.nan]], index=['c.1'],
        columns=cols, dtype=object)
    pgb = pd.DataFrame({'Blocks': [1]}, index=pd.MultiIndex.from_tuples(
        [('c.1', '1', '1', '0')], names=['cmp', 'loc', 'dir', 'uid']))
    for spec in ({'LS1': '%2'}, {'LS1': '*x'}, {'DS1': '*2'}, {'LS1': 2.0},
                 {'ALL': '*2', 'LS1': '*3'}, {'LS1': ['*2', 3]}):
        try:
            a.damage.ds_model._generate_dmg_sample(1, pgb, {'c.1-1-1': spec})
        except (ValueError, TypeError):
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', str(spec))
