"""C12  Which parameters a component gets: precedence, completeness, units."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.harness import harness
from engine.sym import parse_number
from engine.models import demand_spec, make_assessment, params_table, write_table


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def val(ctx, got, want, label):
    if want is None:
        ctx.check(pd.isna(got), label)
    elif isinstance(want, str):
        ctx.check(got == want, label)
    else:
        ctx.eq(got, want, label)


def calls(ctx, sources):
    """The sources in one call or in several, or given again."""
    return ctx.choice('calls', [[sources], [[x] for x in sources],
                                [sources, sources], [sources[:1], sources]])


LS = ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights')


def ls(n, fam, t0, t1=None, w=None):
    return {f'LS{n}-{k}': np.nan if x is None else x
            for k, x in zip(LS, (fam, t0, t1, w))}


@harness('2 sources in both orders, in one call, in two, or given again; a component in both (with different '
         'completeness), in one, unused, marked incomplete, absent; symbolic '
         'parameters and units', must_reach=('first source wins',
                                             'only the requested components'))
def damage(ctx):
    f = {'ua': ctx.real('ua', 0.01, 100), 'ub': ctx.real('ub', 0.01, 100)}
    a = make_assessment(ctx, units=f)
    t = [ctx.real(f't{i}', 0.5, 5) for i in range(8)]
    s = [ctx.real(f's{i}', 0.1, 1) for i in range(8)]
    one = {
        # deterministic, a single limit state
        'c.1': {**demand_spec(unit='ua'), **ls(1, None, t[0]),
                **ls(2, None, None), 'Incomplete': 0},
        'c.5': {**demand_spec(unit='ub'), **ls(1, 'normal_std', t[1], s[1]),
                **ls(2, None, None), 'Incomplete': 0},
        'c.4': {**demand_spec(unit='ua'), **ls(1, 'lognormal', t[2], s[2]),
                **ls(2, None, None), 'Incomplete': 1},
    }
    two = {
        'c.1': {**demand_spec(unit='ub', offset=1), **ls(1, 'lognormal', t[3], s[3]),
                **ls(2, 'lognormal', t[4], s[4], '0.5|0.5'), 'Incomplete': 0},
        'c.2': {**demand_spec(unit='ub', directional=0),
                **ls(1, 'lognormal', t[5], s[5]),
                **ls(2, 'normal_cov', t[6], s[6]), 'Incomplete': 0},
    }
    order = ctx.choice('order', [(one, two), (two, one)])
    want_set = {'c.1', 'c.2', 'c.4', 'c.7'}
    if ctx.flag('also c.5'):
        want_set.add('c.5')
    tables = [params_table(ctx, x) for x in order]
    for srcs in calls(ctx, tables):
        quiet(a.damage.load_model_parameters, srcs, set(want_set))
    p = a.damage.ds_model.damage_params
    ctx.check(set(p.index) == want_set - {'c.4', 'c.7'},
              'only the requested components')
    ctx.check(p.index.is_unique, 'one row each')
    ctx.check(set(a.damage.missing_components) == {'c.4', 'c.7'}, 'missing list')
    src = {}
    for x in reversed(order):
        src.update(x)
    for c in p.index:
        r = src[c]
        k = f[r['Demand-Unit']]
        ctx.check(int(p.loc[c, ('Demand', 'Offset')]) == r['Demand-Offset'],
                  'first source wins')
        ctx.check(int(p.loc[c, ('Demand', 'Directional')])
                  == r['Demand-Directional'], 'first source wins')
        for n in (1, 2):
            for key in LS:
                w = r[f'LS{n}-{key}']
                w = None if isinstance(w, float) and np.isnan(w) else w
                if w is not None and (
                    key == 'Theta_0' or (key == 'Theta_1'
                                         and r[f'LS{n}-Family'] == 'normal_std')):
                    w = w * k
                val(ctx, p.loc[c, (f'LS{n}', key)], w, 'first source wins')


DSP = ('Family', 'Theta_0', 'Theta_1')


def ds(n, fam, t0, t1=None):
    return {f'DS{n}-{k}': np.nan if x is None else x
            for k, x in zip(DSP, (fam, t0, t1))}


def table(rows):
    cols = list(dict.fromkeys(k for r in rows.values() for k in r))
    return pd.DataFrame(
        [[r.get(c, np.nan) for c in cols] for r in rows.values()],
        index=pd.MultiIndex.from_tuples(rows), columns=cols, dtype=object)


@harness('2 sources in both orders, in one call, in two, or given again; consequence rows of 2 decision variables, '
         'in both or one source, unused, incomplete, absent; symbolic '
         'parameters, units and quantity units',
         must_reach=('first source wins', 'only the mapped components'))
def loss(ctx):
    f = {'ua': ctx.real('ua', 0.01, 100), 'ub': ctx.real('ub', 0.01, 100),
         'uq': ctx.real('uq', 0.01, 100)}
    a = make_assessment(ctx, units=f)
    t = [ctx.real(f't{i}', 0.5, 5) for i in range(8)]
    s = [ctx.real(f's{i}', 0.1, 1) for i in range(8)]

    def head(u, q='1 EA', inc=0):
        return {'DV-Unit': u, 'Quantity-Unit': q, 'Incomplete': inc}

    one = {
        ('L1', 'Cost'): {**head('ua'), **ds(1, None, t[0]), **ds(2, None, None)},
        ('L1', 'Time'): {**head('ub', '1 uq'), **ds(1, 'lognormal', t[1], s[1]),
                         **ds(2, 'normal', t[2], s[2])},
        ('L4', 'Cost'): {**head('ua', inc=1), **ds(1, None, t[7]),
                         **ds(2, None, None)},
    }
    two = {
        ('L1', 'Cost'): {**head('ua'), **ds(1, 'lognormal', t[3], s[3]),
                         **ds(2, 'normal', t[4], s[4])},
        ('L2', 'Cost'): {**head('ua', '2 uq'), **ds(1, None, t[5]),
                         **ds(2, 'lognormal', t[6], s[6])},
        ('L3', 'Cost'): {**head('ua'), **ds(1, None, t[5]), **ds(2, None, None)},
    }
    order = ctx.choice('order', [(one, two), (two, one)])
    lmap = {'c.1': 'L1', 'c.2': 'L2', 'c.4': 'L4', 'c.7': 'L7'}
    if ctx.flag('also L3'):
        lmap['c.3'] = 'L3'
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss._loss_map = pd.DataFrame({'Repair': lmap})
    # sources are data files in ordinary use
    import tempfile
    from pathlib import Path
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for i, x in enumerate(order):
            df = table(x)
            df.index = ['-'.join(k) for k in df.index]
            df.index.name = 'ID'
            ps.append(str(Path(d, f'{i}.csv')))
            df.map(lambda v: v if not isinstance(v, float) or np.isnan(v)
                   else repr(v)).to_csv(ps[-1])
        for srcs in calls(ctx, ps):
            quiet(a.loss.load_model_parameters, srcs)
    p = a.loss.ds_model.loss_params
    src = {}
    for x in reversed(order):
        src.update(x)
    want = {k for k in src if k[0] in set(lmap.values()) and k[0] != 'L4'}
    ctx.check(set(p.index) == want and p.index.is_unique,
              'only the mapped components')
    miss = {(c, dv) for c in lmap.values() for dv in ('Cost', 'Time')} - want
    ctx.check(set(a.loss._missing) == miss, 'missing list')
    ctx.check(a.loss.dv_units == {'Cost': 'ua', 'Time': 'ub'}, 'units')
    for key in want:
        r = src[key]
        k = f[r['DV-Unit']]
        q = {'1 EA': 1.0, '1 uq': f['uq'], '2 uq': 2 * f['uq']}[r['Quantity-Unit']]
        for n in (1, 2):
            for col in DSP:
                w = r[f'DS{n}-{col}']
                w = None if isinstance(w, float) and np.isnan(w) else w
                got = p.loc[key, (f'DS{n}', col)]
                if w is not None and col == 'Theta_0':
                    ctx.eq(got * q, w * k, 'first source wins')
                else:
                    val(ctx, got, w, 'first source wins')


@harness('2 sources of loss functions in both orders, in one call, in two, or given '
         'again; 2 decision variables; in both or one source; symbolic values and units',
         must_reach=('first source wins', 'only the mapped components'))
def functions(ctx):
    f = {'ua': ctx.real('ua', 0.01, 100), 'ub': ctx.real('ub', 0.01, 100),
         'ux': ctx.choice('ux', [1.0, 2.0])}
    a = make_assessment(ctx, units=f)
    y = [ctx.real(f'y{i}', 0.5, 5) for i in range(5)]
    s = [ctx.real(f's{i}', 0.1, 1) for i in range(5)]

    def row(i, u, fam):
        return {'DV-Unit': u, **demand_spec(unit='ux'), 'LossFunction-Family': fam,
                'LossFunction-Theta_0': f'0,{y[i]}|0,4', 'LossFunction-Theta_1': s[i]}

    one = {('L1', 'Cost'): row(0, 'ua', 'normal'), ('L1', 'Time'): row(1, 'ub', 'normal')}
    two = {('L1', 'Cost'): row(2, 'ua', 'lognormal'),
           ('L2', 'Cost'): row(3, 'ua', 'lognormal'),
           ('L3', 'Time'): row(4, 'ub', 'normal')}
    order = ctx.choice('order', [(one, two), (two, one)])
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss._loss_map = pd.DataFrame({'Repair': {'c.1': 'L1', 'c.2': 'L2'}})
    with contextlib.ExitStack() as stack:
        ps = [stack.enter_context(write_table({'-'.join(k): v for k, v in r.items()}))
              for r in order]
        for srcs in calls(ctx, ps):
            quiet(a.loss.load_model_parameters, srcs)
    p = a.loss.lf_model.loss_params
    src = {**order[1], **order[0]}
    want = {k for k in src if k[0] != 'L3'}
    ctx.check(set(p.index) == want and p.index.is_unique, 'only the mapped components')
    for key in want:
        r = p.loc[key, 'LossFunction']
        w = src[key]
        ctx.check(r['Family'] == w['LossFunction-Family'], 'first source wins')
        ctx.eq(r['Theta_1'], w['LossFunction-Theta_1'], 'first source wins')
        i = next(i for i in range(5) if w['LossFunction-Theta_1'] is s[i])
        ys, xs = r['Theta_0'].split('|')
        num = parse_number if ctx.symbolic else float
        got = [num(v) for v in ys.split(',')]
        ctx.check([float(v) for v in xs.split(',')] == [0.0, 4.0 * f['ux']],
                  'first source wins')
        if ctx.symbolic:
            ctx.eq(got[1], y[i] * f[w['DV-Unit']], 'first source wins')
        else:
            ctx.check(abs(got[1] / (y[i] * f[w['DV-Unit']]) - 1) < 1e-4,
                      'first source wins')


@harness('one source with two units for one decision variable, or with an '
         'unknown layout', must_reach=('refused',))
def refused(ctx):
    from pelicun.pelicun_warnings import InconsistentUnitsError

    a = make_assessment(ctx, units={'ua': 1.0, 'ub': 2.0})
    a.loss._loss_map = pd.DataFrame({'Repair': {'c.1': 'L1'}})
    t = ctx.real('t', 1, 2)
    bad = table({
        ('L1', 'Cost'): {'DV-Unit': 'ua', 'Quantity-Unit': '1 EA', **ds(1, None, t)},
        ('L2', 'Cost'): {'DV-Unit': 'ub', 'Quantity-Unit': '1 EA', **ds(1, None, t)},
    })
    none = table({('L1', 'Cost'): {'DV-Unit': 'ua', 'Quantity-Unit': '1 EA',
                                   'X1-Theta_0': t}})
    for df, exc in ((bad, InconsistentUnitsError), (none, ValueError)):
        import tempfile
        from pathlib import Path
        df.index = ['-'.join(k) for k in df.index]
        with tempfile.TemporaryDirectory() as d:
            p = Path(d, 'x.csv')
            df.map(lambda v: v if not isinstance(v, float) or np.isnan(v)
                   else repr(v)).to_csv(p)
            try:
                quiet(a.loss.load_model_parameters, [str(p)])
            except exc:
                ctx.check(True, 'refused')
            else:
                ctx.fail('refused')
    try:
        quiet(a.damage.load_model_parameters, [params_table(
            ctx, {'c.1': {**demand_spec(), 'X-Theta_0': t}})], {'c.1'})
    except ValueError:
        ctx.check(True, 'refused')
    else:
        ctx.fail('refused')
