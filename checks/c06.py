"""C06  Results survive saving and loading, in whatever units they are stored."""

import itertools
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from engine import sym as S
from engine.harness import assume_note, harness
from engine.models import frame, make_assessment, modules

assume_note('numbers written to text are represented by tokens that read back '
            'as the same value (float repr is exact); replays use real text')


def grid(ctx, cols, n, name, lo=-50, hi=50):
    v = [[ctx.real(f'{name}{i}_{j}', lo, hi) for j in range(len(cols))]
         for i in range(n)]
    return v


def col_index(ctx, tuples, names, label='column order'):
    p = ctx.perm(label, len(tuples)) if len(tuples) <= 3 else list(
        range(len(tuples)))
    t = [tuples[i] for i in p]
    return pd.MultiIndex.from_tuples(t, names=names)


def out_of_file(ctx, way, save, load):
    if way == 'file':
        with tempfile.TemporaryDirectory() as d:
            p = str(Path(d, 'x.csv'))
            r = save(p)
            ctx.check(r is None, 'file: nothing returned')
            load(p)
    else:
        load(save(None))


def same(ctx, got, want, label):
    """Same columns, same rows, same values."""
    ctx.check(set(got.columns) == set(want.columns)
              and len(got.columns) == len(want.columns), label + ': columns')
    ctx.check(got.shape == want.shape, label + ': shape')
    for c in want.columns:
        a, b = got[c].to_numpy(), want[c].to_numpy()
        for x, y in zip(a, b):
            ctx.eq(x, y, label)


def no_nan(tuples):
    return tuples


@harness('table of 2 rows x 3 columns in 2 symbolic units, every column order; '
         'in memory and through a file',
         [{'way': w} for w in ('memory', 'file')],
         must_reach=('stored in user units', 'values restored'))
def table_by_columns(ctx, way):
    m = modules()
    ctx.symnp(*m.values())
    f = {'ua': ctx.real('ua', 0.001, 1000), 'ub': ctx.real('ub', 0.001, 1000)}
    cols = col_index(ctx, [('x', '1', '1'), ('x', '2', '1'), ('y', '1', '2')],
                     ['type', 'loc', 'dir'])
    df = frame(ctx, grid(ctx, cols, 2, 'v'), columns=cols)
    orig = df.copy()
    um = {('x', '1', '1'): 'ua', ('x', '2', '1'): 'ub', ('y', '1', '2'): 'ua'}
    # the order of the units need not be the order of the columns
    uo = ctx.choice('units order', [[0, 1, 2], [2, 0, 1]])
    keys = [list(um)[i] for i in uo]
    units = pd.Series([um[k] for k in keys], name='Units',
                      index=pd.MultiIndex.from_tuples(keys, names=cols.names))
    fio = m['file_io']
    got = fio.save_to_csv(df, None, units=units, unit_conversion_factors=f,
                          use_simpleindex=False)
    same(ctx, df, orig, 'input untouched')
    for c in cols:
        ctx.check(got.loc['Units', c] == um[c], 'unit stored')
        vals = got[c].drop('Units').to_numpy()
        for i in range(2):
            ctx.eq(vals[i] * f[um[c]], df[c].iloc[i], 'stored in user units')

    def save(p):
        return fio.save_to_csv(df, None if p is None else Path(p), units=units,
                               unit_conversion_factors=f)

    def load(src):
        data, u = fio.load_data(src, f, return_units=True)
        data.columns.names = cols.names
        same(ctx, data, orig, 'values restored')
        for c in cols:
            ctx.check(u.loc[c] == um[c], 'unit restored')

    out_of_file(ctx, way, save, load)


@harness('table of 2-3 rows with a unit each, 2 numeric columns and one text '
         'column; in memory and through a file',
         [{'way': w} for w in ('memory', 'file')], must_reach=('values restored',))
def table_by_rows(ctx, way):
    m = modules()
    ctx.symnp(*m.values())
    f = {'ua': ctx.real('ua', 0.001, 1000), 'ub': ctx.real('ub', 0.001, 1000)}
    fio = m['file_io']
    names = ['a-1', 'b-1', 'c-2']
    um = {'a-1': 'ua', 'b-1': 'ub', 'c-2': 'ua'}
    p = ctx.perm('row order', 3)
    names = [names[i] for i in p]
    v = {n: [ctx.real(f'{n}_{j}', -50, 50) for j in range(2)] for n in names}
    idx = pd.Index(names)
    df = pd.DataFrame({'p': [v[n][0] for n in names], 'q': [v[n][1] for n in names]},
                      index=idx, dtype=object if ctx.symbolic else float)
    units = pd.Series([um[n] for n in names], index=idx, name='Units')
    if ctx.symbolic:
        real = pd.DataFrame.dtypes

        def dtypes(self):
            d = real.fget(self)
            if (d == object).any():
                d = pd.Series([
                    np.dtype(float) if t == object and S.has_sym(self.iloc[:, i])
                    else t for i, t in enumerate(d)], index=d.index, dtype=object)
            return d

        ctx.patch(pd.DataFrame, 'dtypes', property(dtypes))

        sel = pd.DataFrame.select_dtypes

        def select(self, include=None, exclude=None):
            if include == [np.number]:
                return self.loc[:, [S.has_sym(self.iloc[:, i]) or
                                    real.fget(self).iloc[i].kind in 'fi'
                                    for i in range(self.shape[1])]]
            return sel(self, include, exclude)

        ctx.patch(pd.DataFrame, 'select_dtypes', select)

    def save(path):
        return fio.save_to_csv(df, None if path is None else Path(path),
                               units=units, unit_conversion_factors=f,
                               orientation=1)

    def load(src):
        data, u = fio.load_data(src, f, orientation=1, reindex=False,
                                return_units=True)
        ctx.check(set(data.index) == {tuple(n.split('-')) for n in names},
                  'rows restored')
        for n in names:
            k = tuple(n.split('-'))
            ctx.eq(data.loc[k, 'p'], v[n][0], 'values restored')
            ctx.eq(data.loc[k, 'q'], v[n][1], 'values restored')
            ctx.check(u.loc[k] == um[n], 'unit restored')

    out_of_file(ctx, way, save, load)


@harness('a saved table without an entry for its unit, or to another file type',
         must_reach=('refused',))
def save_errors(ctx):
    m = modules()
    ctx.symnp(*m.values())
    fio = m['file_io']
    df = frame(ctx, [[ctx.real('v', 0, 1)]], columns=['x'])
    u = pd.Series(['zz'], index=['x'], name='Units')
    for kw, exc in (
        ({'filepath': None, 'units': u}, ValueError),
        ({'filepath': None, 'units': u, 'unit_conversion_factors': {}}, KeyError),
        ({'filepath': Path('/nonexistent/x.txt')}, ValueError),
    ):
        try:
            fio.save_to_csv(df, **kw)
        except exc:
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused')
    for src in ('/nonexistent/x.csv', 3):
        try:
            fio.load_data(src)
        except (FileNotFoundError, TypeError):
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused')


def two(ctx):
    return {'ua': ctx.real('ua', 0.001, 1000), 'ub': ctx.real('ub', 0.001, 1000)}


@harness('2 realizations x 3 demand types with 2 symbolic units; raw table with '
         'or without an event-id level, with or without failed (ERROR) rows',
         [{'way': w, 'event': e, 'error': r} for w in ('memory', 'file')
          for e, r in ((False, False), (True, False), (False, True))],
         must_reach=('values restored', 'loaded in base units'))
def demand(ctx, way, event, error):
    f = two(ctx)
    a = make_assessment(ctx, units=f)
    keys = [('PID', '1', '1'), ('PFA', '0', '1'), ('PFA', '1', '1')]
    um = {keys[0]: 'ua', keys[1]: 'ub', keys[2]: 'ub'}
    p = ctx.perm('order', 3)
    keys = [keys[i] for i in p]
    n = 3 if error else 2
    v = grid(ctx, keys, n, 'v')
    raw = {}
    for j, k in enumerate(keys):
        lab = '-'.join((('E1',) if event else ()) + k)
        if ctx.symbolic or True:
            raw[lab.replace('PFA', 'P FA' if event else 'PFA')] = [um[k]] + [
                str(v[i][j]) if ctx.symbolic else repr(v[i][j]) for i in range(n)]
    keep = list(range(n))
    if error:
        bad = [ctx.flag(f'failed{i}') for i in range(n)]
        ctx.assume(not all(bad))
        raw['ERROR' + ('-0-0')] = ['ua'] + ['1' if b else '0' for b in bad]
        keep = [i for i in range(n) if not bad[i]]
    table = pd.DataFrame(raw, index=['Units'] + list(range(n)))
    a.demand.load_sample(table)
    s = a.demand.sample
    ctx.check(set(s.columns) == set(keys), 'demand types')
    ctx.check(len(s) == len(keep), 'failed rows dropped')
    for j, k in enumerate(keys):
        for r, i in enumerate(keep):
            ctx.eq(s[k].iloc[r], v[i][j] * f[um[k]], 'loaded in base units')
    before = s.copy()
    b = make_assessment(ctx, units=f)

    def load(src):
        if isinstance(src, tuple):
            df, units = src
            ctx.check(set(df.columns) == set(keys), 'demand types')
            for j, k in enumerate(keys):
                ctx.check(units.loc[k] == um[k], 'unit stored')
                for r, i in enumerate(keep):
                    ctx.eq(df[k].iloc[r], v[i][j], 'user units restored')
            src = pd.concat([df, units.to_frame().T])
        b.demand.load_sample(src)

    out_of_file(ctx, way, lambda q: a.demand.save_sample(q, save_units=True), load)
    same(ctx, a.demand.sample, before, 'sample untouched by saving')
    same(ctx, b.demand.sample, before, 'values restored')


@harness('2 realizations x 3 performance groups with 2 symbolic units',
         [{'way': w} for w in ('memory', 'file')], must_reach=('values restored',))
def asset(ctx, way):
    f = two(ctx)
    a = make_assessment(ctx, units=f)
    keys = [('c.1', '1', '1', '0'), ('c.1', '2', '1', '0'), ('c.10', '1', '2', '1')]
    um = {'c.1': 'ua', 'c.10': 'ub'}
    if ctx.flag('units reversed'):
        um = {'c.10': 'ub', 'c.1': 'ua'}
    cols = col_index(ctx, keys, ['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_sample = frame(ctx, grid(ctx, cols, 2, 'v', 0, 50), columns=cols)
    a.asset.cmp_units = pd.Series(um, name='Units')
    want = a.asset.cmp_sample.copy()
    b = make_assessment(ctx, units=f)

    def load(src):
        if isinstance(src, tuple):
            df, units = src
            for c in cols:
                ctx.check(units.loc[c] == um[c[0]], 'unit stored')
                for i in range(2):
                    ctx.eq(df[c].iloc[i] * f[um[c[0]]], want[c].iloc[i],
                           'stored in user units')
            src = pd.concat([df, units.to_frame().T])
        b.asset.load_cmp_sample(src)

    out_of_file(ctx, way, lambda q: a.asset.save_cmp_sample(q, save_units=True),
                load)
    same(ctx, a.asset.cmp_sample, want, 'sample untouched by saving')
    same(ctx, b.asset.cmp_sample, want, 'values restored')
    ctx.check(b.asset.cmp_units.to_dict() == um, 'unit restored')
    ctx.check(list(b.asset.cmp_sample.columns.names)
              == ['cmp', 'loc', 'dir', 'uid'], 'level names')


@harness('2 realizations x 4 groups without unique ids, two of them at the same '
         'place, with 2 symbolic units',
         [{'way': w} for w in ('memory', 'file')], must_reach=('values restored',))
def asset_without_uid(ctx, way):
    f = two(ctx)
    keys = [('c.1', '1', '1'), ('c.10', '2', '1'), ('c.1', '1', '1'),
            ('c.1', '1', '2')]
    if ctx.flag('adjacent'):
        keys = [keys[i] for i in (0, 2, 3, 1)]
    um = {'c.1': 'ua', 'c.10': 'ub'}
    x = grid(ctx, keys, 2, 'v', 0, 50)
    table = pd.DataFrame([[um[k[0]] for k in keys], *x], index=['Units', 0, 1],
                         columns=pd.MultiIndex.from_tuples(keys), dtype=object)
    a = make_assessment(ctx, units=f)
    if way == 'file':
        table.columns = ['-'.join(k) for k in keys]
        with tempfile.TemporaryDirectory() as d:
            table.to_csv(p := str(Path(d, 'x.csv')))
            a.asset.load_cmp_sample(p)
    else:
        a.asset.load_cmp_sample(table)
    got = a.asset.cmp_sample
    uid = [str(keys[:j].count(k)) for j, k in enumerate(keys)]
    full = [(*k, u) for k, u in zip(keys, uid)]
    ctx.check(sorted(tuple(c) for c in got.columns) == sorted(full)
              and list(got.columns.names) == ['cmp', 'loc', 'dir', 'uid'],
              'values restored: columns')
    for j, k in enumerate(full):
        for i in range(2):
            ctx.eq(got[k].iloc[i], x[i][j] * f[um[k[0]]], 'values restored')
    ctx.check(a.asset.cmp_units.to_dict() == um, 'unit restored')
    mp = a.asset.cmp_marginal_params
    ctx.check(sorted(tuple(k) for k in mp.index) == sorted(full)
              and list(mp['Blocks']) == [1] * 4, 'one block for every group')


@harness('2 realizations x 4 (group, damage state) columns with 2 symbolic '
         'units', [{'way': w} for w in ('memory', 'file')],
         must_reach=('values restored',))
def damage(ctx, way):
    f = two(ctx)
    a = make_assessment(ctx, units=f)
    keys = [('c.1', '1', '1', '0', '0'), ('c.1', '1', '1', '0', '1'),
            ('c.1', '2', '1', '0', '2'), ('c.2', '1', '2', '0', '1')]
    um = {'c.1': 'ua', 'c.2': 'ub'}
    rev = ctx.flag('reversed')
    cols = pd.MultiIndex.from_tuples(
        keys[::-1] if rev else keys, names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    s = frame(ctx, grid(ctx, cols, 2, 'v', 0, 50), columns=cols)
    a.damage.ds_model.sample = s
    want = s.copy()
    b = make_assessment(ctx, units=f)
    for x in (a, b):
        x.asset.cmp_units = pd.Series(um, name='Units')

    def load(src):
        if isinstance(src, tuple):
            df, units = src
            for c in cols:
                ctx.check(units.loc[c] == um[c[0]], 'unit stored')
                for i in range(2):
                    ctx.eq(df[c].iloc[i] * f[um[c[0]]], want[c].iloc[i],
                           'stored in user units')
            src = pd.concat([df, units.to_frame().T])
        b.damage.load_sample(src)

    out_of_file(ctx, way, lambda q: a.damage.save_sample(q, save_units=True), load)
    same(ctx, a.damage.ds_model.sample, want, 'sample untouched by saving')
    same(ctx, b.damage.ds_model.sample, want, 'values restored')
    ctx.check(list(b.damage.ds_model.sample.columns.names)
              == ['cmp', 'loc', 'dir', 'uid', 'ds'], 'level names')


@harness('2 realizations x 3 loss columns (2 decision variables, 2 symbolic '
         'units), with and without parameters of other consequences', [{'way': w, 'which': k} for w in ('memory', 'file')
                    for k in ('loss', 'ds')],
         must_reach=('values restored',))
def loss(ctx, way, which):
    f = two(ctx)
    a = make_assessment(ctx, units=f)
    names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
    keys = [('Cost', 'L.1', 'c.1', '1', '1', '1', '0'),
            ('Time', 'L.1', 'c.1', '1', '1', '1', '0'),
            ('Cost', 'L.2', 'c.2', '2', '1', '2', '0')]
    um = {'Cost': 'ua', 'Time': 'ub'}
    cols = col_index(ctx, keys, names)
    s = frame(ctx, grid(ctx, cols, 2, 'v', 0, 50), columns=cols)
    a.loss.ds_model.sample = s
    want = s.copy()
    idx = [('L.1', 'Cost'), ('L.1', 'Time'), ('L.2', 'Cost')]
    # parameters of consequences that never occur
    for k in (('L.2', 'Time'), ('L.9', 'Cost')):
        if ctx.flag(f'parameters of {k} without losses'):
            idx.append(k)
    par = pd.DataFrame(
        [[um[d]] for _, d in idx], index=pd.MultiIndex.from_tuples(idx),
        columns=pd.MultiIndex.from_tuples([('DV', 'Unit')]))
    a.loss.ds_model.loss_params = par
    src_model = a.loss if which == 'loss' else a.loss.ds_model
    b = make_assessment(ctx, units=f)

    def load(src):
        if isinstance(src, tuple):
            df, units = src
            for c in cols:
                ctx.check(units.loc[c] == um[c[0]], 'unit stored')
                for i in range(2):
                    ctx.eq(df[c].iloc[i] * f[um[c[0]]], want[c].iloc[i],
                           'stored in user units')
            src = pd.concat([df, units.to_frame().T])
        r = b.loss.ds_model.load_sample(src)
        ctx.check(r == um, 'unit restored')

    out_of_file(ctx, way, lambda q: src_model.save_sample(q, save_units=True), load)
    same(ctx, a.loss.ds_model.sample, want, 'sample untouched by saving')
    same(ctx, b.loss.ds_model.sample, want, 'values restored')
    ctx.check(list(b.loss.ds_model.sample.columns.names) == names, 'level names')


@harness('loss sample without uids, one place listed twice: 2 realizations x 4 '
         'columns (2 decision variables, 2 symbolic units), columns in two orders',
         [{'first': d} for d in ('Cost', 'Time')], must_reach=('values restored',))
def loss_without_uids(ctx, first):
    f = two(ctx)
    um = {'Cost': 'ua', 'Time': 'ub'}
    dvs = [first, *(d for d in um if d != first)]
    keys = [(d, 'L.1', 'c.1', s, '1', '1') for s, d in
            (('1', dvs[0]), ('1', dvs[1]), ('1', dvs[1]), ('2', dvs[1]))]
    x = grid(ctx, keys, 2, 'v', 0, 50)
    table = pd.concat([pd.DataFrame([[um[k[0]] for k in keys]], index=['Units']),
                       pd.DataFrame(x, dtype=object, index=[0, 1])])
    table.columns = pd.MultiIndex.from_tuples(keys)
    b = make_assessment(ctx, units=f)
    r = b.loss.ds_model.load_sample(table)
    ctx.check(r == um, 'unit restored')
    got = b.loss.ds_model.sample
    uid = [str(keys[:j].count(k)) for j, k in enumerate(keys)]
    full = [(*k, u) for k, u in zip(keys, uid)]
    ctx.check(sorted(tuple(c) for c in got.columns) == sorted(full)
              and list(got.columns.names)
              == ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'],
              'values restored: columns')
    for j, k in enumerate(full):
        for i in range(2):
            ctx.eq(got[k].iloc[i], x[i][j] * f[um[k[0]]], 'values restored')


@harness('losses of damage states and of loss functions saved together: 2 decision '
         'variables with symbolic units, 2 realizations, columns in two orders',
         [{'first': d} for d in ('Cost', 'Time')], must_reach=('stored in user units',))
def combined_losses(ctx, first):
    f = two(ctx)
    a = make_assessment(ctx, units=f)
    um = {'Cost': 'ua', 'Time': 'ub'}
    dvs = [first, *(d for d in um if d != first)]
    names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
    ds = [(d, 'L.1', c, s, '1', '1', '0') for d in dvs for c, s in
          (('c.2', '1'), ('c.1', '2'))]
    lf = [(d, n, n.replace('L', 'c'), loc, '2', '0') for d, n, loc in
          ((dvs[1], 'L.2', '1'), (dvs[0], 'L.3', '2'), (dvs[1], 'L.3', '1'))]
    want = {}
    for m, keys, nm, tag in ((a.loss.ds_model, ds, names, 'd'),
                             (a.loss.lf_model, lf, names[:3] + names[4:], 'l')):
        cols = col_index(ctx, keys, nm)
        m.sample = frame(ctx, grid(ctx, cols, 2, tag, 0, 50), columns=cols)
        for c in cols:
            want[c if tag == 'd' else (*c[:3], 'N/A', *c[3:])] = m.sample[c].copy()
        idx = list(dict.fromkeys((k[1], k[0]) for k in keys))
        if ctx.flag(f'parameters without losses {tag}'):
            idx = list(dict.fromkeys(idx + [(n, d) for n, _ in idx for d in um]))
        m.loss_params = pd.DataFrame(
            [[um[d]] for _, d in idx], index=pd.MultiIndex.from_tuples(idx),
            columns=pd.MultiIndex.from_tuples([('DV', 'Unit')]))
    df, units = a.loss.save_sample(save_units=True)
    ctx.check(sorted(df.columns) == sorted(want) and list(df.columns.names) == names,
              'all losses saved')
    for c, v in want.items():
        ctx.check(units[c] == um[c[0]], 'unit stored')
        for i in range(2):
            ctx.eq(df[c].iloc[i] * f[um[c[0]]], v.iloc[i], 'stored in user units')
