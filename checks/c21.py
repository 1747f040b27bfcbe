"""C21  A loss calculation set up by a configuration is the one described."""

from pathlib import Path

import numpy as np
import pandas as pd
import scipy.stats as st

from checks.c16 import lookup
from checks.c20 import MedianRng, library, quiet, token
from engine.funcs import NORM, exp
from engine.harness import assume_note, harness
from engine.models import frame, make_assessment, patch_grid

assume_note('the consequences of damage, loss functions, aggregation and '
            'combination are those checked in C13-C16')

QNAMES = ['cmp', 'loc', 'dir', 'uid', 'ds']


def assessment(ctx):
    a = make_assessment(
        ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'},
              'EconomiesOfScale': {'AcrossFloors': False,
                                   'AcrossDamageStates': False}},
        cls='DLCalculationAssessment')
    a.options._rng = MedianRng(ctx)
    return a


UNIT = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}


def consequences(rows, unit=UNIT, nds=2):
    """rows: {(component, dv): [median..]}"""
    out = ['ID,Incomplete,Quantity-Unit,DV-Unit,' + ','.join(
        f'DS{i}-Family,DS{i}-Theta_0,DS{i}-Theta_1' for i in range(1, nds + 1))]
    for (c, dv), m in rows.items():
        out.append(f'{c}-{dv},0,1 EA,{unit[dv]},' + ','.join(
            [f',{token(x)},' for x in m] + [',,'] * (nds - len(m))))
    return '\n'.join(out) + '\n'


def state(ctx, a, cmps, damage):
    """damage: list of {(component, ds): quantity}, one per realization."""
    n = len(damage)
    a.demand.sample = pd.DataFrame(
        {('ONE', '0', '1'): [1.0] * n}).rename_axis(columns=['type', 'loc', 'dir'])
    pgs = [(c, '1', '1', '0') for c in cmps] + [
        (c, '0', '1', '0') for c in ('collapse', 'irreparable')]
    cols = pd.MultiIndex.from_tuples(pgs, names=QNAMES[:4])
    a.asset.cmp_sample = frame(ctx, np.ones((n, len(pgs))), columns=cols)
    a.asset.cmp_marginal_params = pd.DataFrame({'Units': ['ea'] * len(pgs)},
                                               index=cols)
    a.asset.cmp_units = pd.Series({p[0]: 'ea' for p in pgs}, name='Units')
    keys = sorted({k for d in damage for k in d})
    where = {p[0]: p for p in pgs}
    a.damage.ds_model.sample = frame(
        ctx, [[d.get(k, 0.0) for k in keys] for d in damage],
        columns=pd.MultiIndex.from_tuples([(*where[c], s) for c, s in keys],
                                          names=QNAMES))


def quantile(ctx, p):
    """Value of a replacement consequence at the draw everything gets."""
    m, fam, t1 = p
    ppf = NORM.ppf if ctx.symbolic else st.norm.ppf
    e = exp if ctx.symbolic else np.exp
    if fam == 'lognormal':
        return m * e(t1 * ppf(MedianRng.u))
    return m


def config(p, unit):
    m, fam, t1 = p
    out = {'Unit': unit, 'Median': m}
    if fam:
        out.update(Distribution=fam, Theta_1=t1)
    return out


METHODS = ['FEMA P-58', 'User Defined', 'Hazus Hurricane', 'None']


@harness('2 components with any consequences, 3 realizations: any damage, collapse, '
         'irreparable damage; replacement consequences with any median and '
         'dispersion, or left to the method; 2-4 decision variables',
         [{'method': m, 'given': g} for m in METHODS
          for g in ('none', 'fixed', 'random', 'cost only')],
         must_reach=('repair', 'replacement'))
def replacement(ctx, method, given):
    a = assessment(ctx)
    dvs = ctx.choice('decision variables', [
        ('Cost', 'Time'), ('Time', 'Cost', 'Energy', 'Carbon'), None])
    used = dvs or ('Cost', 'Time')
    t = {(c, dv): [ctx.real(f'{c}{dv}{i}', 0, 9) for i in range(2)]
         for c in 'AB' for dv in UNIT}
    q = [ctx.real(f'q{i}', 0, 9) for i in range(3)]
    rep = {}
    for dv in UNIT:
        if given == 'none' or (given == 'cost only' and dv != 'Cost'):
            continue
        rep[dv] = (ctx.real('median ' + dv, 1, 900),
                   'lognormal' if given == 'random' else None,
                   ctx.real('beta ' + dv, 0.1, 0.6) if given == 'random' else None)
    state(ctx, a, 'AB', [
        {('A', '1'): q[0], ('A', '2'): q[1], ('B', '2'): q[2], ('B', '0'): 1.0},
        {('collapse', '1'): 1.0, ('A', '1'): np.nan},
        {('irreparable', '1'): 1.0}])
    with library(ctx, {('FEMA P-58', 'consequence_repair.csv'): consequences(t)}):
        got, _ = quiet(
            a.calculate_loss, 'Automatic', None, 'FEMA P-58',
            damage_process_approach=method, decision_variables=dvs,
            **{f'replacement_{dv.lower()}_parameters': config(p, UNIT[dv])
               for dv, p in rep.items()})
    names = {'Cost': 'repair_cost', 'Carbon': 'repair_carbon',
             'Energy': 'repair_energy'}
    cols = [names[dv] for dv in used if dv != 'Time'] + ['repair_time'] * 2
    ctx.check(sorted(c[0] for c in got.columns) == sorted(cols), 'layout')
    for dv in used:
        fix = rep.get(dv)
        if fix is not None:
            worth = quantile(ctx, fix)
        elif method == 'FEMA P-58' or dv in {'Carbon', 'Energy'}:
            worth = 0.0
        else:
            worth = 1.0
        parts = [t['A', dv][0] * q[0] + t['A', dv][1] * q[1], t['B', dv][1] * q[2]]
        if dv == 'Time':
            s, p = got['repair_time', 'sequential'], got['repair_time', 'parallel']
            ctx.eq(s.iloc[0], parts[0] + parts[1], 'repair')
            # both are on the same floor
            ctx.eq(p.iloc[0], parts[0] + parts[1], 'repair')
            res = [s, p]
        else:
            res = [got[names[dv], '']] if (names[dv], '') in got.columns else [
                got[names[dv]]]
            ctx.eq(res[0].iloc[0], parts[0] + parts[1], 'repair')
        for r in res:
            for i in (1, 2):
                ctx.eq(r.iloc[i], worth, 'replacement')


def outcome(ctx, a, cmps, q, lib, *args, **kw):
    """Total repair cost of one realization with the damage q."""
    state(ctx, a, cmps, [q])
    with library(ctx, lib) as d:
        for name, text in kw.pop('files', {}).items():
            Path(d, name).write_text(text)
        args = [x.replace('<DIR>', d) if isinstance(x, str) else x for x in args]
        kw = {k: x.replace('<DIR>', d) if isinstance(x, str) else x
              for k, x in kw.items()}
        return quiet(a.calculate_loss, *args, **kw)[0]


SOURCES = [
    ('FEMA P-58', None),
    ('FEMA P-58', '<DIR>/own.csv'),
    ('None', 'CustomDLDataFolder/own.csv'),
    ('FEMA P-58, Hazus Hurricane', None),
    ('Hazus Hurricane,FEMA P-58', None),
    ('Hazus Hurricane, None, FEMA P-58', 'CustomDLDataFolder/own.csv'),
    ('loss_repair_DB_FEMA_P58_2nd.csv', '<DIR>/own.csv'),
    (np.nan, '<DIR>/own.csv'),
]


@harness('3 consequence tables with any values that share a component, every '
         'combination and order of the sources; automatic or user-defined mapping',
         [{'src': s, 'auto': x} for s in range(len(SOURCES)) for x in (True, False)],
         must_reach=('source',))
def sources(ctx, src, auto):
    a = assessment(ctx)
    db, own = SOURCES[src]
    val = {(t, c): ctx.real(t + c, 0.1, 9) for t in ('p58', 'hh', 'own') for c in 'ABC'}
    tabs = {'p58': 'AB', 'hh': 'AC', 'own': 'AC'}
    text = {t: consequences({(c, 'Cost'): [val[t, c]] for c in cs})
            for t, cs in tabs.items()}
    q = {c: ctx.real('q' + c, 0.1, 9) for c in 'ABC'}
    used = [{'FEMA P-58': 'p58', 'Hazus Hurricane': 'hh', 'None': None}.get(
        x.strip(), 'p58') for x in db.split(',')] if isinstance(db, str) else []
    used = [u for u in used if u] + (['own'] if own else [])
    worth = {}
    for u in used:
        worth.update({c: val[u, c] for c in tabs[u]})
    lmap = dict.fromkeys(worth, 0) if auto else {'A': 'A', 'C': 'A'}
    got = outcome(
        ctx, a, 'ABC', {(c, '1'): x for c, x in q.items()},
        {('FEMA P-58', 'consequence_repair.csv'): text['p58'],
         ('Hazus Hurricane', 'loss_repair.csv'): '',
         ('Hazus Hurricane', 'consequence_repair.csv'): text['hh']},
        'Automatic' if auto else 'User Defined', None, db, own,
        files={'own.csv': text['own'], 'map.csv': ',Repair\nA,A\nC,A\n'},
        custom_model_dir='<DIR>', loss_map_path='CustomDLDataFolder/map.csv',
        damage_process_approach='None', decision_variables=('Cost',))
    want = 0.0
    for c in lmap:
        want = want + q[c] * worth[c if auto else 'A']
    ctx.eq(got['repair_cost'].iloc[0].item() if hasattr(
        got['repair_cost'].iloc[0], 'item') else got['repair_cost'].iloc[0],
        want, 'source')


HAZUS = {'Cost': 'loss_ratio', 'Time': 'day'}


@harness('a building or a lifeline facility of 2 occupancy types, or none, with any '
         'losses and 3 lengths of component names; every damage state, collapse or irreparable damage; replacement time '
         'given or not; consequences from the default table or replaced',
         [{'kind': k, 'own': o} for k in ('Buildings', 'Lifeline Facilities')
          for o in (False, True)],
         must_reach=('loss', 'replacement'))
def hazus(ctx, kind, own):
    a = assessment(ctx)
    cls = {'Buildings': 'STR', 'Lifeline Facilities': 'LF'}[kind]
    rep = ctx.flag('replacement time given')
    occ = ctx.choice('occupancy', ['RES1', 'COM1'] + [None] * rep)
    tail = ctx.choice('archetype', ['.C1', '', '.C1.HC'])
    cmps = [cls + tail, 'NSA' + tail]
    end = f'.{occ}' if occ else ''
    val = {(x + end, dv): [ctx.real(f'{x}{dv}{i}', 0.1, 9) for i in range(5)]
           for x in (cls, 'NSA') for dv in HAZUS} if not occ else {
           (f'{x}.{o}', dv): [ctx.real(f'{x}{o}{dv}{i}', 0.1, 9) for i in range(5)]
           for x in (cls, 'NSA') for o in ('RES1', 'COM1') for dv in HAZUS}
    new = {(cls + end, dv): [ctx.real(f'new{dv}{i}', 0.1, 9) for i in range(5)]
           for dv in HAZUS}
    ds = ctx.choice('state', [1, 3, 5])
    case = ctx.choice('case', ['damage', 'collapse', 'irreparable'])
    damage = {(cmps[0], str(ds)): 1.0, (cmps[1], '2'): 1.0} if (
        case == 'damage') else {(case, '1'): 1.0, (cmps[0], '1'): np.nan}
    rt = ctx.real('replacement time', 0.1, 9)
    # the default methods do not have a library for lifelines
    got = outcome(
        ctx, a, cmps, damage,
        {('Hazus Earthquake - Buildings', 'consequence_repair.csv'):
         consequences(val, HAZUS, 5)},
        'Automatic', occ, 'Hazus Earthquake - Buildings',
        '<DIR>/own.csv' if own else None,
        files={'own.csv': consequences(new, HAZUS, 5)},
        damage_process_approach='Hazus Earthquake - ' + kind,
        decision_variables=('Cost', 'Time'),
        replacement_time_parameters={'Unit': 'day', 'Median': rt} if rep else None)
    val.update(new if own else {})
    x, y = val[cls + end, 'Time'], val['NSA' + end, 'Time']
    c, d = val[cls + end, 'Cost'], val['NSA' + end, 'Cost']
    t = got['repair_time', 'sequential'].iloc[0]
    m = got['repair_cost'].iloc[0]
    m = m.iloc[0] if isinstance(m, pd.Series) else m
    if case == 'damage':
        ctx.eq(t, x[ds - 1] + y[1], 'loss')
        ctx.eq(m, c[ds - 1] + d[1], 'loss')
    else:
        ctx.eq(t, rt if rep else x[4], 'replacement')
        ctx.eq(m, 1.0, 'replacement')


@harness('user-defined loss maps with or without the losses of collapse and '
         'irreparable damage, with any consequences',
         must_reach=('mapped',))
def user_map(ctx):
    a = assessment(ctx)
    v = {c: ctx.real('v' + c, 0.1, 9) for c in 'AB'}
    r = ctx.real('replacement', 10, 99)
    lmap = {'A': 'A', **ctx.choice('map', [
        {}, {'collapse': 'B'}, {'irreparable': 'B'},
        {'collapse': 'B', 'irreparable': 'A'}])}
    case = ctx.choice('case', ['A', 'B', 'collapse', 'irreparable'])
    got = outcome(
        ctx, a, 'AB', {(case, '1'): 1.0},
        {('FEMA P-58', 'consequence_repair.csv'): consequences(
            {(c, 'Cost'): [x] for c, x in v.items()})},
        'User Defined', None, 'FEMA P-58', None,
        files={'map.csv': ',Repair\n' + ''.join(
            f'{k},{x}\n' for k, x in lmap.items())},
        custom_model_dir='<DIR>', loss_map_path='CustomDLDataFolder/map.csv',
        damage_process_approach='FEMA P-58', decision_variables=('Cost',),
        replacement_cost_parameters={'Unit': 'USD_2011', 'Median': r})
    m = got['repair_cost'].iloc[0]
    m = m.iloc[0] if isinstance(m, pd.Series) else m
    lmap = {'collapse': 'replacement', 'irreparable': 'replacement', **lmap}
    ctx.eq(m, {**v, 'replacement': r}[lmap[case]] if case in lmap else 0.0,
           'mapped')


@harness('loss maps from memory or file, or none, in the current or the deprecated '
         'form, with every policy; 5 components',
         [{'p': p} for p in (None, 'fill', 'fill_all')],
         must_reach=('mapping',))
def policies(ctx, p):
    a = assessment(ctx)
    cmps = ['A', 'B', 'C', 'excessiveRID', 'collapse']
    state(ctx, a, [c for c in cmps if c != 'collapse'], [{('A', '1'): 1.0}])
    cmps.append('irreparable')
    rows = {c: v for c, v in (('A', 'A'), ('C', 'X'), ('collapse', 'replacement'),
                              ('Z', 'Z')) if ctx.flag('map ' + c)}
    old = ctx.flag('deprecated form') and bool(rows)
    form = ctx.choice('form', ['none', 'memory', 'file'])
    if form == 'none' or not rows:
        if p is None:
            try:
                quiet(a.loss.add_loss_map, None, None)
            except ValueError:
                ctx.reach('mapping')
                return
            ctx.fail('mapping', 'nothing to map was accepted')
        rows = {}
        quiet(a.loss.add_loss_map, None, p)
    else:
        names = [('DMG-' if old else '') + c for c in rows]
        df = pd.DataFrame({'Repair': list(rows.values())}, index=names)
        if form == 'file':
            import tempfile

            with tempfile.TemporaryDirectory() as d:
                df.to_csv(Path(d, 'm.csv'))
                quiet(a.loss.add_loss_map, str(Path(d, 'm.csv')), p)
        else:
            before = df.copy()
            quiet(a.loss.add_loss_map, df, p)
            ctx.check(df.equals(before), 'input untouched')
    got = a.loss._loss_map['Repair'].to_dict()
    want = dict(rows)
    if p:
        for c in cmps:
            if c not in want and (p == 'fill_all' or c != 'excessiveRID'):
                want[c] = c
    ctx.check(got == want, 'mapping', f'{got}')
    for m in (a.loss.ds_model, a.loss.lf_model):
        ctx.check(m.loss_map['Repair'].to_dict() == want, 'mapping')


@harness('2 hurricane components with any losses below 1, 3 x 3 table of a '
         'combination with any values, wind mapped before flood or after',
         must_reach=('combined',))
def combination(ctx):
    a = assessment(ctx)
    patch_grid(ctx)
    v = [ctx.real(f'v{i}', 0.01, 0.99) for i in range(2)]
    w = [[0.0, 0.5, 1.0], [0.5, None, None], [1.0, None, None]]
    for i in (1, 2):
        for j in (1, 2):
            w[i][j] = ctx.real(f'w{i}{j}', 0.1, 1)
    text = ''.join(','.join(map(token, r)) + '\n' for r in w)
    names = ctx.choice('order', [['wind', 'flood'], ['flood', 'wind']])
    used = ctx.flag('combined')
    got = outcome(
        ctx, a, ['wind', 'flood'], {('wind', '1'): 1.0, ('flood', '1'): 1.0},
        {('Hazus Hurricane', 'consequence_repair.csv'): consequences(
            {('wind', 'Cost'): [v[0]], ('flood', 'Cost'): [v[1]]},
            {'Cost': 'loss_ratio'}),
         ('Hazus Hurricane', 'loss_repair.csv'): '',
         ('Hazus Hurricane Wind', 'combine_wind_flood.csv'): text},
        'User Defined', None, 'Hazus Hurricane', None,
        files={'map.csv': ',Repair\n' + ''.join(f'{c},{c}\n' for c in names)},
        custom_model_dir='<DIR>', loss_map_path='CustomDLDataFolder/map.csv',
        damage_process_approach='None', decision_variables=('Cost',),
        loss_combination_method='Hazus Hurricane' if used else None)
    m = got['repair_cost'].iloc[0]
    m = m.iloc[0] if isinstance(m, pd.Series) else m
    x = v if names[0] == 'wind' else v[::-1]
    ctx.eq(m, lookup([(0.0, 0.5, 1.0)] * 2, np.array(w, dtype=object), x)
           if used else v[0] + v[1], 'combined')


@harness('assets without any damage or without any component in the loss map, '
         '1-3 realizations, replacement thresholds or not',
         [{'what': w} for w in ('no damage', 'not mapped')],
         must_reach=('no losses',))
def no_losses(ctx, what):
    from pelicun import uq

    a = assessment(ctx)
    n = ctx.choice('realizations', [1, 3])
    dvs = ctx.choice('decision variables', [('Cost',), ('Cost', 'Time'),
                                            ('Energy', 'Carbon')])
    v = {(c, dv): [ctx.real(c + dv, 0.1, 9)] for c in 'AB' for dv in UNIT}
    state(ctx, a, 'AB', [{('A', '0' if what == 'no damage' else '1'): 1.0}] * n)
    with library(ctx, {('FEMA P-58', 'consequence_repair.csv'): consequences(v)}) as d:
        Path(d, 'map.csv').write_text(',Repair\n' + (
            'A,A\nB,B\n' if what == 'no damage' else 'B,B\n'))
        got, exceeds = quiet(
            a.calculate_loss, 'User Defined', None, 'FEMA P-58', None, d,
            'FEMA P-58', loss_map_path='CustomDLDataFolder/map.csv',
            decision_variables=dvs)
    want = {f'repair_{dv.lower()}' for dv in dvs if dv != 'Time'} | {
        'repair_time' for dv in dvs if dv == 'Time'}
    ctx.check({c[0] if isinstance(c, tuple) else c for c in got.columns} == want,
              'no losses', f'{got.columns}')
    ctx.check(got.shape[0] == exceeds.shape[0] == n, 'no losses')
    for x in got.to_numpy().ravel():
        ctx.eq(x, 0.0, 'no losses')
    reg = uq.RandomVariableRegistry(MedianRng(ctx))
    for dv in dvs:
        reg.add_RV(uq.DeterministicRandomVariable(
            name=dv, theta=np.array([ctx.real('t' + dv, 1, 9)])))
    got, exceeds = quiet(a.loss.aggregate_losses,
                         (reg, {dv: ctx.real('r' + dv, 0.1, 1) for dv in dvs}),
                         future=True)
    ctx.check(got.shape[0] == exceeds.shape[0] == n, 'no losses')
    ctx.check(set(exceeds.columns) <= set(dvs) and not exceeds.to_numpy().any(),
              'no losses', 'thresholds are not exceeded')


LEGACY = {
    'FEMA_P58_2nd': 'FEMA P-58',
    'Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
    'Hazus_EQ_story': 'Hazus Earthquake - Stories',
    'Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
    'Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
    'Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
    'SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
}


@harness('every documented legacy name of a default database, with any other paths '
         'around it', must_reach=('known',))
def names(ctx):
    from pelicun import file_io

    kind = ctx.choice('kind', ['damage', 'loss_repair'])
    known = {k: v for k, v in LEGACY.items() if kind == 'damage' or not k.endswith(
        ('water', 'power'))}
    old = ctx.choice('name', sorted(known))
    before = ctx.choice('before', [[], ['/a/b.csv'], ['PelicunDefault/FEMA P-58/x.csv']])
    after = ctx.choice('after', [[], ['PelicunDefault/Hazus Hurricane/y.json']])
    new = 'fragility' if kind == 'damage' else 'consequence_repair'
    got = quiet(file_io.substitute_default_path, [
        *before, f'PelicunDefault/{kind}_DB_{old}.csv', *after])
    want = quiet(file_io.substitute_default_path, [
        *before, f'PelicunDefault/{LEGACY[old]}/{new}.csv', *after])
    ctx.check(got == want, 'known', f'{got}')
    ctx.check(Path(got[len(before)]).name == new + '.csv', 'known')
    ctx.check(got[0] == '/a/b.csv' or before[:1] != ['/a/b.csv'], 'known')
