"""C20  A damage calculation set up by a configuration is the one described."""

import contextlib
import io
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
import scipy.stats as st

from engine.dists import Rng
from engine.funcs import NORM, exp, log
from engine.harness import assume_note, harness
from engine.models import make_assessment

assume_note('the stages the calculation runs (fitting, sampling, damage states, '
            'damage processes) are those checked in C01-C19')

N3 = ['type', 'loc', 'dir']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


class NormalRng(Rng):
    """Also hands out normal deviations."""

    def normal(self, loc=0.0, scale=1.0, size=None, **k):
        nm = self._next('normal')
        self.calls.append(('normal', scale))
        shape = tuple(np.atleast_1d(size).tolist())
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            t = nm + '_'.join(map(str, i))
            z = self._memo(t, lambda t=t: self.ctx.real(t, -4, 4))
            out[i] = loc + z * scale
        return out if self.ctx.symbolic else out.astype(float)


def token(x):
    return f'{x}'


def assessment(ctx, **k):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
                        cls='DLCalculationAssessment', **k)
    a.options._rng = NormalRng(ctx)
    return a


# peak demands and how many units of the demand a length unit makes
PEAK = {'PFA': 'ps2', 'PGA': 'ps2', 'SA_0.5': 'ps2', 'PFV': 'ps', 'PGV': 'ps',
        'PWS': 'ps', 'SV_1.0': 'ps', 'PFD': '', 'PGD': '', 'PIH': '', 'SD_1.0': '',
        'PID': None, 'PRD': None, 'DWD': None, 'RDR': None, 'PMD': None,
        'RID': None}


def write(d, table, units=None):
    """table: {column: [values]}"""
    p = Path(d, 'response.csv')
    n = len(next(iter(table.values())))
    rows = [','.join(['', *table])]
    if units:
        rows.append(','.join(['Units', *[units[c] for c in table]]))
    rows += [','.join([str(i), *[token(v[i]) for v in table.values()]])
             for i in range(n)]
    p.write_text('\n'.join(rows) + '\n')
    return str(p)


@harness('3 realizations of 3 demands with any values and an optional collapse limit '
         'with any value (2 realizations for 2 limits); with or without event ids and units in the file; '
         'columns in several orders; coupled demands, 4 realizations',
         [{'event': e, 'units': u} for e in (False, True) for u in (False, True)],
         must_reach=('kept realization', 'layout'))
def demands(ctx, event, units):
    a = assessment(ctx)
    cols = ctx.choice('columns', [
        ('PFA-0-1', 'PID-2-1', 'PID-10-1'), ('PID-2-1', 'PFA-0-1', 'PID-1-2')])
    types = ctx.choice('limits', [(), ('PID',), ('PID', 'PFA'), ('PFA', 'PID')])
    n = 2 if len(types) > 1 else 3
    v = [[ctx.real(f'v{i}{j}', 0.001, 9) for j in range(3)] for i in range(n)]
    table = {('1-' if event else '') + c: [v[i][j] for i in range(n)]
             for j, c in enumerate(cols)}
    un = {k: 'g' if 'PFA' in k else 'rad' for k in table} if units else None
    limit = {t: ctx.real(f'limit of {t}', 0.5, 8) for t in types}
    lim = {t: token(x) for t, x in limit.items()}
    keep = [i for i in range(n)
            if not any(bool(v[i][j] > limit[c.split('-')[0]])
                       for j, c in enumerate(cols) if c.split('-')[0] in limit)]
    if not keep:
        return
    with tempfile.TemporaryDirectory() as d:
        quiet(a.calculate_demand, write(d, table, un), lim, 'mm' if units else 'm',
              None, 4, None, None, coupled_demands=True)
    out, got = quiet(a.demand.save_sample, save_units=True)
    want = {tuple(c.split('-')) for c in cols} | {('ONE', '0', '1')}
    ctx.check({tuple(c) for c in out.columns} == want and len(out) == 4
              and list(out.columns.names) == N3, 'layout')
    for i in range(4):
        ctx.eq(out['ONE', '0', '1'].iloc[i], 1.0, 'one')
        for j, c in enumerate(cols):
            ctx.eq(out[tuple(c.split('-'))].iloc[i], v[keep[i % len(keep)]][j],
                   'kept realization')
    ctx.check(got['ONE', '0', '1'] == 'unitless', 'units')
    for c in cols:
        u = ('g' if 'PFA' in c else 'rad') if units else (
            'mps2' if 'PFA' in c else 'unitless')
        ctx.check(got[tuple(c.split('-'))] == u, 'units')
        ctx.eq(a.demand.sample[tuple(c.split('-'))].iloc[0],
               v[keep[0]][cols.index(c)] * a.unit_conversion_factors[u], 'units')


@harness('one realization of 17 types of demands with any values and no units, every '
         'length unit with any conversion factor; with or without event ids',
         [{'event': e, 'lu': u} for e in (False, True) for u in ('m', 'in', 'ft')],
         must_reach=('inferred unit', 'value'))
def inferred_units(ctx, event, lu):
    name = {'in': 'inch'}.get(lu, lu)
    fac = {name + s: ctx.real('f' + s, 0.01, 100) for s in ('', 'ps', 'ps2')}
    a = assessment(ctx, units=fac)
    v = {c: ctx.real(c, 0.001, 9) for c in PEAK}
    table = {('1-' if event else '') + c + '-1-1': [x, 1.0] for c, x in v.items()}
    with tempfile.TemporaryDirectory() as d:
        quiet(a.calculate_demand, write(d, table), None, lu, None, 2, None, None,
              coupled_demands=True)
    for c, s in PEAK.items():
        u = 'unitless' if s is None else name + s
        ctx.check(a.demand.user_units[c, '1', '1'] == u, 'inferred unit')
        ctx.eq(a.demand.sample[c, '1', '1'].iloc[0],
               v[c] * (1.0 if s is None else fac[u]), 'value')
    ctx.check(a.demand.sample.shape == (2, 18), 'value')


@harness('residual drifts of 2 directions inferred from any peak drifts, yield '
         'drifts and deviations; the configuration is used twice',
         must_reach=('residual drift', 'same configuration'))
def residual(ctx):
    cols = ('PFA-1-1', 'PID-1-1', 'PID-1-2')
    v = [ctx.real(f'v{j}', 0.001, 0.2) for j in range(3)]
    y = [ctx.real(f'y{j}', 0.001, 0.05) for j in range(2)]
    dirs = ctx.choice('directions', [(1, 2), (2, 1), (2,)])
    config = {'method': 'FEMA P-58', **{str(k): token(y[k - 1]) for k in dirs}}
    before = dict(config)
    with tempfile.TemporaryDirectory() as d:
        p = write(d, {c: [v[j]] for j, c in enumerate(cols)})
        a = assessment(ctx)
        rng = a.options._rng
        quiet(a.calculate_demand, p, None, 'm', None, 1, None, config,
              coupled_demands=True)
    ctx.check(config == before, 'same configuration')
    out = quiet(a.demand.save_sample)
    ctx.check({tuple(c) for c in out.columns} == {
        *[tuple(c.split('-')) for c in cols], ('ONE', '0', '1'),
        *[('RID', '1', str(k)) for k in dirs]}, 'layout')
    for j, c in enumerate(cols):
        ctx.eq(out[tuple(c.split('-'))].iloc[0], v[j], 'other demands')
    z = [x for k, x in rng.memo.items() if 'normal' in k]
    ctx.check(len(z) == len(dirs), 'deviation')
    for k, e in zip(dirs, z):
        p, yi, r = v[k], y[k - 1], out['RID', '1', str(k)].iloc[0]
        if bool(p < yi):
            ctx.eq(r, 0.0, 'residual drift')
            continue
        m = 0.3 * (p - yi) if bool(p < 4 * yi) else p - 3 * yi
        if not bool(m > 0):
            ctx.eq(r, 0.0, 'residual drift')
            continue
        e = 0.2 * e
        w = exp(log(m) + e) if ctx.symbolic else m * np.exp(e)
        ctx.eq(r, w if bool(w < p) else p, 'residual drift')


class MedianRng(Rng):
    """Hands out the same draw every time."""

    u = 0.8

    def random(self, size=None, **k):
        self.calls.append(('random', size))
        return self.u if size is None else np.full(size, self.u)


@contextlib.contextmanager
def library(ctx, files):
    """A default model library with the given tables."""
    import json
    import shutil

    from pelicun import base

    src = Path(base.pelicun_path)
    with tempfile.TemporaryDirectory() as d:
        Path(d, 'resources').mkdir()
        shutil.copy(src / 'resources/dlml_resource_paths.json', Path(d, 'resources'))
        shutil.copytree(src / 'settings', Path(d, 'settings'))
        where = json.loads((src / 'resources/dlml_resource_paths.json').read_text())
        for (method, f), text in files.items():
            p = Path(d, 'resources/DamageAndLossModelLibrary', where[method], f)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
        ctx.patch(base, 'pelicun_path', Path(d))
        try:
            yield d
        finally:
            base.pelicun_path = src


def fragility(rows):
    """rows: {component: (demand type, unit, [median..])}"""
    head = ('ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional,'
            + ','.join(f'LS{i}-Family,LS{i}-Theta_0,LS{i}-Theta_1,'
                       f'LS{i}-DamageStateWeights' for i in range(1, 6)))
    out = [head]
    for c, (t, u, m) in rows.items():
        ls = [f',{token(x)},,' for x in m] + [',,,'] * (5 - len(m))
        out.append(f'{c},0,{t},{u},0,1,' + ','.join(ls))
    return '\n'.join(out) + '\n'


def components(rows):
    return '\n'.join([',Units,Location,Direction,Theta_0'] + [
        f'{c},ea,{lo},{d},{token(q)}' for c, (lo, d, q) in rows.items()]) + '\n'


EDPS = [('PFA', '0', '1'), ('PFA', '1', '1'), ('PID', '1', '1'), ('PID', '2', '1'),
        ('SA_0.5', '0', '1'), ('RID', '1', '1'), ('RID', '2', '1'),
        ('ONE', '0', '1')]


def demand_sample(ctx, a, values, units):
    a.demand.sample = pd.DataFrame(
        [[values.get(e, 1.0) for e in EDPS]], dtype=object,
        columns=pd.MultiIndex.from_tuples(EDPS, names=N3))
    if not ctx.symbolic:
        a.demand.sample = a.demand.sample.astype(float)
    a.demand.user_units = pd.Series(
        [units.get(e[0], 'unitless') for e in EDPS], name='Units',
        index=a.demand.sample.columns)


def count(out, key):
    """Damaged quantity; absent and missing are told apart from 0."""
    if key not in out.columns:
        return None
    return out[key].iloc[0]


@harness('a collapse and an irreparable-damage fragility of any median and '
         'dispersion, demands of any value at 2 places each, one ordinary '
         'component; every damage process setting; 1 realization',
         [{'driver': d, 'proc': p} for d in ('PID', 'PFA', 'SA_0.5', 'fixed PID', None)
          for p in ('FEMA P-58', 'None', None)]
         + [{'driver': 'PID', 'proc': p} for p in (
             'User Defined', 'Hazus Earthquake - Buildings')],
         must_reach=('component',))
def special(ctx, driver, proc):
    a = make_assessment(
        ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
        cls='DLCalculationAssessment',
        units={'ftps2': ctx.real('fac', 0.1, 10)})
    a.options._rng = MedianRng(ctx)
    fixed = driver and driver.startswith('fixed')
    driver = driver and driver.split()[-1]
    v, edp, k = {}, driver and driver.split('_')[0], 1.0
    for e in EDPS:
        if e[0] in {driver, 'RID'}:
            v[e] = ctx.real('-'.join(e), 0.01, 9)
    if edp in {'PFA', 'SA'}:
        k = a.unit_conversion_factors['ftps2']
    ordinary = ctx.real('ordinary', 0.01, 9) if driver != 'PFA' else None
    if ordinary is not None:
        v['PFA', '1', '1'] = v['PFA', '0', '1'] = ordinary
    demand_sample(ctx, a, v, {'PFA': 'ftps2', 'SA_0.5': 'ftps2'})
    m, b = ctx.real('median', 0.1, 8), ctx.real('beta', 0.01, 0.9)
    mr, br = ctx.real('median rid', 0.1, 8), ctx.real('beta rid', 0.01, 0.9)
    coll = driver and {'DemandType': driver, 'CapacityMedian': m,
                       'CapacityDistribution': 'deterministic' if fixed
                       else 'lognormal', 'Theta_1': 'N/A' if fixed else b}
    q, cap = ctx.real('quantity', 0.1, 9), ctx.real('capacity', 0.1, 8)
    hazus = bool(proc) and proc.startswith('Hazus')
    name = 'STR.X' if hazus else 'A'
    frag = fragility({name: ('Peak Floor Acceleration', 'mps2',
                             [cap, 10, 11, 12, 13] if hazus else [cap])})
    with library(ctx, {('FEMA P-58', 'fragility.csv'): frag}) as d:
        Path(d, 'c.csv').write_text(components({name: (1, 1, q)}))
        Path(d, 'p.json').write_text('{"1_excessiveRID": {"DS1": "collapse_DS1"}}')
        quiet(a.calculate_asset, 2, str(Path(d, 'c.csv')), driver, None,
              add_irreparable_damage_columns=True)
        cs = quiet(a.asset.save_cmp_sample)
        quiet(a.calculate_damage, 'ft', 'FEMA P-58', None, coll,
              {'DriftCapacityMedian': mr, 'DriftCapacityLogStd': br}, proc,
              str(Path(d, 'p.json')) if proc == 'User Defined' else None)
    # the components
    own = driver and driver != 'SA_0.5'
    at = {(name, '1', '1'): q, ('collapse', '0', '1'): 1.0,
          ('irreparable', '0', '1'): 1.0,
          **{('excessiveRID', x, '1'): 1.0 for x in '12'}}
    if own:
        at.update({('excessive.coll.DEM', e[1], '1'): 1.0
                   for e in EDPS if e[0] == driver})
    ctx.check({tuple(c)[:3] for c in cs.columns} == set(at)
              and cs.shape == (1, len(at)), 'component')
    for c in cs.columns:
        ctx.eq(cs[c].iloc[0], at[tuple(c)[:3]], 'component')
    # what happens
    z = NORM.ppf(MedianRng.u) if ctx.symbolic else st.norm.ppf(MedianRng.u)

    def exceeds(x, med, disp):
        w = exp(log(med) + disp * z) if ctx.symbolic else np.exp(
            np.log(med) + disp * z)
        return bool(x > w)

    hit = {}
    for e in EDPS:
        if e[0] == driver:
            hit[e] = (bool(v[e] > m * k) if fixed
                      else exceeds(v[e], m * k, b))
    rid = {e: exceeds(v[e], mr, br) for e in EDPS if e[0] == 'RID'}
    down, gone = any(hit.values()), any(rid.values())
    x = ordinary if ordinary is not None else v['PFA', '0', '1']
    hurt = bool(x > cap)
    spread = proc in {'FEMA P-58', 'Hazus Earthquake - Buildings'}
    if proc == 'Hazus Earthquake - Buildings':
        down = down or bool(x > 13)
    falls = down if spread else (gone if proc == 'User Defined'
                                 else down and not own)
    out = quiet(a.damage.save_sample)
    lost = spread and (down or gone)

    def expect(key, yes, n, label, none=False):
        """n units in the state `yes`, or none of them anywhere."""
        for s in ('0', '1'):
            g = count(out, (*key, '0', s))
            if none:
                ctx.check(g is None or pd.isna(g), label)
            elif s == yes:
                ctx.eq(g, n, label)
            else:
                ctx.check(g is None or bool(g == 0), label)

    irr = spread and gone and not down
    expect(('collapse', '0', '1'), '1' if falls else '0', 1.0, 'collapse')
    expect(('irreparable', '0', '1'), '1' if irr else '0', 1.0, 'irreparable',
           none=spread and down)
    for e, h in rid.items():
        expect(('excessiveRID', *e[1:]), '1' if h else '0', 1.0, 'drift', none=lost)
    if own:
        for e, h in hit.items():
            expect(('excessive.coll.DEM', *e[1:]), '1' if h else '0', 1.0,
                   'driver', none=lost)
    if hazus and not lost:
        return
    expect((name, '1', '1'), '1' if hurt else '0', q, 'ordinary', none=lost)


SOURCES = [
    ('FEMA P-58', None),
    ('FEMA P-58', '<DIR>/own.csv'),
    ('None', 'CustomDLDataFolder/own.csv'),
    ('FEMA P-58, Hazus Earthquake - Stories', None),
    ('Hazus Earthquake - Stories,FEMA P-58', None),
    ('Hazus Earthquake - Stories, None, FEMA P-58', 'CustomDLDataFolder/own.csv'),
    ('damage_DB_FEMA_P58_2nd.csv', '<DIR>/own.csv'),
    (np.nan, '<DIR>/own.csv'),
]


@harness('3 fragility tables with any capacities that share a component, every '
         'combination and order of the sources; 2 components; any demand',
         [{'src': s} for s in range(len(SOURCES))], must_reach=('source',))
def sources(ctx, src):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
                        cls='DLCalculationAssessment')
    a.options._rng = MedianRng(ctx)
    db, own = SOURCES[src]
    cap = {(t, c): ctx.real(t + c, 0.1, 8) for t in ('p58', 'st', 'own') for c in 'ABC'}
    tabs = {'p58': 'AB', 'st': 'AC', 'own': 'AC'}
    text = {t: fragility({c: ('Peak Floor Acceleration', 'mps2', [cap[t, c]])
                          for c in cs}) for t, cs in tabs.items()}
    used = [{'FEMA P-58': 'p58', 'Hazus Earthquake - Stories': 'st', 'None': None}.get(
        x.strip(), 'p58') for x in db.split(',')] if isinstance(db, str) else []
    used = [u for u in used if u] + (['own'] if own else [])
    # tables that come later replace those that come earlier
    have = {}
    for u in used:
        have.update({c: cap[u, c] for c in tabs[u]})
    x = ctx.real('demand', 0.01, 9)
    demand_sample(ctx, a, {('PFA', '0', '1'): x, ('PFA', '1', '1'): x},
                  {'PFA': 'mps2'})
    q = {c: ctx.real('q' + c, 0.1, 9) for c in have}
    with library(ctx, {
            ('FEMA P-58', 'fragility.csv'): text['p58'],
            ('Hazus Earthquake - Stories', 'fragility.csv'): text['st']}) as d:
        Path(d, 'c.csv').write_text(components({c: (1, 1, q[c]) for c in have}))
        Path(d, 'own.csv').write_text(text['own'])
        quiet(a.calculate_asset, 2, str(Path(d, 'c.csv')), None, None,
              add_irreparable_damage_columns=False)
        quiet(a.calculate_damage, 'm', db, own and own.replace('<DIR>', d), None,
              None, 'None', None, d)
    out = quiet(a.damage.save_sample)
    for c, w in have.items():
        hurt = bool(x > w)
        for s, yes in (('1', hurt), ('0', not hurt)):
            g = count(out, (c, '1', '1', '0', s))
            if yes:
                ctx.eq(g, q[c], 'source')
            else:
                ctx.check(g is None or bool(g == 0), 'source')


@harness('drivers of collapse and irreparable damage at 2 places in 2 directions, any '
         'value of the demand in one place and direction of each, any limit',
         [{'driver': d, 'proc': p} for d in ('PID', 'PFA')
          for p in ('FEMA P-58', 'None')], must_reach=('driver', 'drift'))
def directions(ctx, driver, proc):
    a = make_assessment(
        ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
        cls='DLCalculationAssessment')
    a.options._rng = MedianRng(ctx)
    dirs = ctx.choice('directions', [('1', '2'), ('2', '3')])
    locs = {'PID': ('1', '2'), 'RID': ('1', '2'), 'PFA': ('0', '2')}
    at = [(t, lo, d) for t in (driver, 'RID') for lo in locs[t] for d in dirs]
    x, r = ctx.real('demand', 0.01, 9), ctx.real('residual', 0.01, 9)
    here, there = (ctx.choice(f'place of {t}', [e for e in at if e[0] == t])
                   for t in (driver, 'RID'))
    edps = [*at, *([('PFA', '1', '1')] if driver == 'PID' else []), ('ONE', '0', '1')]
    v = {here: x, there: r}
    a.demand.sample = pd.DataFrame(
        [[1.0 if e[0] in {'ONE'} else v.get(e, 1e-6) for e in edps]], dtype=object,
        columns=pd.MultiIndex.from_tuples(edps, names=N3))
    if not ctx.symbolic:
        a.demand.sample = a.demand.sample.astype(float)
    a.demand.user_units = pd.Series(
        ['mps2' if e[0] == 'PFA' else 'unitless' for e in edps], name='Units',
        index=a.demand.sample.columns)
    m, mr, br = (ctx.real('median', 0.1, 8), ctx.real('median rid', 0.1, 8),
                 ctx.real('beta rid', 0.01, 0.9))
    with library(ctx, {('FEMA P-58', 'fragility.csv'): fragility(
            {'A': ('One', 'unitless', [2])})}) as d:
        Path(d, 'c.csv').write_text(components({'A': (0, 1, 1.0)}))
        quiet(a.calculate_asset, 2, str(Path(d, 'c.csv')), driver, None,
              add_irreparable_damage_columns=True)
        quiet(a.calculate_damage, 'm', 'FEMA P-58', None,
              {'DemandType': driver, 'CapacityMedian': m, 'Theta_1': 'N/A',
               'CapacityDistribution': 'deterministic'},
              {'DriftCapacityMedian': mr, 'DriftCapacityLogStd': br}, proc, None)
    out = quiet(a.damage.save_sample)
    z = NORM.ppf(MedianRng.u) if ctx.symbolic else st.norm.ppf(MedianRng.u)
    down = bool(x > m)
    gone = bool(r > (exp(log(mr) + br * z) if ctx.symbolic
                     else np.exp(np.log(mr) + br * z)))
    lost = proc == 'FEMA P-58' and (down or gone)

    def expect(key, yes, label, none=False):
        for s in '01':
            g = count(out, (*key, '0', s))
            if none:
                ctx.check(g is None or pd.isna(g), label)
            elif s == '01'[yes]:
                ctx.eq(g, 1.0, label)
            else:
                ctx.check(g is None or bool(g == 0), label)

    for e in at:
        if e[0] == driver:
            expect(('excessive.coll.DEM', *e[1:]), e == here and down, 'driver', lost)
        if e[0] == 'RID':
            expect(('excessiveRID', *e[1:]), e == there and gone, 'drift', lost)
    used = proc == 'FEMA P-58'
    expect(('collapse', '0', '1'), used and down, 'collapse')
    expect(('irreparable', '0', '1'), used and gone and not down, 'irreparable',
           used and down)
    expect(('A', '0', '1'), False, 'ordinary', lost)


@harness('Hazus buildings and facilities of 3 or 4 components in every order and with '
         'any capacities; any demand; capacities of one component scaled by any '
         'factor; every damage process',
         [{'kind': k, 'proc': p} for k in ('STR', 'LF')
          for p in (True, 'None', None, 'User Defined')], must_reach=('component',))
def classes(ctx, kind, proc):
    a = make_assessment(
        ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
        cls='DLCalculationAssessment')
    a.options._rng = MedianRng(ctx)
    approach = proc if proc is not True else 'Hazus Earthquake - ' + {
        'STR': 'Buildings', 'LF': 'Lifeline Facilities'}[kind]
    main = ctx.choice('main component', [kind + '.W1', kind + '.C1.HC'])
    other = ctx.choice('others', [('A.B', 'NSA.W1'), ('ASTRA', 'NSA.W1', 'Z.1')])
    x, cap = ctx.real('demand', 0.01, 9), ctx.real('capacity', 0.1, 8)
    k = ctx.real('scale', 0.5, 2)
    target = ctx.choice('scaled', [None, main, other[0]])
    c2 = ctx.real('capacity of the others', 0.1, 8)
    demand_sample(ctx, a, {('PFA', '1', '1'): x, ('PFA', '0', '1'): x},
                  {'PFA': 'mps2'})
    frag = fragility({main: ('Peak Floor Acceleration', 'mps2',
                             [cap * w for w in (0.1, 0.2, 0.3, 0.4, 1.0)]),
                      **{c: ('Peak Floor Acceleration', 'mps2', [c2]) for c in other}})
    ls = {f'LS{i}': '*' + token(k) for i in range(1, 6 if target == main else 2)}
    with library(ctx, {('Hazus Earthquake - Buildings', 'fragility.csv'): frag,
                       ('FEMA P-58', 'fragility.csv'): fragility({})}) as d:
        Path(d, 'c.csv').write_text(components(
            {c: (1, 1, 1.0) for c in (*other, main)}))
        Path(d, 'p.json').write_text('{"1_%s": {"DS1": "%s_NA"}}' % other[:2])
        quiet(a.calculate_asset, 2, str(Path(d, 'c.csv')), None, None,
              add_irreparable_damage_columns=False)
        quiet(a.calculate_damage, 'm', 'Hazus Earthquake - Buildings', None, None,
              None, approach, str(Path(d, 'p.json')) if proc == 'User Defined' else None,
              scaling_specification={f'{target}-1-1': ls} if target else None)
    out = quiet(a.damage.save_sample)
    f = lambda c: k if c == target else 1.0  # noqa: E731
    state = sum(bool(x > cap * w * f(main)) for w in (0.1, 0.2, 0.3, 0.4, 1.0))
    hurt = {c: bool(x > c2 * f(c)) for c in other}
    falls = proc is True and state == 5
    for c in (main, *other):
        want = str(state if c == main else int(hurt[c]))
        none = falls or (proc == 'User Defined' and c == other[1] and hurt[other[0]])
        for s in '012345':
            g = count(out, (c, '1', '1', '0', s))
            if none:
                ctx.check(g is None or pd.isna(g), 'component')
            elif s == want:
                ctx.eq(g, 1.0, 'component')
            else:
                ctx.check(g is None or bool(g == 0), 'component')
    for s in '01':
        g = count(out, ('collapse', '0', '1', '0', s))
        if s == '01'[falls]:
            ctx.eq(g, 1.0, 'component')
        else:
            ctx.check(g is None or bool(g == 0), 'component')


@harness('a water network with any peak ground velocity, one pipe and the aggregate '
         'results; any quantity and capacity', must_reach=('pipe',))
def water(ctx):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
                        cls='DLCalculationAssessment')
    a.options._rng = MedianRng(ctx)
    cols = [('PGV', '1', '1'), ('PGV', '2', '1'), ('ONE', '0', '1')]
    v = [ctx.real(f'pgv{i}', 0.01, 9) for i in range(2)]
    a.demand.sample = pd.DataFrame(
        [[*v, 1.0]], dtype=object if ctx.symbolic else float,
        columns=pd.MultiIndex.from_tuples(cols, names=N3))
    a.demand.user_units = pd.Series(['mps', 'mps', 'unitless'], name='Units',
                                    index=a.demand.sample.columns)
    q, cap = ctx.real('quantity', 0.1, 9), ctx.real('capacity', 0.1, 8)
    with library(ctx, {
            ('FEMA P-58', 'fragility.csv'): fragility({}),
            ('Hazus Earthquake - Potable Water', 'fragility.csv'): fragility(
                {'PWP': ('Peak Ground Velocity', 'mps', [cap])})}) as d:
        Path(d, 'c.csv').write_text(components(
            {'PWP': (2, 1, q), 'aggregate': (1, 1, 1.0)}))
        quiet(a.calculate_asset, 2, str(Path(d, 'c.csv')), None, None,
              add_irreparable_damage_columns=False)
        quiet(a.calculate_damage, 'm', 'Hazus Earthquake - Potable Water', None, None,
              None, 'None', None, None, is_for_water_network_assessment=True)
    out = quiet(a.damage.save_sample)
    ctx.check(set(out.columns.get_level_values('cmp')) == {'PWP', 'aggregate'}, 'pipe')
    hurt = bool(v[1] > cap)
    for s in ('0', '1'):
        g = count(out, ('PWP', '2', '1', '0', s))
        if s == '01'[hurt]:
            ctx.eq(g, q, 'pipe')
        else:
            ctx.check(g is None or bool(g == 0), 'pipe')
    ctx.eq(count(out, ('aggregate', '1', '1', '0', '0')), 1.0, 'aggregate')


class ChainRng(MedianRng):
    def normal(self, loc=0.0, scale=1.0, size=None, **k):
        return np.full(np.atleast_1d(size).tolist(), loc + 0.5 * scale)


@harness('the three steps of a whole assessment: 3 demands with any medians and '
         'dispersions, residual drift, an additional intensity, 3 components with '
         'any quantity, capacity and consequences, a damage process, scaled '
         'capacities; 2 realizations in blocks of 1 or 1000',
         [{'opt': o} for o in ('all', 'none', 'process', 'scaling')],
         must_reach=('cost',))
def chain(ctx, opt):
    a = make_assessment(
        ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'},
              'DemandOffset': {'PFA': 0}}, cls='Assessment',
        units={'g': ctx.real('g', 1, 10)})
    a.options._rng = ChainRng(ctx)
    proc, scaled = opt in {'all', 'process'}, opt in {'all', 'scaling'}
    big = opt == 'all'
    edps = ['PFA-1-1', 'PID-1-1']
    m, s = ([ctx.real(f'{k}{i}', lo, hi) for i in range(2)]
            for k, lo, hi in (('mu', 0.1, 5), ('cov', 0.01, 0.3)))
    im, y = ctx.real('intensity', 0.1, 5), ctx.real('yield', 0.01, 2)
    q = {c: ctx.real('q' + c, 0.1, 9) for c in 'ABC'}
    cap = {c: ctx.real('cap' + c, 0.1, 8) for c in 'ABC'}
    con = {c: ctx.real('con' + c, 0.1, 9) for c in 'ABC'}
    k = ctx.real('scale', 0.5, 2)
    block = ctx.choice('block', [1, 1000])
    with tempfile.TemporaryDirectory() as d:
        Path(d, 'd_marginals.csv').write_text(
            ',Units,Family,Theta_0,Theta_1\n' + ''.join(
                f'{e},{u},normal,{token(mu)},{token(c)}\n'
                for e, u, mu, c in zip(edps, ('g', 'unitless'), m, s)))
        Path(d, 'd_correlation.csv').write_text(
            f',{edps[0]},{edps[1]}\n{edps[0]},1,0\n{edps[1]},0,1\n')
        Path(d, 'c_marginals.csv').write_text(components(
            {c: (0 if c == 'C' and big else 1, 1, q[c]) for c in 'ABC'}))
        Path(d, 'f.csv').write_text(fragility({
            'A': ('Peak Floor Acceleration', 'g', [cap['A']]),
            'B': ('Residual Interstory Drift Ratio' if big
                  else 'Peak Interstory Drift Ratio', 'unitless', [cap['B']]),
            'C': ('Spectral Acceleration|0.5' if big
                  else 'Peak Interstory Drift Ratio',
                  'g' if big else 'unitless', [cap['C']])}))
        Path(d, 'r.csv').write_text(
            'ID,Incomplete,Quantity-Unit,DV-Unit,DS1-Family,DS1-Theta_0,DS1-Theta_1\n'
            + ''.join(f'{c}-Cost,0,1 EA,USD_2011,,{token(con[c])},\n' for c in 'ABC'))
        Path(d, 'm.csv').write_text(',Repair\nA,A\nB,B\n')
        quiet(a.calculate_damage, 2, {'SampleSize': 2}, str(Path(d, 'd')),
              str(Path(d, 'c')), [str(Path(d, 'f.csv'))],
              {'1_A': {'DS1': 'B_NA'}} if proc else None,
              {'A-1-1': {'LS1': '*' + token(k)}} if scaled else None,
              {'parameters': {'yield_drift': y}, 'method': 'FEMA P-58'} if big else None,
              {'label': 'SA_0.5', 'value': im, 'unit': 'g'} if big else None,
              block)
        quiet(a.calculate_loss, ('Cost',), [str(Path(d, 'r.csv'))],
              str(Path(d, 'm.csv')), 'fill')
        got, _ = quiet(a.aggregate_loss)
    z = NORM.ppf(MedianRng.u) if ctx.symbolic else st.norm.ppf(MedianRng.u)
    pfa, pid = (mu * (1 + c * z) for mu, c in zip(m, s))
    if big:
        rid = 0.0 if bool(pid < y) else (
            0.3 * (pid - y) if bool(pid < 4 * y) else pid - 3 * y)
        if not isinstance(rid, float):
            rid = (exp(log(rid) + 0.1) if ctx.symbolic else rid * np.exp(0.1))
            rid = rid if bool(rid < pid) else pid
    else:
        rid = pid
    hit = {'A': bool(pfa > cap['A'] * (k if scaled else 1)),
           'B': bool(rid > cap['B']),
           'C': bool((im if big else pid) > cap['C'])}
    if proc and hit['A']:
        hit['B'] = False
    want = 0.0
    for c in 'ABC':
        if hit[c]:
            want = want + q[c] * con[c]
    x = got['repair_cost'].to_numpy().ravel()
    ctx.check(len(x) == 2, 'cost')
    for g in x:
        ctx.eq(g, want, 'cost')
