"""C22  The files a damage and loss calculation writes are its results."""

import contextlib
import csv
import inspect
import io
import json
import tempfile
import zipfile
from copy import deepcopy
from pathlib import Path

import numpy as np

from checks.c20 import MedianRng, components, fragility, library, quiet, token
from checks.c21 import consequences
from engine.harness import assume_note, harness
from engine.models import make_assessment
from engine.sym import Sym

assume_note(
    'the stages of the calculation (demands, assets, damage, losses) are those '
    'checked in C01-C21; here the numbers they produce are followed into the files',
    'pandas.DataFrame.describe is modelled (count, mean, sample standard deviation, '
    'linearly interpolated percentiles) on symbolic columns; the replays use pandas')


class Json:
    """The json module, with symbolic numbers."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, k):
        return getattr(json, k)

    def dump(self, x, f, **k):
        json.dump(x, f, default=lambda v: {'#': str(v)}, **k)


def load_json(path):
    def hook(d):
        return number(d['#']) if set(d) == {'#'} else d

    return json.loads(path.read_text(), object_hook=hook)


def number(x):
    from engine.sym import parse_number

    return parse_number(x) if x != '' else float('nan')


def load_csv(path):
    """{column: {row: text}}, rows in the order of the file."""
    if path.suffix == '.zip':
        with zipfile.ZipFile(path) as z:
            names = z.namelist()
            assert names == [path.stem + '.csv'], names
            text = z.read(names[0]).decode()
    else:
        text = path.read_text()
    head, *rows = list(csv.reader(io.StringIO(text)))
    return {c: {r[0]: r[i] for r in rows} for i, c in enumerate(head) if i}


def flat(d, pre=()):
    """Nested results -> {'A-1-1': values}."""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and any(isinstance(x, (dict, list)) for x in v.values()):
            out.update(flat(v, (*pre, k)))
        else:
            out['-'.join((*pre, k))] = v
    return out


def stats_of(ctx, v):
    """Descriptive statistics of one or two values."""
    v = [x for x in v if isinstance(x, Sym) or not np.isnan(x)]
    out = {'count': float(len(v))}
    if not v:
        return None
    lo, hi = v[0], v[-1]
    if len(v) == 2 and bool(v[1] < v[0]):
        lo, hi = hi, lo
    out['mean'] = (lo + hi) / 2
    out['std'] = (hi - lo) * 0.5 ** 0.5 if len(v) == 2 else float('nan')
    if len(v) == 2 and bool(lo > 0):
        from engine.funcs import log
        lg = log if ctx.symbolic else np.log
        out['log_std'] = abs(lg(hi) - lg(lo)) * 0.5 ** 0.5
    else:
        out['log_std'] = float('nan')
    out['min'] = lo
    for p in (0.1, 2.3, 10, 15.9, 50, 84.1, 90, 97.7, 99.9):
        out[f'{p:g}%'] = lo + (hi - lo) * p / 100
    out['max'] = hi
    return out


DEMANDS = ('PFA-1-1', 'PFA-1-2', 'PFA-2-1', 'PID-1-1')
# which damage state each place of a component is in, in the two realizations
STATE = {('A', '1', '1'): (0, 1), ('A', '1', '2'): (2, 0), ('A', '2', '1'): (1, 2),
         ('B', '1', '1'): (0, 2)}
BAND = [(1, 2), (5, 6), (9, 10)]
ROWS = [('A', 1, '1,2'), ('A', 1, 1), ('A', 2, 1), ('B', 1, 1)]
OUTPUTS = {
    'DEM_sample.zip': ('Demand', 'Sample'),
    'DEM_stats.csv': ('Demand', 'Statistics'),
    'CMP_sample.zip': ('Asset', 'Sample'), 'CMP_stats.csv': ('Asset', 'Statistics'),
    'DMG_sample.zip': ('Damage', 'Sample'), 'DMG_stats.csv': ('Damage', 'Statistics'),
    'DMG_grp.zip': ('Damage', 'GroupedSample'),
    'DMG_grp_stats.csv': ('Damage', 'GroupedStatistics'),
    'DV_repair_sample.zip': ('Loss', 'Sample'),
    'DV_repair_stats.csv': ('Loss', 'Statistics'),
    'DV_repair_grp.zip': ('Loss', 'GroupedSample'),
    'DV_repair_grp_stats.csv': ('Loss', 'GroupedStatistics'),
    'DV_repair_agg.zip': ('Loss', 'AggregateSample'),
    'DV_repair_agg_stats.csv': ('Loss', 'AggregateStatistics')}
SUMMARY = ('DL_summary.csv', 'DL_summary_stats.csv')
DAMAGED = 'Collapsed'


def request(files):
    out = {}
    for f in files:
        a, b = OUTPUTS[f]
        (out.setdefault('Loss', {}).setdefault('Repair', {}) if a == 'Loss'
         else out.setdefault(a, {}))[b] = True
    return out


class Case:
    """One calculation: the input files, and what should come out."""

    def __init__(self, ctx, tag='', collapse=False, hurt=True, damage=True, loss=True):
        self.ctx, self.collapse, self.hurt = ctx, collapse, hurt
        self.fate = 'irreparable' if collapse == 'irreparable' else 'collapse'
        self.damage, self.loss = damage, loss
        r = lambda n, *b: ctx.real(tag + n, *b)  # noqa: E731
        keys = list(STATE)
        self.dem = {e: [r(f'{e}[{i}]', *(BAND[STATE[k][i]] if hurt else [(1, 1.4), (1.5, 2)][i]))
                        for i in range(2)] for e, k in zip(DEMANDS, keys)}
        if self.fate == 'irreparable':
            self.dem['RID-1-1'] = [r(f'RID[{i}]', *BAND[2 * i]) for i in range(2)]
        self.cap = {c: [r(f'cap {c}{i}', *b) for i, b in enumerate([(3, 4), (7, 8)])]
                    for c in 'AB'}
        self.options, self.sample_file = {}, False
        # the second realization has the larger losses
        self.q = [r(f'q{i}', *b) for i, b in enumerate(
            [(0.1, 0.5), (3, 4), (5, 6), (40, 50)])]
        self.con = {('A', 'Cost'): [2.0, 5.0], ('A', 'Time'): [0.5, 3.0],
                    ('B', 'Cost'): [7.0, 11.0], ('B', 'Time'): [1.5, 6.0]}
        self.rep = {dv: r(f'replacement {dv}', 1000, 2000) for dv in ('Cost', 'Time')}
        self.blocks = {('A', '1', '1', '0'): self.q[0], ('A', '1', '2', '0'): self.q[0],
                       ('A', '1', '1', '1'): self.q[1], ('A', '2', '1', '0'): self.q[2],
                       ('B', '1', '1', '0'): self.q[3]}

    def state(self, key, i):
        return STATE[key][i] if self.hurt else 0

    def collapsed(self, i):
        """Everything is lost."""
        return bool(self.collapse) and i == 1

    def config(self, d, out):
        """Writes the input files to d."""
        p = Path(d, 'response.csv')
        p.write_text('\n'.join(
            [',' + ','.join(self.dem), 'Units,' + ','.join('g' if 'PFA' in e else 'rad' for e in self.dem)]
            + [f'{i},' + ','.join(token(v[i]) for v in self.dem.values())
               for i in range(2)]) + '\n')
        Path(d, 'cmp.csv').write_text(',Units,Location,Direction,Theta_0\n' + ''.join(
            f'{c},ea,{lo},"{di}",{token(q)}\n'
            for (c, lo, di), q in zip(ROWS, self.q)))
        cfg = {
            'GeneralInformation': {'NumberOfStories': 2, 'units': {'length': 'm'}},
            'DL': {
                'Asset': {'ComponentAssignmentFile': str(Path(d, 'cmp.csv')),
                          'ComponentDatabase': 'FEMA P-58', 'NumberOfStories': '2',
                          'OccupancyType': 'EDU1'},
                'Demands': {'DemandFilePath': str(p), 'SampleSize': '2',
                            'CoupledDemands': True},
                'Options': {'PrintLog': False, 'Verbose': False, 'Seed': 1,
                            'LogFile': str(Path(d, 'log.txt')),
                            'Sampling': {'SamplingMethod': 'MonteCarlo'},
                            'EconomiesOfScale': {'AcrossFloors': False,
                                                 'AcrossDamageStates': False},
                            'DemandOffset': {'PFA': 0}}}}
        if self.damage:
            cfg['DL']['Damage'] = {'DamageProcess': 'FEMA P-58'}
            if self.fate == 'irreparable':
                cfg['DL']['Damage']['IrreparableDamage'] = {
                    'DriftCapacityMedian': '8', 'DriftCapacityLogStd': '0.001'}
            elif self.collapse:
                # PID of the second realization exceeds it
                cfg['DL']['Damage']['CollapseFragility'] = {
                    'DemandType': 'PID', 'CapacityMedian': '8.5'}
        if self.loss:
            cfg['DL']['Losses'] = {'Repair': {
                'ConsequenceDatabase': 'FEMA P-58', 'MapApproach': 'Automatic',
                'DecisionVariables': {'Cost': True, 'Time': True, 'Carbon': False}}}
            if self.collapse:
                cfg['DL']['Losses']['Repair'].update({
                    f'Replacement{dv}': {'Unit': u, 'Median': 'REP ' + dv}
                    for dv, u in (('Cost', 'USD_2011'), ('Time', 'worker_day'))})
        cfg['DL']['Options'].update(self.options)
        if self.sample_file:
            cfg['DL']['Asset']['ComponentSampleFile'] = cfg['DL']['Asset'].pop(
                'ComponentAssignmentFile')
            Path(d, 'cmp.csv').write_text('\n'.join(
                [',' + ','.join(map('-'.join, self.blocks)),
                 'Units' + ',ea' * len(self.blocks)]
                + [f'{i},' + ','.join(map(token, self.blocks.values()))
                   for i in range(2)]) + '\n')
        if out is not None:
            cfg['DL']['Outputs'] = out
        text = json.dumps(cfg)
        for dv, v in self.rep.items():
            text = text.replace(f'"REP {dv}"', f'"{token(v)}"')
        Path(d, 'config.json').write_text(text, encoding='utf-8')
        return str(Path(d, 'config.json'))

    def files(self):
        return {
            ('FEMA P-58', 'fragility.csv'): fragility({
                'A': ('Peak Floor Acceleration', 'g', self.cap['A']),
                'B': ('Peak Interstory Drift Ratio', 'unitless', self.cap['B'])}),
            ('FEMA P-58', 'consequence_repair.csv'): consequences(self.con)}

    # ---------------------------------------------------- expected samples

    def demands(self):
        return {**self.dem, 'ONE-0-1': [1.0, 1.0]}, {
            **{e: 'g' if 'PFA' in e else 'rad' for e in self.dem}, 'ONE-0-1': 'unitless'}

    def merge(self, parts, levels):
        """Sum of the parts that agree on the chosen levels."""
        out = {}
        for k, v in parts.items():
            k = '-'.join(k[i] for i in levels)
            out[k] = [a + b for a, b in zip(out[k], v)] if k in out else v
        return out

    def assets(self, coloc):
        return self.merge({k: [q, q] for k, q in self.blocks.items()},
                          range(3 if coloc else 4))

    def damages(self):
        nan = float('nan')
        return {(*k, str(s)): [
            nan if self.collapsed(i) else q * (self.state(k[:3], i) == s)
            for i in range(2)] for k, q in self.blocks.items() for s in range(3)}

    def losses(self):
        out = {}
        for (c, lo, di, u), q in self.blocks.items():
            for dv in ('Cost', 'Time'):
                for s in (1, 2):
                    out[dv, c, c, str(s), lo, di, u] = [
                        q * self.con[c, dv][s - 1]
                        if self.state((c, lo, di), i) == s and not self.collapsed(i)
                        else 0.0 for i in range(2)]
        return out

    def total(self):
        parts = self.losses()
        cost = self.merge({k: v for k, v in parts.items() if k[0] == 'Cost'}, [0])
        time = self.merge({k: v for k, v in parts.items() if k[0] == 'Time'}, [0])
        floor = self.merge({k: v for k, v in parts.items() if k[0] == 'Time'}, [4])
        out = {'repair_cost': cost['Cost'], 'repair_time-sequential': time['Time'],
               'repair_time-parallel': [
                   a if not bool(a < b) else b for a, b in zip(floor['1'], floor['2'])]}
        return {k: [self.rep['Cost' if 'cost' in k else 'Time']
                    if self.collapsed(i) else v[i] for i in range(2)]
                for k, v in out.items()}


def perform(ctx, case, d, out, fmt=None, sub='out', detailed=True, words=None):
    import pelicun.tools.DL_calculation as m

    def factory(config_options=None):
        a = make_assessment(ctx, config_options, cls='DLCalculationAssessment')
        a.options._rng = MedianRng(ctx)
        return a

    ctx.symnp(m)
    ctx.symfloat(m)
    if ctx.symbolic:
        ctx.patch(m, 'json', Json(ctx))
    ctx.patch(m, 'DLCalculationAssessment', factory)
    with library(ctx, case.files()):
        path = case.config(d, out)
        if words is not None:
            quiet(command, ctx, m, [*words, path])
        else:
            quiet(m.run_pelicun, path, None, str(Path(d, sub)), None, None,
                  None, fmt, detailed_results=detailed, coupled_edp=True)
    return Path(d, sub)


def command(ctx, m, words):
    """DL_calculation as it is run from a shell."""
    import sys

    ctx.patch(sys, 'argv', ['DL_calculation.py', *words])
    m.main()


def same_numbers(ctx, got, want, label, units=None):
    """got: {row: text} of one column; want: values."""
    rows = [r for r in got if r.lower() != 'units']
    ctx.check(rows == [str(i) for i in range(len(want))], label)
    for r, w in zip(rows, want):
        g = number(got[r])
        if not isinstance(w, Sym) and np.isnan(w):
            # no quantity is left; columns of states that never occur hold zeros
            ctx.check(not isinstance(g, Sym) and (np.isnan(g) or g == 0), label)
        else:
            ctx.eq(g, w, label)
    if units:
        ctx.check(got.get('Units') == units, label + ' units')


def zero(ctx, v):
    return all(not isinstance(x, Sym) and (x == 0 or np.isnan(x)) for x in v)


def compare(ctx, got, want, label, unit, extra=(), strict=True):
    """got: table; want: {column: values}. Absent columns are zeros."""
    names = {c.rstrip('-'): c for c in got}
    for k, v in want.items():
        if k not in names and (zero(ctx, v) or not strict):
            continue
        ctx.check(k in names, label, f'{k} missing')
        same_numbers(ctx, got[names[k]], v, label, unit(k) if unit else None)
    for n in names:
        ctx.check(n in want or n.split('-')[0] in extra
                  or any(e in n for e in extra), label, f'{n} not expected')


def verify(ctx, case, where, files, csv_on, json_on, coloc, condense, simple, extra=()):
    """Everything in the output folder."""
    sp = ('collapse', 'irreparable', 'replacement', 'excessive')
    have = {p.name for p in where.iterdir()} - set(extra)
    want = set()
    for f in files:
        if csv_on or f in SUMMARY:
            want.add(f)
        if json_on:
            want.add(f[:-3] + 'json')
    ctx.check(have == want, 'files', f'{have ^ want}')
    tables = {}
    for f in files:
        if json_on:
            read_json(ctx, where / (f[:-3] + 'json'), simple, f, tables)
        if f in have:
            t = load_csv(where / f)
            if f in tables:
                same_table(ctx, tables[f], t, f)
            tables[f] = t
    ctx.check(set(tables) == set(files if csv_on or json_on else SUMMARY), 'files')
    samples = {}

    def look(f, want, unit, extra=()):
        if f in tables:
            compare(ctx, tables[f], want, f, unit, extra)
            samples[f] = tables[f]
            return tables[f]
        return None

    dem, units = case.demands()
    look('DEM_sample.zip', dem, units.get)
    look('CMP_sample.zip', case.assets(coloc), lambda k: 'ea', sp)
    dmg = case.damages() if case.damage else {}
    look('DMG_sample.zip', case.merge(dmg, [0, 1, 2, 4] if coloc else range(5)),
         lambda k: 'ea', sp)
    if condense:
        grp = {}
        for (c, lo, _, _, s), v in dmg.items():
            k = f'{c}-{lo}'
            old = grp.get(k, [0.0, 0.0])
            grp[k] = [x if not isinstance(x, Sym) and np.isnan(x) else
                      max(float(s), o) if isinstance(x, Sym) or x > 0 else o
                      for x, o in zip(v, old)]
    else:
        grp = case.merge(dmg, [0])
    look('DMG_grp.zip', grp, lambda k: 'ea', sp)
    if case.loss:
        dv = case.losses()
        lu = lambda k: 'USD_2011' if 'Cost' in k else 'worker_day'  # noqa: E731
        look('DV_repair_sample.zip', case.merge(dv, range(6 if coloc else 7)), lu, sp)
        look('DV_repair_grp.zip', case.merge(dv, range(3)), lu, sp)
        total = case.total()
        look('DV_repair_agg.zip', total, None)
    if 'DL_summary.csv' in tables:
        want = {**(total if case.loss else {}), **{
            f: [float(case.collapsed(i) and case.fate == f) for i in range(2)]
            for f in ('collapse', 'irreparable')}}
        if not case.damage:
            want = {}
        look('DL_summary.csv', want, None)
        ctx.check({c.rstrip('-') for c in tables['DL_summary.csv']} == set(want),
                  'DL_summary.csv')
    for f, t in tables.items():
        if '_stats' not in f:
            continue
        s = samples.get(f.replace('_stats.csv', '_sample.zip'),
                        samples.get(f.replace('_stats.csv', '.zip'),
                                    samples.get(f.replace('_stats', ''))))
        if s is None:
            continue
        ctx.check(set(t) == set(s), f)
        for c in s:
            rows = [number(x) for r, x in s[c].items() if r.lower() != 'units']
            st = stats_of(ctx, rows)
            if st is None:
                continue
            ctx.check([r for r in t[c] if r.lower() != 'units'] == list(st), f)
            for r, w in st.items():
                ctx.eq(number(t[c][r]), w, f)
            ctx.check(t[c].get('Units') == s[c].get('Units'), f + ' units')


def read_json(ctx, path, simple, f, tables):
    """The JSON file as a table; numbers must be numbers."""
    j = load_json(path)
    units = j.pop('Units', {})
    t = {}
    for k, v in (j if simple else flat(j)).items():
        if isinstance(v, list):
            v = {str(i): x for i, x in enumerate(v)}
        ctx.check(all(isinstance(x, (Sym, int, float)) for x in v.values()),
                  f'numbers in {f}')
        t[k] = {r: token(x) if isinstance(x, Sym) else repr(x) for r, x in v.items()}
        if k in units:
            t[k]['Units'] = units[k]
    tables[f] = t


def same_table(ctx, a, b, f):
    """a from JSON, b from CSV."""
    na, nb = {k.rstrip('-'): k for k in a}, {k.rstrip('-'): k for k in b}
    ctx.check(set(na) == set(nb), f'JSON of {f}')
    for k, ka in na.items():
        x, y = a[ka], b[nb[k]]
        ctx.check(list(x) == list(y), f'JSON of {f}')
        for r in x:
            if r == 'Units':
                ctx.check(x[r] == y[r], f'JSON of {f}')
                continue
            v, w = number(x[r]), number(y[r])
            if not isinstance(v, Sym) and np.isnan(v):
                ctx.check(not isinstance(w, Sym) and np.isnan(w), f'JSON of {f}')
            else:
                ctx.eq(v, w, f'JSON of {f}')


PRISTINE = {}


def fresh(ctx):
    """The module-level settings of the driver as they are after its import."""
    import pelicun.tools.DL_calculation as m

    if not PRISTINE:
        PRISTINE.update({k: deepcopy(v) for k, v in vars(m).items()
                         if isinstance(v, (dict, list)) and not k.startswith('__')})
    for k, v in PRISTINE.items():
        ctx.patch(m, k, deepcopy(v))
    return m


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory() as d:
        yield d


ALL = [*OUTPUTS, *SUMMARY]


@harness('3 components at 4 places, 2 realizations with 4 demands: any value of the '
         'demands, capacities, quantities, replacement consequences in bands that fix '
         'the damage states; with and without collapse or irreparable damage; every '
         'output; statistics',
         [{'collapse': c, 'settings': s} for c in (False, True, 'irreparable')
          for s in range(5)],
         must_reach=('files', 'DMG_grp.zip', 'DV_repair_agg.zip', 'DL_summary.csv',
                     'DMG_stats.csv', 'JSON of DV_repair_stats.csv'))
def reports(ctx, collapse, settings):
    fresh(ctx)
    coloc, condense, simple = [
        (True, False, False), (False, True, True), (True, True, False),
        (True, False, True), (False, False, False)][settings]
    out = request(OUTPUTS)
    out['Format'] = {'CSV': True, 'JSON': True}
    if settings:
        out['Settings'] = {'CondenseDS': condense, 'SimpleIndexInJSON': simple,
                           'AggregateColocatedComponentResults': coloc}
    case = Case(ctx, collapse=collapse)
    with folder() as d:
        where = perform(ctx, case, d, None if settings == 0 else out)
        verify(ctx, case, where, ALL, csv_on=True, json_on=True, coloc=coloc,
               condense=condense, simple=simple)


@harness('as above, one or several requested outputs, every format given by the '
         'configuration, the caller or left out',
         [{'fmt': f} for f in ('config csv', 'config json', 'config both',
                               'config none', 'caller csv', 'caller json',
                               'caller csv,json', 'default')],
         must_reach=('files',))
def selected(ctx, fmt):
    fresh(ctx)
    files = ctx.choice('outputs', [
        *[[f] for f in OUTPUTS], ['DEM_stats.csv', 'CMP_sample.zip', 'DMG_grp.zip'],
        ['DMG_sample.zip', 'DMG_grp_stats.csv', 'DV_repair_grp_stats.csv']])
    out = request(files)
    # outputs that are turned off, or off and on
    for k in ('Sample', 'Statistics') if 'json' in fmt else ():
        out.setdefault('Demand', {}).setdefault(k, False)
    who, _, what = fmt.partition(' ')
    on = {'csv': (True, False), 'json': (False, True), 'both': (True, True),
          'csv,json': (True, True), 'none': (False, False), '': (True, False)}[what]
    if who == 'config':
        out['Format'] = {'CSV': on[0], 'JSON': on[1]}
    elif who == 'caller':
        out['Format'] = {'CSV': not on[0], 'JSON': not on[1]}
    case = Case(ctx)
    with folder() as d:
        where = perform(ctx, case, d, out, what if who == 'caller' else None)
        verify(ctx, case, where, [*files, *SUMMARY], csv_on=on[0], json_on=on[1],
               coloc=True, condense=False, simple=False)


@harness('two calculations, one after the other: different demands, quantities and '
         'requests, the same output folder or another; other files stay',
         [{'second': s, 'same': b} for s in ('full', 'part', 'json')
          for b in (True, False)],
         must_reach=('files',))
def again(ctx, second, same):
    fresh(ctx)
    one, two = Case(ctx, 'first '), Case(ctx, 'second ', collapse=second == 'part')
    part = ['DMG_grp.zip', 'DV_repair_agg_stats.csv']
    reg = {'CondenseDS': True, 'SimpleIndexInJSON': True,
           'AggregateColocatedComponentResults': False}
    out = {**request(part if second == 'full' else OUTPUTS), 'Settings': reg,
           'Format': {'CSV': True, 'JSON': True}}
    with folder() as d, folder() as e:
        Path(d, 'out').mkdir()
        Path(d, 'out', 'notes.csv').write_text('keep')
        w1 = perform(ctx, one, d, out)
        f1 = part if second == 'full' else list(OUTPUTS)
        verify(ctx, one, w1, [*f1, *SUMMARY], csv_on=True, json_on=True, coloc=False,
               condense=True, simple=True, extra=('notes.csv',))
        req = {'full': None, 'part': request(part), 'json': {
            **request(part), 'Format': {'CSV': False, 'JSON': True}}}[second]
        w2 = perform(ctx, two, d if same else e, req)
        f2 = list(OUTPUTS) if second == 'full' else part
        verify(ctx, two, w2, [*f2, *SUMMARY], csv_on=second != 'json',
               json_on=second != 'part', coloc=True, condense=False, simple=False,
               extra=('notes.csv',) if same else ())
        if same:
            ctx.check(Path(d, 'out', 'notes.csv').read_text() == 'keep', 'other files')


YES, NO = ('True', 'yes', 't', 'Y', '1', 'true'), ('False', 'no', 'f', 'N', '0', 'false')


@harness('a calculation started from the command line: the options in two orders, '
         'every format or none, the output folder given or '
         'left out; the building as above',
         [{'fmt': f} for f in (None, 'csv', 'json', 'csv,json')],
         must_reach=('files',))
def shell(ctx, fmt):
    fresh(ctx)
    case = Case(ctx)
    files = ['DEM_stats.csv', 'CMP_sample.zip', 'DMG_grp.zip', 'DV_repair_agg.zip']
    out = {**request(files), 'Format': {'CSV': False, 'JSON': True}}
    given = ctx.flag('output folder given')
    with folder() as d:
        words = []
        if given:
            words += ['--dirnameOutput', str(Path(d, 'out'))]
        if fmt:
            words += ['--output_format', fmt]
        rest = ['--log_file', 'no', '--ground_failure', 'False', '--regional', 'False',
                '--resource_dir', d]
        words = words + rest if ctx.flag('order') else rest + words
        where = perform(ctx, case, d, out, words=[*words, '--filenameDL'],
                        sub='out' if given else '')
        verify(ctx, case, where, [*files, *SUMMARY],
               csv_on='csv' in (fmt or ''), json_on='json' in (fmt or 'json'),
               coloc=True, condense=False, simple=False,
               extra=() if given else ('response.csv', 'cmp.csv', 'config.json',
                                       'log.txt', 'log_warnings.txt'))


@harness('every combination of the options of the command line that are given or left '
         'out; every spelling of the logical ones and of the names of the others',
         [{'part': p} for p in ('files', 'names', 'logical')], must_reach=('options',))
def arguments(ctx, part):
    m = fresh(ctx)
    calls = []
    sig = inspect.signature(m.run_pelicun)

    def record(*a, **k):
        calls.append(sig.bind(*a, **k).arguments)

    ctx.patch(m, 'run_pelicun', record)
    words, want = ['-c', 'a b.json'], {
        'config_path': 'a b.json', 'demand_file': None, 'output_path': None,
        'realizations': None, 'auto_script_path': None, 'custom_model_dir': None,
        'output_format': None, 'detailed_results': True, 'coupled_edp': False}
    n = 25
    for key, names, value in (
            ('demand_file', ('-d', '--demandFile'), 'dem.csv'),
            ('realizations', ('-s', '--Realizations'), n),
            ('output_path', ('--dirnameOutput',), 'out'),
            ('auto_script_path', ('--auto_script',), 'auto.py'),
            ('custom_model_dir', ('--custom_model_dir',), 'models')):
        if part == 'logical' or (len(names) > 1) < (part == 'names'):
            continue
        if ctx.flag('give ' + key):
            words += [ctx.choice('name of ' + key, names) if part == 'names'
                      else names[-1], str(value)]
            want[key] = value
    for key, name in (('detailed_results', '--detailed_results'),
                      ('coupled_edp', '--coupled_EDP')):
        v = part == 'logical' and ctx.choice(key, ['', 'yes', 'no'])
        if v:
            words += [name, ctx.choice('spelling of ' + key, YES if v == 'yes' else NO)]
            want[key] = v == 'yes'
    if part == 'files' and ctx.flag('lean'):
        words, want['detailed_results'] = [*words, '--detailed_results', 'No'], False
    quiet(command, ctx, m, words)
    ctx.check(len(calls) == 1, 'one calculation')
    got = {k: calls[0].get(k, sig.parameters[k].default) for k in want}
    if got['realizations'] is not None:
        got['realizations'] = int(got['realizations'])
    ctx.check(got == want, 'options of the command line', f'{words}: {got}')
    ctx.reach('options')


@harness('calculations that stop early or where nothing is damaged',
         [{'kind': k} for k in ('no losses', 'no damage', 'undamaged', 'unlisted',
                                'sample file')],
         must_reach=('files',))
def partial(ctx, kind):
    fresh(ctx)
    late = kind in {'undamaged', 'unlisted'}
    case = Case(ctx, damage=kind != 'no damage', hurt=not late,
                loss=late or kind == 'sample file')
    case.sample_file = kind == 'sample file'
    case.options['ListAllDamageStates'] = kind != 'unlisted'
    files = [f for f, (a, b) in OUTPUTS.items()
             if (a != 'Damage' or case.damage) and (
                 a != 'Loss' or (case.loss and ('Aggregate' in b or kind != 'unlisted')))]
    out = request([f for f in OUTPUTS if OUTPUTS[f][0] != 'Loss' or case.loss][
        :None if case.damage else 4])
    out['Format'] = {'CSV': True, 'JSON': ctx.flag('json') and case.damage}
    with folder() as d:
        where = perform(ctx, case, d, out)
        verify(ctx, case, where, [*files, *SUMMARY], csv_on=True,
               json_on=out['Format']['JSON'], coloc=True, condense=False, simple=False)


@harness('every combination of settings that are given or left out (sample size in '
         'two places, formats, settings, outputs, options, collapse and irreparable '
         'damage parameters, component tables, older names)',
         [{'part': x} for x in ('sizes', 'outputs', 'options', 'damage', 'assets',
                                'sections')],
         must_reach=('configuration',))
def defaults(ctx, part):
    from pelicun.base import get
    from pelicun.pelicun_warnings import PelicunInvalidConfigError as Bad

    m = fresh(ctx)
    cfg = {'GeneralInformation': {'NumberOfStories': 2, 'units': {'length': 'm'}},
           'DL': {'Asset': {'ComponentAssignmentFile': 'c.csv'},
                  'Demands': {'DemandFilePath': 'r.csv', 'SampleSize': '7'},
                  'Damage': {'DamageProcess': 'None'},
                  'Losses': {'Repair': {'ConsequenceDatabase': 'FEMA P-58'}},
                  'Options': {'Seed': 3}}}
    dl, bad, want = cfg['DL'], False, {}
    plain = deepcopy(dl)
    every = {k: True for k in ('Sample', 'Statistics', 'GroupedSample',
                               'GroupedStatistics', 'AggregateSample',
                               'AggregateStatistics')}
    two, four = ({k: True for k in list(every)[:n]} for n in (2, 4))
    full = {'Demand': two, 'Asset': two, 'Damage': four, 'Loss/Repair': every,
            'Format': {'CSV': True, 'JSON': True},
            'Settings': {'CondenseDS': False, 'SimpleIndexInJSON': False,
                         'AggregateColocatedComponentResults': True}}
    demand = fmt = None
    unclear = False  # refused or completed
    given = lambda n: ctx.flag(n)  # noqa: E731
    if part == 'sizes':
        if not given('demand size'):
            dl['Demands'].pop('SampleSize')
        n = ctx.int('size', 1, 4)
        if given('option size'):
            dl['Options']['Sampling'] = {'SampleSize': int(n)}
        size = dl['Options'].get('Sampling', dl['Demands']).get('SampleSize')
        bad = size is None
        want['DL/Options/Sampling/SampleSize'] = None if bad else int(size)
        if not given('demand file in the configuration'):
            dl['Demands'].pop('DemandFilePath')
        if given('demand file of the caller'):
            demand = 'caller.csv'
        want['DL/Demands/DemandFilePath'] = dl['Demands'].get(
            'DemandFilePath', demand)
        unclear = not (demand or 'DemandFilePath' in dl['Demands'])
    elif part == 'outputs':
        if given('outputs'):
            dl['Outputs'] = {'Damage': {'GroupedSample': True}}
            if given('format'):
                dl['Outputs']['Format'] = {'CSV': False, 'JSON': True}
            if given('settings'):
                dl['Outputs']['Settings'] = {'CondenseDS': True}
            want = {'DL/Outputs/' + k: v for k, v in dl['Outputs'].items()}
            want.setdefault('DL/Outputs/Format', {'CSV': True, 'JSON': False})
            want['DL/Outputs/Demand'] = None
        else:
            want = {'DL/Outputs/' + k: v for k, v in full.items()}
        want.setdefault('DL/Outputs/Settings', full['Settings'])
        fmt = ctx.choice('output format', [None, 'csv', 'json', 'csv,json', 'json,csv'])
        if fmt:
            want['DL/Outputs/Format'] = {'CSV': 'csv' in fmt, 'JSON': 'json' in fmt}
    elif part == 'options':
        for k, d, o in (('LogFile', 'pelicun_log.txt', 'my.txt'),
                        ('Verbose', True, False), ('ListAllDamageStates', True, False)):
            if given(k):
                dl['Options'][k] = o
            want['DL/Options/' + k] = dl['Options'].get(k, d)
        want['DL/Options/Seed'] = 3
        if given('stories'):
            dl['Asset']['NumberOfStories'] = ctx.choice('n', ['1', '3', 12])
            want['DL/Asset/NumberOfStories'] = int(dl['Asset']['NumberOfStories'])
        if given('old names'):
            dl['Losses'] = {'BldgRepair': {'ConsequenceDatabase': 'old'}}
            want['DL/Losses/Repair/ConsequenceDatabase'] = 'old'
            dl['Outputs'] = {'Loss': {'BldgRepair': {'Sample': True}}}
            want['DL/Outputs/Loss/Repair'] = {'Sample': True}
    elif part == 'damage':
        if given('collapse'):
            c = dl['Damage']['CollapseFragility'] = {'DemandType': 'PID'}
            for k, v in (('CapacityDistribution', 'lognormal'), ('CapacityMedian', '2'),
                         ('Theta_1', '0.3')):
                if given(k):
                    c[k] = v
            bad = 'CapacityMedian' not in c or (
                'CapacityDistribution' in c and 'Theta_1' not in c)
            if 'CapacityDistribution' not in c:
                want['DL/Damage/CollapseFragility/CapacityDistribution'] = 'deterministic'
                want['DL/Damage/CollapseFragility/Theta_1'] = 'N/A'
        elif given('irreparable'):
            c = dl['Damage']['IrreparableDamage'] = {}
            for k in ('DriftCapacityMedian', 'DriftCapacityLogStd'):
                if given(k):
                    c[k] = '0.3'
            bad = len(c) != 2
            unclear = not c
        elif given('user defined'):
            dl['Damage']['DamageProcess'] = 'User Defined'
            if given('process file'):
                dl['Damage']['DamageProcessFilePath'] = 'p.json'
            bad = 'DamageProcessFilePath' not in dl['Damage']
        elif given('residual drift'):
            r = dl['Demands']['InferResidualDrift'] = {'x-direction': '0.01'}
            if given('method'):
                r['method'] = 'FEMA P-58'
            bad = 'method' not in r
    elif part == 'assets':
        dl['Asset'].pop('ComponentAssignmentFile')
        for k in ('ComponentAssignmentFile', 'ComponentSampleFile'):
            if given(k):
                dl['Asset'][k] = 'x.csv'
        if not dl['Asset']:
            dl['Asset'] = {'NumberOfStories': '1'}
        bad = sum('File' in k for k in dl['Asset']) != 1
    else:
        out = ctx.choice('output', [None, 'Damage', 'Loss'])
        if out:
            dl['Outputs'] = {out: {'Repair': {'Sample': True}} if out == 'Loss'
                             else {'Sample': True}}
        else:
            dl['Outputs'] = {'Demand': {'Sample': True}}
        drop = ctx.choice('dropped', [None, 'Asset', 'Damage', 'Losses', 'Demands'])
        if drop:
            dl.pop(drop)
        bad = drop in {'Asset', 'Demands'} or (drop, out) in {
            ('Damage', 'Damage'), ('Losses', 'Loss')}
    with folder() as d:
        p = Path(d, 'config.json')
        p.write_text(json.dumps(cfg))
        try:
            got = quiet(m._parse_config_file, p, Path(d), None, demand, None, fmt, None,
                        coupled_edp=False, detailed_results=True)
        except Bad:
            ctx.check(bad or unclear, 'refused')
            return
        ctx.check(not bad, 'refused')
        for k, v in want.items():
            g = get(got, k)
            if v is None and k.endswith('FilePath'):
                v = str(Path(d, 'response.csv').resolve())
                g = str(Path(g).resolve())
            ctx.check(g == v and type(g) is type(v), 'configuration', f'{k}: {g} {v}')
        if part != 'outputs':
            ctx.check(get(got, 'DL/Outputs') is not None, 'configuration')
        ctx.check(json.loads(p.read_text()) == cfg, 'inputs untouched')
        # what is left out of the next configuration does not come from this one
        dl.pop('Outputs', None)
        for k in ('Asset', 'Demands', 'Damage', 'Losses'):
            dl[k] = plain[k]
        p.write_text(json.dumps(cfg))
        again = quiet(m._parse_config_file, p, Path(d), None, None, None, None, None,
                      coupled_edp=False, detailed_results=True)
        for k, v in full.items():
            ctx.check(get(again, 'DL/Outputs/' + k) == v, 'next configuration', k)


class Stop(Exception):
    """The end of what is of interest."""


class Recorder:
    """Takes the place of the assessment and notes what it is asked to do."""

    def __init__(self, real, calls):
        self.real, self.calls = real, calls

    def __call__(self, config_options=None):
        self.calls['options'] = {'options': deepcopy(config_options)}
        return self

    def __getattr__(self, k):
        if not k.startswith('calculate_'):
            raise Stop
        sig = inspect.signature(getattr(self.real, k))

        def note(*args, **kwargs):
            b = sig.bind(None, *args, **kwargs)
            b.apply_defaults()
            self.calls[k[10:]] = deepcopy(dict(b.arguments))
            if k == 'calculate_loss':
                raise Stop

        return note


def money(unit, n):
    return {'Unit': unit, 'Median': n, 'Distribution': 'lognormal', 'Theta_1': '0.4'}


# setting: (value, [(stage, parameter)])
SETTINGS = {
    'Demands/CollapseLimits': ({'PID': 0.1, 'PFA': '2'}, [('demand', 'collapse_limits')]),
    'Demands/Calibration': ({'PID': {'DistributionFamily': 'lognormal'}},
                            [('demand', 'demand_calibration')]),
    'Demands/DemandCloning': ({'PID-1-1': ['PID-1-1', 'PID-1-2']},
                              [('demand', 'demand_cloning')]),
    'Demands/InferResidualDrift': ({'method': 'FEMA P-58', '1': '0.01', '2': 0.02},
                                   [('demand', 'residual_drift_inference')]),
    'Demands/CoupledDemands': (True, [('demand', 'coupled_demands')]),
    'Asset/NumberOfStories': (7, [('asset', 'num_stories')]),
    'Asset/ComponentDatabasePath': ('/x/fragility.csv',
                                    [('damage', 'component_database_path')]),
    'Asset/ComponentDatabase': ('Hazus Earthquake - Water',
                                [('damage', 'component_database')]),
    'Asset/OccupancyType': ('RES1', [('loss', 'occupancy_type')]),
    'Damage/CollapseFragility': ({'DemandType': 'SA_0.5', 'CapacityMedian': '2',
                                  'CapacityDistribution': 'lognormal',
                                  'Theta_1': 0.3}, [('damage', 'collapse_fragility')]),
    'Damage/IrreparableDamage': ({'DriftCapacityMedian': '0.02',
                                  'DriftCapacityLogStd': 0.4},
                                 [('damage', 'irreparable_damage')]),
    'Damage/DamageProcess': ('Hazus Earthquake - Buildings', [
        ('damage', 'damage_process_approach'), ('loss', 'damage_process_approach')]),
    'Damage/DamageProcessFilePath': ('/x/process.json',
                                     [('damage', 'damage_process_file_path')]),
    'Damage/ScalingSpecification': ({'A-1-1': '*2'},
                                    [('damage', 'scaling_specification')]),
    'Losses/Repair/MapApproach': ('User Defined', [('loss', 'loss_map_approach')]),
    'Losses/Repair/MapFilePath': ('/x/map.csv', [('loss', 'loss_map_path')]),
    'Losses/Repair/ConsequenceDatabase': ('Hazus Earthquake - Buildings',
                                          [('loss', 'consequence_database')]),
    'Losses/Repair/ConsequenceDatabasePath': ('/x/consequence.csv',
                                              [('loss', 'consequence_database_path')]),
    'Losses/Repair/CombinationMethod': ('Hazus Hurricane',
                                        [('loss', 'loss_combination_method')]),
    **{f'Losses/Repair/Replacement{k}': (
        money(u, n), [('loss', f'replacement_{k.lower()}_parameters')])
       for n, (k, u) in enumerate({'Cost': 'USD_2011', 'Time': 'worker_day',
                                   'Carbon': 'kg', 'Energy': 'MJ'}.items(), 1)},
}
BASE = {'Damage/DamageProcess': 'FEMA P-58', 'Losses/Repair/MapApproach': 'Automatic',
        'Losses/Repair/ConsequenceDatabase': 'FEMA P-58'}


@harness('every setting of the configuration alone, all of them or all but one, decision '
         'variables on or off, settings of the caller: what each stage is asked to do',
         [{'kind': k} for k in ('one', 'all but one', 'caller', 'none', 'sample')],
         must_reach=('stage',))
def stages(ctx, kind):
    m = fresh(ctx)
    calls = {}
    ctx.patch(m, 'DLCalculationAssessment', Recorder(m.DLCalculationAssessment, calls))
    given = dict(BASE)
    if kind in {'one', 'all but one'}:
        which = ctx.choice('setting', list(SETTINGS))
        given.update({k: v for k, (v, _) in SETTINGS.items()
                      if (k == which) == (kind == 'one')})
    if kind == 'all but one' and which in BASE and 'Process' not in which:
        given.pop(which)
    n = ctx.int('size', 2, 3)
    cfg = {'GeneralInformation': {'NumberOfStories': 2, 'units': {
               'length': ctx.choice('length', ['m', 'ft'])}},
           'DL': {'Asset': {'ComponentAssignmentFile': '/x/c.csv'},
                  'Demands': {'DemandFilePath': '/x/r.csv', 'SampleSize': str(int(n))},
                  'Options': {'Seed': 3, 'Verbose': False}}}
    want = {('demand', 'demand_path'): '/x/r.csv', ('demand', 'sample_size'): int(n),
            ('asset', 'component_assignment_file'): '/x/c.csv',
            **{(s, 'length_unit'): cfg['GeneralInformation']['units']['length']
               for s in ('demand', 'damage')}}
    for k, (_, places) in SETTINGS.items():
        want.update({p: given.get(k) for p in places})
    for k, v in given.items():
        at = cfg['DL']
        *path, last = k.split('/')
        for p in path:
            at = at.setdefault(p, {})
        at[last] = v
    dvs, args = (), dict(demand=None, folder=None, coupled=False)
    if kind == 'none':
        cfg['DL'].pop(ctx.choice('left out', ['Damage', 'Losses']))
        cfg['DL']['Outputs'] = {'Demand': {'Sample': True}}
    elif kind == 'sample':
        cfg['DL']['Asset'] = {'ComponentSampleFile': '/x/s.csv'}
        want['asset', 'component_assignment_file'] = None
        want['asset', 'component_sample_file'] = '/x/s.csv'
        on = {x: ctx.choice(x, [True, False, None])
              for x in ('Cost', 'Time', 'Carbon', 'Energy')}
        cfg['DL']['Losses']['Repair']['DecisionVariables'] = {
            k: v for k, v in on.items() if v is not None}
        dvs = {k for k, v in on.items() if v}
    elif kind == 'caller':
        args = {'demand': ctx.choice('demand file', [None, '/y/r.csv']),
                'folder': ctx.choice('models', [None, '/y/models']), 'coupled': False}
        cfg['DL']['Demands'].pop('DemandFilePath' if args['demand'] else 'x', None)
        want['demand', 'demand_path'] = args['demand'] or '/x/r.csv'
        if ctx.flag('collapse demand'):
            c = cfg['DL']['Damage']['CollapseFragility'] = {
                'DemandType': 'PID', 'CapacityMedian': 0.1}
            want['damage', 'collapse_fragility'] = {
                **c, 'CapacityDistribution': 'deterministic', 'Theta_1': 'N/A'}
    c = want['damage', 'collapse_fragility']
    want['asset', 'collapse_fragility_demand_type'] = c and c['DemandType']
    want.update({(s, 'custom_model_dir'): args['folder'] for s in ('damage', 'loss')})
    irr = want['damage', 'irreparable_damage']
    with folder() as d:
        Path(d, 'config.json').write_text(json.dumps(cfg))
        with contextlib.suppress(Stop):
            quiet(m.run_pelicun, str(Path(d, 'config.json')), args['demand'],
                  str(Path(d, 'out')), None, None, args['folder'], None,
                  detailed_results=True, coupled_edp=args['coupled'])
    order = [s for s in ('options', 'demand', 'asset', 'damage', 'loss')
             if s not in {'damage', 'loss'}
             or {'damage': 'Damage', 'loss': 'Losses'}[s] in cfg['DL']]
    ctx.check(list(calls) == order, 'stage', str(list(calls)))
    for (s, p), v in want.items():
        if s in calls:
            if s == 'loss' and 'Damage' not in cfg['DL'] and p.startswith('damage'):
                continue
            g = calls[s][p]
            if p.endswith(('path', 'file', 'dir')):
                g, v = g and str(g), v and str(v)
            # a setting that is not there may arrive in any empty form
            ctx.check(g == v if v is not None else not g, 'stage', f'{s} {p}: {g} {v}')
    ctx.check(bool(calls['asset']['add_irreparable_damage_columns']) == bool(irr), 'stage')
    if 'damage' in calls:
        ctx.check(bool(calls['damage']['is_for_water_network_assessment']) == (
            'Water' in (want['damage', 'component_database'] or '')), 'stage')
    if 'loss' in calls:
        ctx.check(set(calls['loss']['decision_variables'] or ()) == set(dvs), 'stage')
    o = calls['options']['options']
    ctx.check(o['Seed'] == 3 and o['Verbose'] is False
              and o['Sampling']['SampleSize'] == int(n), 'options')
