"""C24  A calculation set up by an auto-population script."""

import contextlib
import json
import os
import sys
from copy import deepcopy
from pathlib import Path

from checks.c20 import MedianRng, fragility, library, quiet, token
from checks.c21 import consequences
from checks.c22 import OUTPUTS, ROWS, SUMMARY, Case, Json, folder, fresh, load_csv, number, \
    verify
from engine.harness import assume_note, harness
from engine.models import make_assessment, patch_grid

assume_note(
    'the auto-population script is a stand-in that returns the rows and the settings '
    'named in the general information of the building',
    'the calculation itself is the one checked in C01-C22')

SCRIPT = '''
import json
import pandas as pd

DL = json.loads(DLTEXT)
ROWS = json.loads(ROWTEXT)


def auto_populate(aim):
    info = aim['GeneralInformation']
    rows = [[c, 'ea', lo, di, info[q]] for c, lo, di, q in ROWS]
    comp = pd.DataFrame(
        rows, columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0']).set_index('ID')
    comp['Family'] = 'N/A'
    if DL not in ('', 'N/A'):
        DL['Asset']['NumberOfStories'] = str(info['NumberOfStories'])
        DL['Options']['LogFile'] = info['log']
    seen = aim['DL']['Demands']
    info['demands seen'] = [seen['DemandFilePath'], seen['SampleSize']]
    return info, DL, comp
'''
P58, STORIES = 'FEMA P-58', 'Hazus Earthquake - Stories'
WIND = 'Hazus Hurricane Wind - Buildings'
FLOOD = 'Hazus Hurricane Storm Surge - Buildings'
LEAN = ['DEM_sample.zip', 'CMP_sample.zip', 'DMG_grp.zip', 'DMG_grp_stats.csv',
        *[f for f in OUTPUTS if f.startswith('DV')]]


def script(dl, rows):
    return SCRIPT.replace('DLTEXT', repr(json.dumps(dl))).replace(
        'ROWTEXT', repr(json.dumps(rows)))


@contextlib.contextmanager
def in_folder(d):
    here, path = os.getcwd(), list(sys.path)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)
        sys.path[:] = path


class Auto(Case):
    """The building of C22, described by its general information only."""

    method = P58

    def __init__(self, ctx, tag='', **k):
        super().__init__(ctx, tag, **k)
        self.app, self.settings = {}, None

    def rows(self):
        return [[c, lo, di, f'q{i}'] for i, (c, lo, di) in enumerate(ROWS)]

    def info(self, d):
        return {'NumberOfStories': 2, 'units': {'length': 'm'},
                'log': str(Path(d, 'log.txt')),
                **{f'q{i}': token(q) for i, q in enumerate(self.q)}}

    def scripts(self):
        return {self.method: (self.dl, self.rows())}

    def config(self, d, out):
        """Writes the input files to d."""
        super().config(d, out)
        cfg = json.loads(Path(d, 'config.json').read_text())
        Path(d, 'cmp.csv').unlink()
        self.dl = cfg.pop('DL')
        for k in ('ComponentAssignmentFile', 'NumberOfStories'):
            self.dl['Asset'].pop(k)
        self.dl.pop('Demands')
        self.dl['Options'].pop('LogFile')
        cfg['GeneralInformation'] = self.info(d)
        cfg['Applications'] = {'DL': {'ApplicationData': {
            'DL_Method': ', '.join(self.scripts()), **self.app}}}
        if self.settings is not None:
            cfg['outputs'] = self.settings
        p = Path(d, 'building.json')
        p.write_text(json.dumps(cfg))
        return str(p)

    def all_files(self):
        return {**self.files(), **{(m, 'pelicun_config.py'): script(dl, rows)
                                   for m, (dl, rows) in self.scripts().items()}}


def perform(ctx, case, d, detailed, fmt=None, sub='out', coupled=True, again=False):
    import pelicun.tools.DL_calculation as m

    def factory(config_options=None):
        a = make_assessment(ctx, config_options, cls='DLCalculationAssessment')
        a.options._rng = MedianRng(ctx)
        return a

    ctx.symnp(m)
    ctx.symfloat(m)
    patch_grid(ctx)
    if ctx.symbolic:
        ctx.patch(m, 'json', Json(ctx))
    ctx.patch(m, 'DLCalculationAssessment', factory)
    cfg = case.config(d, None)
    dem = str(Path(d, 'response.csv'))
    with library(ctx, case.all_files()), in_folder(d):
        quiet(m.run_pelicun, cfg, dem, str(Path(d, sub)), 2, None, None, fmt,
              detailed_results=detailed, coupled_edp=coupled)
        if again:
            # the configuration it was extended to, used as it is
            quiet(m.run_pelicun, str(Path(d, 'building_ap.json')), dem,
                  str(Path(d, 'again')), None, None, None, fmt,
                  detailed_results=not detailed, coupled_edp=not coupled)
    return Path(d, sub)


def wanted(case, detailed):
    s = case.settings or {k: True for k in ('IM', 'EDP', 'DM', 'DV')}
    files = list(OUTPUTS) if detailed else LEAN
    return [f for f in files if {
        'Demand': s['IM'] or s['EDP'], 'Asset': True, 'Damage': s['DM'],
        'Loss': s['DV'] and case.loss}[OUTPUTS[f][0]]] + list(SUMMARY)


def assignment(ctx, path, rows, label='CMP_QNT.csv'):
    """The assignment the script made."""
    t = load_csv(path)
    ctx.check(list(t)[:4] == ['Units', 'Location', 'Direction', 'Theta_0'], label)
    import csv
    with path.open() as f:
        got = list(csv.reader(f))[1:]
    ctx.check(len(got) == len(rows), label)
    for g, (c, lo, di, q) in zip(got, rows):
        ctx.check(g[:4] == [c, 'ea', str(lo), str(di)], label)
        ctx.eq(number(g[4]), q, label)


def look(ctx, case, where, detailed, fmt=None, extra=('CMP_QNT.csv',)):
    csv_on, json_on = ('csv' in fmt, 'json' in fmt) if fmt else (detailed, True)
    verify(ctx, case, where, wanted(case, detailed), csv_on=csv_on, json_on=json_on,
           coloc=True, condense=True, simple=True, extra=extra)


SETTINGS = [None, *({'IM': i, 'EDP': e, 'DM': m, 'DV': v} for i, e, m, v in (
    (True, False, True, False), (False, True, False, True), (False, False, True, True),
    (False, False, False, False)))]


@harness('the building of C22 (2 realizations, 3 components at 4 places; values in bands '
         'that fix the damage states) described to a script; lean and detailed '
         'results, every combination of requested results, with and without collapse',
         [{'detailed': t, 'kind': k} for t in (True, False)
          for k in ('plain', 'collapse', 'no losses', 'formats')],
         must_reach=('files', 'DMG_grp.zip', 'DL_summary.csv', 'CMP_QNT.csv'))
def automatic(ctx, detailed, kind):
    fresh(ctx)
    case = Auto(ctx, collapse=kind == 'collapse', loss=kind != 'no losses')
    fmt = None
    if kind == 'formats':
        fmt = ctx.choice('format', ['csv', 'json', 'csv,json'])
    else:
        case.settings = ctx.choice('results', SETTINGS)
    with folder() as d:
        where = perform(ctx, case, d, detailed, fmt, again=True)
        assignment(ctx, where / 'CMP_QNT.csv',
                   [(c, lo, di, q) for (c, lo, di), q in zip(ROWS, case.q)])
        look(ctx, case, where, detailed, fmt)
        look(ctx, case, Path(d, 'again'), detailed, fmt, ())


@harness('two calculations, one after the other: other results, no losses or another '
         'building first; the second one lean or detailed',
         [{'detailed': t, 'first': f} for t in (True, False)
          for f in ('no losses', 'fewer', 'refused')],
         must_reach=('files', 'DV_repair_agg.zip', 'CMP_QNT.csv'))
def sequence(ctx, detailed, first):
    from pelicun.pelicun_warnings import PelicunInvalidConfigError

    fresh(ctx)
    one, two = Auto(ctx, 'first ', loss=first == 'fewer'), Auto(ctx, 'second ')
    if first == 'fewer':
        one.settings = {'IM': False, 'EDP': False, 'DM': False, 'DV': False}
    with folder() as d:
        if first == 'refused':
            one.app['DL_Method'] = 'Hazus Earthquake - Buildings'  # has no script
            try:
                perform(ctx, one, d, detailed, sub='one')
                ctx.check(False, 'refused')
            except PelicunInvalidConfigError:
                pass
        else:
            w = perform(ctx, one, d, detailed, sub='one')
            look(ctx, one, w, detailed)
        where = perform(ctx, two, d, detailed, sub='two')
        assignment(ctx, where / 'CMP_QNT.csv',
                   [(c, lo, di, q) for (c, lo, di), q in zip(ROWS, two.q)])
        look(ctx, two, where, detailed)


class Merged(Auto):
    """Wind acts on A, the flood on B."""

    def __init__(self, ctx, names=('A', 'B'), methods=(WIND, FLOOD), **k):
        self.names, self.methods = dict(zip('AB', names)), methods
        super().__init__(ctx, **k)
        self.dem['PFA-1-1'] = [ctx.real(f'PFA[{i}]', *b) for i, b in enumerate(
            [(5, 6), (9, 10)])]

    def scripts(self):
        out = {}
        for m, c in zip(self.methods, 'AB'):
            dl = deepcopy(self.dl)
            dl['Asset']['ComponentDatabase'] = m
            if self.loss:
                dl['Losses']['Repair']['ConsequenceDatabase'] = m
            dl['Damage']['DamageProcess'] = 'Hazus Hurricane'
            out[m] = dl, [[self.names[c], 1, 1, 'q' + c]]
        return out

    def info(self, d):
        return {'NumberOfStories': 1, 'units': {'length': 'm'},
                'log': str(Path(d, 'log.txt')), 'qA': '1', 'qB': '1'}

    def files(self):
        out = {('Hazus Hurricane Wind', 'combine_wind_flood.csv'): '\n'.join(
            ','.join(map(str, r)) for r in TABLE) + '\n',
            # its header is read
            (P58, 'fragility.csv'): fragility({'X': (
                'Peak Floor Acceleration', 'g', [1.0])})}
        for m, c in zip(self.methods, 'AB'):
            n = self.names[c]
            out[m, 'fragility.csv'] = fragility({
                n: ({'A': 'Peak Floor Acceleration', 'B': 'Peak Interstory Drift Ratio'}[c],
                    {'A': 'g', 'B': 'unitless'}[c], self.cap[c])})
            out[m, 'consequence_repair.csv'] = consequences(
                {(n, dv): self.con[c, dv] for dv in ('Cost', 'Time')})
        return out


# combined loss of wind (down) and flood (across)
TABLE = [[0, 0.25, 0.5, 1], [0.25, 0.4, 0.625, 1], [0.5, 0.6, 0.75, 1], [1, 1, 1, 1]]
DS = {'A': (1, 2), 'B': (0, 2)}


@harness('one building exposed to wind and flood: losses of each in every cell of the '
         'combination table, in both alphabetical orders of the components and '
         'both orders of the methods',
         [{'names': n, 'swap': s, 'loss': x} for n in (('A', 'B'), ('W', 'F'))
          for s in (False, True) for x in (True, False) if x or not s],
         must_reach=('CMP_QNT.csv', 'DMG_grp.zip'))
def merged(ctx, names, swap, loss):
    fresh(ctx)
    case = Merged(ctx, tuple(names), (FLOOD, WIND) if swap else (WIND, FLOOD), loss=loss)
    # loss ratios in every damage state
    cell = ctx.choice('cell', [(0, 0), (1, 2), (2, 1)])
    first, second = DS.values()
    for c in 'AB':
        lo = TABLE[0][cell[c == 'B']]
        hi = TABLE[0][cell[c == 'B'] + 1]
        case.con[c, 'Cost'] = [ctx.real(f'cost {c}{s}', lo + s / 100, hi) for s in (1, 2)]
    with folder() as d:
        where = perform(ctx, case, d, True)
        assignment(ctx, where / 'CMP_QNT.csv', [(n, 1, 1, 1.0) for n in case.names.values()])
        t = load_csv(where / 'DMG_grp.zip')
        for c, n in case.names.items():
            got = [number(t[f'{n}-1'][str(i)]) for i in range(2)]
            ctx.check(got == [float(s) for s in DS[c]], 'DMG_grp.zip')
        ctx.check((where / 'DV_repair_agg.zip').exists() == loss, 'files')
        if not loss:
            return
        t = load_csv(where / 'DL_summary.csv')
        for i in range(2):
            x, y = ([0.0, *case.con[c, 'Cost']][DS[c][i]] for c in 'AB')
            ctx.eq(number(t['repair_cost-'][str(i)] if 'repair_cost-' in t
                          else t['repair_cost'][str(i)]), bilinear(x, y), 'combined')
            both = sum([0.0, *case.con[c, 'Time']][DS[c][i]] for c in 'AB')
            for k in ('sequential', 'parallel'):
                ctx.eq(number(t[f'repair_time-{k}'][str(i)]), both, 'repair time')


def bilinear(x, y):
    g = TABLE[0]

    def cell(v):
        for i in range(len(g) - 2):
            if bool(v <= g[i + 1]):
                return i
        return len(g) - 2

    i, j = cell(x), cell(y)
    a, b = (x - g[i]) / (g[i + 1] - g[i]), (y - g[j]) / (g[j + 1] - g[j])
    return (TABLE[i][j] * (1 - a) * (1 - b) + TABLE[i + 1][j] * a * (1 - b)
            + TABLE[i][j + 1] * (1 - a) * b + TABLE[i + 1][j + 1] * a * b)


@harness('every source of the script (library, folder or script of the caller, folder '
         'named in the configuration), with any of: options of the script, options of '
         'the configuration, coupled demands, number of realizations; building that '
         'is skipped, no settings, no script; demand settings of the script',
         [{'source': x} for x in ('library', 'folder of the caller',
                                  'folder of the configuration', 'script of the caller',
                                  'no script', 'skipped', 'no settings')],
         must_reach=('configuration',))
def requests(ctx, source):
    from pelicun.base import get
    from pelicun.pelicun_warnings import PelicunInvalidConfigError as Bad

    m = fresh(ctx)
    dl = {'Asset': {'ComponentDatabase': P58},
          'Damage': {'DamageProcess': 'None'},
          'Losses': {'Repair': {'ConsequenceDatabase': P58, 'MapApproach': 'Automatic'}}}
    given = lambda n: ctx.flag(n)  # noqa: E731
    want, app = {}, {'DL_Method': 'User-provided Models' if 'folder' in source else P58}
    # the options of the script come first
    dl['Options'] = {'LogFile': 'my.txt'}
    mine = {'Seed': 3, 'Sampling': {'SamplingMethod': 'MonteCarlo'}}
    theirs = {'Seed': 5, 'Verbose': False, 'LogFile': 'my.txt',
              'Sampling': {'SamplingMethod': 'LHS', 'SampleSize': 7}}
    real = size = int(ctx.int('realizations', 2, 4))
    if given('options of the script'):
        dl['Options'].update(mine)
        want.update({'Seed': 3, 'Sampling/SamplingMethod': 'MonteCarlo'})
    elif given('no options at all'):
        dl.pop('Options')
    if given('options of the configuration'):
        app['Options'] = deepcopy(theirs)
        for k, v in (('Seed', 5), ('Sampling/SamplingMethod', 'LHS'), ('Verbose', False)):
            want.setdefault(k, v)
        size = 7
    if given('demands of the script'):
        dl['Demands'] = {'SampleSize': '9', 'DemandFilePath': 'other.csv',
                         'CollapseLimits': {'PID': 0.1}}
    want['LogFile'] = ('my.txt' if 'Options' in dl or 'Options' in app
                       else 'pelicun_log.txt')
    want = {f'DL/Options/{k}': v for k, v in want.items()}
    want['DL/Options/Sampling/SampleSize'] = size
    coupled = given('coupled')
    want['DL/Demands/CoupledDemands'] = True if coupled else None
    want['DL/Demands/CollapseLimits'] = {'PID': 0.1} if 'Demands' in dl else None
    want['DL/Demands/Calibration'] = None if coupled else {
        'ALL': {'DistributionFamily': 'lognormal'}}
    want['DL/Asset/NumberOfStories'] = 2
    want['DL/Asset/ComponentDatabase'] = P58
    want['DL/Losses/Repair'] = deepcopy(dl['Losses']['Repair'])
    text = script('N/A' if source == 'skipped' else {} if source == 'no settings' else dl,
                  [['A', 1, 1, 'q0']])
    if source != 'library':
        # another script is in the library
        other = script({**dl, 'Asset': {'ComponentDatabase': 'other'}}, [['Z', 1, 1, 'q0']])
    with folder() as d, folder() as e, folder() as out:
        files = {(P58, 'pelicun_config.py'): text}
        caller = folder_of = None
        if source == 'folder of the caller':
            folder_of = e
            app['custom_model_dir'] = d
        elif source == 'folder of the configuration':
            app['custom_model_dir'] = e
        elif source == 'script of the caller':
            caller = Path(e, 'mine.py')
            caller.write_text(text)
        if 'folder' in source:
            Path(e, 'pelicun_config.py').write_text(text)
        if source not in {'library', 'skipped', 'no settings'}:
            files = {(P58, 'pelicun_config.py'): other}
        if source == 'no script':
            files = {(STORIES, 'pelicun_config.py'): other}
        cfg = {'GeneralInformation': {'NumberOfStories': 2, 'units': {'length': 'm'},
                                      'q0': '3.5', 'log': 'my.txt'},
               'Applications': {'DL': {'ApplicationData': app}}}
        if 'Options' not in dl:
            text = text.replace("DL['Options']['LogFile'] = info['log']", 'pass')
            for p in (caller, Path(e, 'pelicun_config.py')):
                if p and p.exists():
                    p.write_text(text)
            files = {k: v.replace("DL['Options']['LogFile'] = info['log']", 'pass')
                     for k, v in files.items()}
        if source == 'no settings':
            files = {k: v.replace("DL not in ('', 'N/A')", 'DL not in ({}, 1)')
                     for k, v in files.items()}
        p = Path(d, 'b.json')
        p.write_text(json.dumps(cfg))
        with library(ctx, files), in_folder(d):
            try:
                got = quiet(m._parse_config_file, p, Path(out), caller, 'r.csv', real,
                            None, folder_of, coupled_edp=coupled, detailed_results=True)
            except Bad:
                ctx.check(source in {'no script', 'no settings'}, 'configuration',
                          'refused')
                return
        ctx.check(json.loads(p.read_text()) == cfg, 'inputs untouched')
        if source == 'skipped':
            ctx.check(got is None, 'configuration', 'skipped')
            ctx.check(not list(Path(out).iterdir()), 'no results')
            return
        ctx.check(source not in {'no script', 'no settings'}, 'configuration', 'accepted')
        want['DL/Demands/DemandFilePath'] = 'r.csv'
        want['DL/Asset/ComponentAssignmentFile'] = str(Path(out, 'CMP_QNT.csv'))
        for k, v in want.items():
            g = get(got, k)
            ctx.check(g == v and type(g) is type(v), 'configuration', f'{k}: {g} {v}')
        assignment(ctx, Path(out, 'CMP_QNT.csv'), [('A', 1, 1, 3.5)])
        ap = json.loads(Path(d, 'b_ap.json').read_text())
        ctx.check(ap['GeneralInformation']['demands seen'] == ['r.csv', str(real)],
                  'what the script sees')
        for k in ('Asset/ComponentDatabase', 'Demands/DemandFilePath', 'Losses',
                  'Asset/ComponentAssignmentFile', 'Demands/Calibration',
                  'Demands/CoupledDemands', 'Options/Seed', 'Options/Verbose'):
            g, w = get(ap, 'DL/' + k), get(got, 'DL/' + k)
            ctx.check(g == w or (k == 'Options/Verbose' and g is None),
                      'extended configuration', k)
