"""C28  The options a user gives are the ones in effect, and the log tells the story."""

import contextlib
import io
import tempfile
import warnings
from copy import deepcopy
from pathlib import Path

import numpy as np

from engine.harness import assume_note, harness

assume_note(
    'numpy.random.default_rng is executed; equal seeds draw equal numbers, so the '
    'seeds are compared by what is drawn',
    'the effect of every option on a calculation is checked with the model it '
    'belongs to (C01-C25); here it is followed from the configuration to the options '
    'of the assessment')

# attribute of the options, path in the configuration, documented default
DEFAULTS = {
    ('Seed',): None,
    ('Sampling', 'SamplingMethod'): 'LHS',
    ('ListAllDamageStates',): False,
    ('UnitsFile',): None,
    ('DemandOffset', 'PFA'): -1,
    ('DemandOffset', 'PFV'): -1,
    ('NonDirectionalMultipliers', 'ALL'): 1.2,
    ('RepairCostAndTimeCorrelation',): 0.0,
    ('EconomiesOfScale', 'AcrossFloors'): True,
    ('EconomiesOfScale', 'AcrossDamageStates'): False,
    ('ErrorSetup', 'Loss', 'ReplacementThreshold', 'RaiseOnUnknownKeys'): True,
    ('Verbose',): False,
    ('PrintLog',): False,
    ('LogShowMS',): False,
    ('LogFile',): None,
}
PLACE = {
    'Seed': 'seed', 'ListAllDamageStates': 'list_all_ds', 'UnitsFile': 'units_file',
    'DemandOffset': 'demand_offset', 'NonDirectionalMultipliers': 'nondir_multi_dict',
    'RepairCostAndTimeCorrelation': 'rho_cost_time', 'EconomiesOfScale': 'eco_scale',
    'ErrorSetup': 'error_setup'}
PARTS = {
    'models': [('Sampling', 'SamplingMethod'), ('ListAllDamageStates',),
               ('RepairCostAndTimeCorrelation',), ('EconomiesOfScale', 'AcrossFloors'),
               ('EconomiesOfScale', 'AcrossDamageStates')],
    'demands': [('DemandOffset', 'PFA'), ('DemandOffset', 'PFV'), ('DemandOffset', 'PID'),
                ('NonDirectionalMultipliers', 'ALL'),
                ('NonDirectionalMultipliers', 'PFA')],
    'errors': [('ErrorSetup', 'Loss', 'ReplacementThreshold', 'RaiseOnUnknownKeys'),
               ('ErrorSetup', 'Loss', 'Other'), ('UnitsFile',), ('Seed',)],
    'log': [('Verbose',), ('LogShowMS',), ('LogFile',), ('PrintLog',)],
}


def value(ctx, tag, key, d):
    """Any value of an option."""
    name = f'{tag} {"/".join(key)}'
    if key[0] in {'DemandOffset'}:
        return ctx.int(name, -3, 3)
    if key[0] in {'NonDirectionalMultipliers', 'RepairCostAndTimeCorrelation'}:
        return ctx.real(name, 0, 2)
    if key[0] == 'Seed':
        return ctx.choice(name, [0, 5])
    if key[-1] == 'SamplingMethod':
        return ctx.choice(name, ['LHS_midpoint', 'MonteCarlo'])
    if key[-1] in {'LogFile', 'UnitsFile'}:
        path = Path(d, f'{tag}.{key[-1]}.txt')
        path.write_text('{}')
        return str(path)
    if key[-1] == 'Other':
        return 'text'
    # the value that differs from the default
    return not DEFAULTS[key]


def outline(x):
    return {k: outline(v) for k, v in x.items()} if isinstance(x, dict) else None


def put(config, key, v):
    for k in key[:-1]:
        config = config.setdefault(k, {})
    config[key[-1]] = v


class Given:
    """One configuration; every option of a part is given or left out."""

    def __init__(self, ctx, tag, keys, d, every=False):
        self.config, self.want = {}, dict(DEFAULTS)
        for key in keys:
            if every or ctx.flag(f'{tag} gives {"/".join(key)}'):
                v = value(ctx, tag, key, d)
                put(self.config, key, v)
                self.want[key] = v

    def compare(self, ctx, options, label):
        for key, want in self.want.items():
            if key[0] in PLACE:
                got = getattr(options, PLACE[key[0]])
            elif key[0] == 'Sampling':
                got = options.sampling_method
            else:
                got = getattr(options.log, {'Verbose': 'verbose', 'PrintLog': 'print_log',
                                            'LogShowMS': 'log_show_ms',
                                            'LogFile': 'log_file'}[key[0]])
                if key[0] == 'LogFile' and want:
                    got, want = Path(got), Path(want).resolve()
            if key[0] not in {'Sampling'}:
                for k in key[1:]:
                    ctx.check(k in got, f'{label}: {key}')
                    got = got[k]
            if isinstance(want, (bool, str, Path)) or want is None:
                ctx.check(got == want and (isinstance(got, type(want)) or want is None),
                          f'{label}: {key}', f'{got} for {want}')
            else:
                ctx.eq(got, want, f'{label}: {key}')
        for key in ('DemandOffset', 'NonDirectionalMultipliers', 'EconomiesOfScale'):
            ctx.check(set(getattr(options, PLACE[key])) == {
                k[1] for k in self.want if k[0] == key}, f'{label}: nothing else in {key}')


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory() as d:
        yield d


def assess(ctx, config, cls):
    import pelicun.assessment as m
    return getattr(m, cls)(config)


CLASSES = ('Assessment', 'DLCalculationAssessment')


@harness('two assessments one after the other, each with any subset of the options of a '
         'group and any values of them; the configurations are changed afterwards and a '
         'third assessment uses none',
         [{'part': p, 'second': s} for p in PARTS for s in ('none', 'all', 'same')],
         must_reach=('options',))
def given(ctx, part, second):
    keys = PARTS[part]
    with folder() as d:
        one = Given(ctx, 'first', keys, d)
        before = deepcopy(one.config)
        a = assess(ctx, one.config, CLASSES[0])
        one.compare(ctx, a.options, 'options')
        ctx.check(outline(one.config) == outline(before), 'the configuration is as given')
        if second == 'same':
            # the same dictionary, used once more
            b = assess(ctx, one.config, CLASSES[1])
            two = one
        else:
            two = Given(ctx, 'second', keys if second == 'all' else (), d, every=True)
            b = assess(ctx, two.config, CLASSES[1])
        two.compare(ctx, b.options, 'options of the next assessment')
        one.compare(ctx, a.options, 'options of the earlier assessment')
        # the dictionaries belong to the user
        for key in (('DemandOffset', 'PFA'), ('NonDirectionalMultipliers', 'ALL'),
                    ('EconomiesOfScale', 'AcrossFloors'), ('DemandOffset', 'PSD')):
            for given_ in (one, two):
                put(given_.config, key, 7)
        for key, v in before.items():
            if isinstance(v, dict):
                one.config[key].clear()
        one.compare(ctx, a.options, 'options after a change of the configuration')
        two.compare(ctx, b.options, 'options after a change of the configuration')
        # nor do the options of one assessment belong to another
        a.options.demand_offset['PFA'] = 9
        a.options.nondir_multi_dict['ALL'] = 9
        two.compare(ctx, b.options, 'options after a change of the other options')
        for config in (None, {}):
            c = assess(ctx, config, CLASSES[0])
            Given(ctx, 'third', (), d).compare(ctx, c.options, 'defaults')
        ctx.reach('options')


@harness('options of the wrong shape: a value for a group, a group for a value, at '
         'every level, next to any other options',
         must_reach=('refused',))
def shape(ctx):
    key = ctx.choice('option', [
        ('Sampling',), ('DemandOffset',), ('EconomiesOfScale',), ('ErrorSetup',),
        ('ErrorSetup', 'Loss'), ('ErrorSetup', 'Loss', 'ReplacementThreshold'),
        ('NonDirectionalMultipliers',), ('Seed',), ('Verbose',), ('DemandOffset', 'PFA'),
        ('NonDirectionalMultipliers', 'ALL'), ('Sampling', 'SamplingMethod')])
    group = key in DEFAULTS
    with folder() as d:
        ok = Given(ctx, 'fine', [('RepairCostAndTimeCorrelation',)], d)
        good = assess(ctx, deepcopy(ok.config), CLASSES[0])
        put(ok.config, key, {'PFA': 1} if group else ctx.real('value', -2, 2))
        try:
            assess(ctx, ok.config, CLASSES[0])
        except ValueError as e:
            ctx.check(key[-1] in str(e), 'the message names the option')
            ctx.reach('refused')
        else:
            ctx.fail('options of the wrong shape', str(key))
        ok.compare(ctx, good.options, 'options')


@harness('two assessments with the same or different seeds, drawing in any order; the '
         'seed is set again',
         must_reach=('draws',))
def seeds(ctx):
    s = [ctx.choice(f'seed {i}', [0, 1, 7]) for i in range(2)]
    a, b = (assess(ctx, {'Seed': x}, c) for x, c in zip(s, CLASSES))
    want = [np.random.default_rng(x) for x in s]
    for i in range(4):
        k = int(ctx.flag(f'draw {i}'))
        got = (a, b)[k].options.rng.random()
        ctx.check(got == want[k].random(), 'the seed fixes what is drawn')
    if ctx.flag('seed again'):
        a.options.seed = 7
        ctx.check(a.options.seed == 7, 'seed')
        ctx.check(a.options.rng.random() == np.random.default_rng(7).random(),
                  'the new seed fixes what is drawn')
        ctx.check(b.options.rng.random() == want[1].random(),
                  'the seed of another assessment')
    ctx.reach('draws')


TEXT = ('alpha', 'beta\ngamma', 'delta')


@harness('two loggers, with and without a file, milliseconds and printing; 4 entries, each '
         'a message of one or two lines, a warning, or a warning kept for later, to either',
         [{'ms': ms, 'show': p, 'entry': e} for ms in (False, True)
          for p in (False, True) for e in ('message', 'warning', 'later')],
         must_reach=('entries',))
def story(ctx, ms, show, entry):
    import re

    import pelicun.base  # noqa: F401  (it sets how warnings are shown)
    from pelicun.pelicun_warnings import PelicunWarning

    caught, screen = [], io.StringIO()
    with folder() as d, warnings.catch_warnings(), contextlib.redirect_stdout(screen):
        warnings.simplefilter('always')
        ctx.patch(warnings, 'showwarning',
                  lambda m, c, *a, **k: caught.append((c, str(m))))
        files = [Path(d, 'a.log'), Path(d, 'b.txt')]
        for f in files:
            f.write_text('of an earlier calculation')
        logs = [assess(ctx, {'LogFile': str(f), 'LogShowMS': ms, 'PrintLog': p}, c
                       ).options.log
                for f, c, p in zip(files, CLASSES, (show, 'False'))]
        start = [f.read_text().count('\n') for f in files]
        screen.seek(0)
        screen.truncate()
        want, warned, later = [[], []], [[], []], [[], []]
        for i in range(4):
            kind = entry if i == 0 else ctx.choice(f'entry {i}', [
                'message', 'warning', 'later'])
            k = int(ctx.flag(f'to {i}'))
            if kind == 'message':
                text = TEXT[i % 2]
                logs[k].msg(text)
                want[k] += text.split('\n')
                continue
            # each text comes back after the other one
            text = TEXT[1 + i % 2]
            if text not in later[k]:
                later[k].append(text)
            if kind == 'warning':
                logs[k].warning(text)
                warned[k] += [t for t in later[k] if t not in warned[k]]
                later[k] = []
            else:
                logs[k].add_warning(text)
        for k in range(2):
            lines = files[k].read_text().split('\n')[1:][start[k]:]
            ctx.check(len(lines) == len(want[k]), 'every message once', f'{lines}')
            stamp = r'\d\d:\d\d:\d\d' + (r':\d{6}' if ms else '') + ' '
            for got, w in zip(lines, want[k]):
                first = w != 'gamma'
                ctx.check(re.fullmatch((stamp if first else ' +') + w, got) is not None,
                          'messages in order, with the time', got)
            name = files[k].with_name(files[k].stem + '_warnings' + files[k].suffix)
            got = [x.strip() for x in name.read_text().split('\n') if x.strip()]
            ctx.check(got == [x for t in warned[k] for x in t.split('\n')],
                      'every warning once', f'{got}')
        shown = [' '.join(m.split()) for c, m in caught if issubclass(c, PelicunWarning)]
        ctx.check(len(shown) == sum(map(len, warned)), 'warnings shown', f'{shown}')
        printed = [x for x in screen.getvalue().split('\n') if x.strip()]
        ctx.check([x.split()[-1] for x in printed] == (want[0] if show else []),
                  'messages shown', f'{printed}')
        ctx.check({p.name for p in Path(d).iterdir()} == {
            'a.log', 'a_warnings.log', 'b.txt', 'b_warnings.txt'}, 'files')
    ctx.reach('entries')
