"""C23  A regional simulation is every building's own calculation."""

import contextlib
import inspect
import os
import sys
import tempfile
import types
from pathlib import Path

import numpy as np

from checks.c20 import MedianRng, fragility, library, quiet, token
from checks.c21 import consequences
from checks.c22 import load_csv, number
from engine.harness import assume_note, harness
from engine.models import make_assessment
from engine.sym import Sym

assume_note(
    'the damage and loss calculation of one building is the one checked in C01-C21; '
    'here it is followed through the mapping, the batches and the files',
    'the positions of grid points and buildings are fixed; scikit-learn finds the '
    'neighbours', 'the batch size (1000 buildings) is a constant of the code, which the '
    'batches harness replaces by 2', 'the batches run in one process, their files '
    'are listed in either order')

AUTO = '''
import pandas as pd

def auto_populate(aim):
    info = aim['GeneralInformation']
    comp = pd.DataFrame(
        [['ea', 1, 1, 1, 'N/A']], index=[PREFIX + info['StructureType']],
        columns=['Units', 'Location', 'Direction', 'Theta_0', 'Family'])
    return info, {'Losses': {'Repair': {'DecisionVariables': {
        'Cost': True, 'Carbon': False, 'Time': TIME}}}}, comp
'''
METHODS = {'eq': 'Hazus Earthquake - Buildings',
           'wind': 'Hazus Hurricane Wind - Buildings'}
# grid points and buildings of the region (longitude, latitude)
GRID = [(0.0, 0.0), (4.0, 0.0), (0.0, 3.0), (10.0, 10.0)]
WHERE = {'corner': (0.0, 0.0), 'edge': (1.0, 0.0), 'inside': (0.5, 2.0),
         'far': (9.0, 9.0)}
IMS = {'PGA': ('Peak Ground Acceleration', 'g'),
       'SA_0.3': ('Spectral Acceleration|0.3', 'g'),
       'PWS': ('Peak Gust Wind Speed', 'mph'),
       'PIH': ('Peak Inundation Height', 'ft')}


def weights(at, n, weight='distance2', grid=GRID):
    """{grid point: weight} of the n closest grid points."""
    d = {i: sum((a - b) ** 2 for a, b in zip(at, g)) ** 0.5
         for i, g in enumerate(grid)}
    near = sorted(d, key=d.get)[:n]
    if weight == 'uniform':
        return {i: 1 / n for i in near}
    if d[near[0]] == 0:
        return {near[0]: 1.0}
    w = {i: d[i] ** (-2 if weight == 'distance2' else -1) for i in near}
    return {i: x / sum(w.values()) for i, x in w.items()}


class Draw(MedianRng):
    """Latin hypercubes in any order give the same results: take one."""

    def permutation(self, n):
        return np.roll(np.arange(n), 1)


class Region:
    def __init__(self, ctx, kind, buildings, ims, states, neighbours=2, raw=2, n=3,
                 extra=(), time=True, samples=None):
        """
        buildings: {id: (position, structure type, occupancy class)}, in the order
        of the inventory; states: {id: (state of raw realization 0, 1..)} with None
        left to the solver; `extra` are measures that are in the event only.
        """
        self.ctx, self.kind, self.bld, self.ims = ctx, kind, buildings, ims
        self.n, self.raw, self.neighbours, self.time = n, raw, neighbours, time
        self.extra = extra
        # demand realizations asked for; those available are repeated
        self.samples = samples or raw
        self.prefix = 'LF.' if kind == 'eq' else ''
        types_ = sorted({b[1] for b in buildings.values()})
        # the measure that damages a kind of structure
        self.by = {s: ims[i % len(ims)] for i, s in enumerate(types_)}
        self.cap = {}
        for s in types_:
            a, c = self.cap[s] = [ctx.real(f'capacity {s}{i}', 0.1, 39)
                                  for i in range(2)]
            ctx.assume(c > a + 1)
        self.value = {
            (g, im, r): ctx.real(f'{im}[{g},{r}]', 0, 40)
            for g in range(len(GRID)) for im in (*ims, *extra) for r in range(raw)}
        loss = types_ if kind == 'wind' else sorted({b[2] for b in buildings.values()})
        self.con = {(k, dv): [ctx.real(f'{dv} {k}{i}', 1, 1000) for i in range(2)]
                    for k in loss for dv in (('Cost', 'Time') if time else ('Cost',))}
        self.demand = {}
        for b, (at, *_) in buildings.items():
            w = weights(WHERE[at], neighbours)
            for im in ims:
                self.demand[b, im] = [
                    sum(x * self.value[g, im, r] for g, x in w.items())
                    for r in range(raw)]
        self.states = {}
        for b, (_, s, _) in buildings.items():
            for r in range(raw):
                d, k = self.demand[b, self.by[s]][r], states.get(b, ())
                k = k[r] if r < len(k) else 0
                if k is None:
                    k = sum(bool(d > x) for x in self.cap[s])
                # away from the ties, which rounding decides
                for i, x in enumerate(self.cap[s]):
                    ctx.assume(d > x + 0.01 if i < k else d < x - 0.01)
                self.states[b, r] = k

    def files(self):
        m = METHODS[self.kind]
        p = self.prefix
        return {
            (m, 'pelicun_config.py'): AUTO.replace('PREFIX', repr(p)).replace(
                'TIME', str(self.time)),
            (m, 'fragility.csv'): fragility({
                p + s: (*IMS[self.by[s]], self.cap[s]) for s in self.cap}),
            (m, 'consequence_repair.csv'): consequences({
                (p + k, dv): v for (k, dv), v in self.con.items()})}

    def write(self, d, filt=None):
        """The inputs of the simulation."""
        import json

        event = Path(d, 'event')
        event.mkdir()
        grid = ['GP_file,Longitude,Latitude']
        ims = [*self.extra, *reversed(self.ims)]
        for i, (x, y) in enumerate(GRID):
            grid.append(f'site{i}.csv,{x},{y}')
            (event / f'site{i}.csv').write_text('\n'.join(
                [','.join(ims)] + [
                    ','.join(token(self.value[i, im, r]) for im in ims)
                    for r in range(self.raw)] + [','.join('9' for _ in ims)] * (
                        self.samples == self.raw)) + '\n')
        (event / 'grid.csv').write_text('\n'.join(grid) + '\n')
        Path(d, 'inventory.csv').write_text('\n'.join(
            ['id,Latitude,Longitude,OccupancyClass,StructureType'] + [
                f'{b},{WHERE[at][1]},{WHERE[at][0]},{occ},{s}'
                for b, (at, s, occ) in self.bld.items()]) + '\n')
        assets = {'pathToSource': str(d), 'assetSourceFile': 'inventory.csv'}
        if filt is not None:
            assets['filter'] = filt
        Path(d, 'config.json').write_text(json.dumps({
            'Applications': {
                'RegionalMapping': {'Buildings': {'ApplicationData': {
                    'samples': self.samples, 'neighbors': self.neighbours}}},
                'DL': {'Buildings': {'ApplicationData': {
                    'Realizations': self.n, 'DL_Method': METHODS[self.kind]}}},
                'Assets': {'Buildings': {'ApplicationData': assets}}},
            'RegionalEvent': {
                'units': {im: IMS[im][1] for im in self.ims},
                'eventFilePath': str(event), 'eventFile': 'grid.csv'}}))

    def run(self, d, batch=None, listing=None, filt=None, words=None):
        """Run the simulation in d."""
        import pelicun.tools.NNR as nnr
        import pelicun.tools.regional_sim as m

        def factory(config_options=None):
            a = make_assessment(self.ctx, {**(config_options or {}), 'LogFile': None,
                                           'Verbose': False})
            a.options._rng = Draw(self.ctx)
            return a

        self.ctx.symnp(m, nnr)
        self.ctx.patch(m, 'Assessment', factory)
        if listing:
            real = os.listdir
            self.ctx.patch(os, 'listdir', lambda p='.': sorted(
                real(p), reverse=listing == 'reversed'))
        with library(self.ctx, self.files()), in_folder(d), open(
                os.devnull, 'w') as null, contextlib.redirect_stderr(null):
            self.write(d, filt)
            if words is not None:
                quiet(self.command, d, words)
            else:
                quiet(with_batches(m.regional_sim, batch), str(Path(d, 'config.json')),
                      num_cores=1)

    def command(self, d, words):
        """As it is run from a shell in d."""
        from pelicun import cli

        if not any('json' in w for w in words):
            Path(d, 'config.json').rename(Path(d, 'inputRWHALE.json'))
        # without a number of cores, one is left for other work
        self.ctx.patch(os, 'cpu_count', lambda: self.ctx.choice('cores', [1, 2]))
        self.ctx.patch(sys, 'argv', ['pelicun', 'regional_sim', *words])
        cli.main()

    def verify(self, d, ids=None):
        """The files in d."""
        ctx, ids = self.ctx, list(self.bld) if ids is None else ids
        have = {p.name for p in Path(d).iterdir()}
        ctx.check(('repair_times.csv' in have) == self.time, 'files')
        dem = load_csv(Path(d, 'demand.csv'))
        ctx.check(list(dem) == [f'{im}-{b}-1' for b in ids for im in self.ims],
                  'demands of the buildings')
        for b in ids:
            for im in self.ims:
                col = dem[f'{im}-{b}-1']
                ctx.check(list(col) == [*map(str, range(self.samples)), 'Units'],
                          'demand realizations')
                ctx.check(col['Units'] == IMS[im][1], 'demand units')
                for r in range(self.samples):
                    ctx.eq(number(col[str(r)]), self.demand[b, im][r % self.raw],
                           'demand')
        for f in ['damage', 'repair_costs'] + ['repair_times'] * self.time:
            t = load_csv(Path(d, f + '.csv'))
            ctx.check(list(t) == [str(i) for i in range(self.n)], f'{f} realizations')
            for i in range(self.n):
                col = t[str(i)]
                ctx.check(list(col) == [str(b) for b in ids], f'{f} buildings')
                for b in ids:
                    k = self.states[b, i % self.samples % self.raw]
                    if f == 'damage':
                        want = k
                    else:
                        _, s, occ = self.bld[b]
                        con = self.con[s if self.kind == 'wind' else occ,
                                       'Cost' if 'cost' in f else 'Time']
                        want = con[k - 1] if k else 0.0
                    got = number(col[str(b)])
                    if not isinstance(got, Sym):
                        ctx.check(not np.isnan(got), f'{f} of a building')
                    ctx.eq(got, want, f'{f} of a building')


@contextlib.contextmanager
def in_folder(d):
    here, path = os.getcwd(), list(sys.path)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)
        sys.path[:] = path


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory() as d:
        yield str(Path(d).resolve())


def with_batches(f, size):
    """f with another batch size."""
    if size is None:
        return f
    code = f.__code__
    consts = tuple(size if type(c) is int and c == 1000 else c for c in code.co_consts)
    return types.FunctionType(code.replace(co_consts=consts), f.__globals__,
                              f.__name__, f.__defaults__, f.__closure__)


TOWN = {7: ('edge', 'W1', 'RES1'), 12: ('corner', 'S1', 'COM1'),
        3: ('inside', 'W1', 'COM1')}
# damage state of every building in the two demand realizations
MIX = {7: (1, 2), 12: (2, 0), 3: (0, 1)}


@harness('3 buildings, 4 grid points with 1 or 2 intensity measures in 2 realizations, 2 neighbours, 3 damage realizations: any damage of one building (the other two in fixed states), any value of the measures, capacities and consequences',
         [
    dict(kind=k, free=f, ims=ims) for k, pair in
    (('eq', ('PGA', 'SA_0.3')), ('wind', ('PIH', 'PWS')))
    for f, ims in ((7, pair), (3, pair[::-1]), (12, pair[:1]))],
         must_reach=('demand', 'damage of a building', 'repair_costs of a building'))
def simulation(ctx, kind, free, ims):
    """One building is damaged in any way, the other two are as in MIX."""
    r = Region(ctx, kind, TOWN, ims, {**MIX, free: (None, None)},
               extra=('PGV',) if len(ims) == 1 else ())
    with folder() as d:
        r.run(d)
        r.verify(d)


@harness('3 buildings, of which none or some are ever damaged; earthquake and wind, with and without repair time',
         [
    dict(kind=k, hurt=h, time=t) for k in METHODS
    for h in ((), (7,), (12,), (3,), (7, 3)) for t in ((True,) if k == 'eq' else
                                                       (True, False))],
         must_reach=('repair_costs of a building',))
def undamaged(ctx, kind, hurt, time):
    """Some buildings, or all of them, are never damaged."""
    r = Region(ctx, kind, TOWN, ('PGA',) if kind == 'eq' else ('PWS',),
               {b: (0, 1 + b % 2) for b in hurt}, n=2, time=time)
    with folder() as d:
        r.run(d)
        r.verify(d)


@harness('4 buildings, 1, 3 or 4 neighbours, 1 or 3 demand realizations for 2 damage realizations; 2 available, 5 or 3 asked for, for 4 or 7',
         [
    dict(neighbours=k, raw=w, n=n, samples=w) for k in (1, 3, 4)
    for w, n in ((1, 2), (3, 2))] + [
    dict(neighbours=2, raw=2, n=n, samples=m) for m, n in ((5, 7), (3, 7), (3, 4))],
         must_reach=('demand',))
def mapping(ctx, neighbours, raw, n, samples):
    """Any number of neighbours and of realizations."""
    r = Region(ctx, 'eq', {**TOWN, 1: ('far', 'S1', 'RES1')}, ('SA_0.3', 'PGA'),
               {7: (1, 2, 0), 12: (2, 0, 1), 3: (0, 1, 2), 1: (2, 2, 2)},
               neighbours=neighbours, raw=raw, n=n, samples=samples)
    with folder() as d:
        r.run(d)
        r.verify(d)


@harness('3 buildings, started from the command line: the configuration given or left '
         'out, 1 core or those there are (1 or 2), in either order; any number of cores '
         'is passed on',
         [dict(words=w) for w in ((), ('config.json',), ('config.json', '-n', '1'),
                                  ('--num-cores', '1', 'config.json'), ('-n', '1'))],
         must_reach=('damage of a building',))
def shell(ctx, words):
    """The simulation of the command line is that of its configuration."""
    from pelicun import cli

    r = Region(ctx, 'eq', TOWN, ('PGA',), MIX, n=2)
    with folder() as d:
        r.run(d, words=words)
        r.verify(d)
    calls = []
    if not hasattr(cli, 'regional_sim'):
        return
    sig = inspect.signature(cli.regional_sim)
    ctx.patch(cli, 'regional_sim', lambda *a, **k: calls.append(
        sig.bind(*a, **k).arguments))
    n = int(ctx.int('number of cores', 1, 9)) if '1' in words else None
    ctx.patch(sys, 'argv', ['pelicun', 'regional_sim', *(
        str(n) if w == '1' else w for w in words)])
    cli.main()
    ctx.check([(c['config_file'], c.get('num_cores')) for c in calls] == [
        ('config.json' if 'config.json' in words else 'inputRWHALE.json', n)], 'cores')


FIVE = {**TOWN, 1: ('far', 'S1', 'RES1'), 4: ('corner', 'W1', 'EDU1')}


@harness('5 buildings in batches of 1 and 2, collected in either order',
         [
    dict(kind=k, batch=b, listing=o) for k in METHODS for b in (1, 2)
    for o in ('sorted', 'reversed')],
         must_reach=('damage of a building',))
def batches(ctx, kind, batch, listing):
    """Buildings are processed in batches; the results do not depend on them."""
    r = Region(ctx, kind, FIVE, ('PGA',) if kind == 'eq' else ('PWS',),
               {**MIX, 1: (2, 2), 4: (1, 0)}, n=2)
    with folder() as d:
        r.run(d, batch=batch, listing=listing)
        r.verify(d)


@harness('5 or 6 buildings, 6 filters',
         [
    dict(filt=f, ids=i) for f, i in (
        ('', None), ('7', [7]), ('3, 12', [3, 12]), ('1-4', [1, 3, 4]),
        ('12,3-4,3', [3, 4, 12]), (' 4 - 4 ,,7', [4, 7]))],
         must_reach=('damage of a building',))
def selection(ctx, filt, ids):
    """Only the buildings of the filter are calculated."""
    town = dict(FIVE)
    if filt == '1-4':
        town[2] = ('far', 'W1', 'RES1')
        ids = [1, 2, 3, 4]
    r = Region(ctx, 'eq', town, ('PGA',), {**MIX, 1: (2, 2), 4: (1, 0)}, n=2)
    with folder() as d:
        r.run(d, filt=filt)
        r.verify(d, ids)


def split_ids(parts):
    return sorted({i for a, b in parts for i in range(a, b + 1)})


@harness('filters of 1 or 2 entries, ids and ends of ranges any of 0..4',
         [dict(form=f) for f in ('a', 'a-b', 'a,b-c', 'a-b,c', 'b-c,a-a')],
         must_reach=('ids', 'reversed range refused'))
def filters(ctx, form):
    """A filter lists ids and ranges of ids; every id appears once, in order."""
    import pelicun.tools.regional_sim as m

    v = {k: int(ctx.int(k, 0, 4)) for k in 'abc'}
    parts, text = [], []
    for p in form.split(','):
        a, b = v[p[0]], v[p[-1]]
        parts.append((a, b))
        text.append(f'{a}-{b}' if '-' in p else f'{a}')
    bad = any(a > b for a, b in parts)
    try:
        got = m.parse_id_filter(', '.join(text))
    except ValueError:
        ctx.check(bad, 'range accepted')
        return
    ctx.check(not bad, 'reversed range refused')
    ctx.check(list(got) == split_ids(parts), 'ids')


@harness('4 known points, 4 targets, 1, 2 or 4 neighbours, every weighting, 1 to 3 dimensional known values in [-50, 50]',
         [
    dict(weight=w, n=n, dims=k) for w in ('distance2', 'distance1', 'uniform')
    for n in (1, 2, 4) for k in (1, 2, 3)] + [
    dict(weight='distance2', n=n, dims=k, line=True) for n in (1, 2) for k in (1, 3)],
         must_reach=('estimate',))
def neighbours(ctx, weight, n, dims, line=False):
    """Interpolation between the closest points."""
    import pelicun.tools.NNR as m

    ctx.symnp(m)
    shape = (len(GRID), 2, 3)[:dims]
    v = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        v[i] = ctx.real('v' + ''.join(map(str, i)), -50, 50)
    if not ctx.symbolic:
        v = v.astype(float)
    target, source = np.array(list(WHERE.values())), np.array(GRID)
    if line:
        target, source = np.array([1.0, 2.5, 4.0]), np.array([4.0, -2.0, 3.0, 9.0])
    got = m.NNR(target=target, source=source, known_values=v, n_neighbors=n,
                weight=weight)
    ctx.check(got.shape == (len(target), *shape[1:]), 'shape')
    for t in range(len(target)):
        w = weights(target.reshape(len(target), -1)[t], n, weight,
                    source.reshape(len(source), -1))
        for i in np.ndindex(shape[1:]):
            ctx.eq(got[(t, *i)], sum(x * v[(g, *i)] for g, x in w.items()), 'estimate')


class Draws:
    """Which of the neighbours every realization comes from, freely chosen."""

    def __init__(self, ctx):
        self.ctx, self.seen = ctx, []

    def multinomial(self, n, pvals, size):
        assert n == 1
        out = np.zeros((size, len(pvals)), dtype=int)
        pick = [int(self.ctx.int(f'pick {len(self.seen)},{i}', 0, len(pvals) - 1))
                for i in range(size)]
        for i, k in enumerate(pick):
            out[i, k] = 1
        self.seen.append((list(pvals), pick))
        return out


@harness('as above, 2 neighbours, 2 targets, 4 new realizations: any choice of neighbours',
         [
    dict(weight=w, dims=k) for w in ('distance2', 'distance1', 'uniform')
    for k in (1, 2, 3)],
         must_reach=('realization', 'probability'))
def resampling(ctx, weight, dims):
    """Every new realization is one realization of one of the closest points."""
    import pelicun.tools.NNR as m

    ctx.symnp(m)
    rng = Draws(ctx)
    ctx.patch(np.random, 'default_rng', lambda *a, **k: rng)
    shape, size, n = (len(GRID), 2, 3)[:dims], 4, 2
    v = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        v[i] = ctx.real('v' + ''.join(map(str, i)), -50, 50)
    if not ctx.symbolic:
        v = v.astype(float)
    places = [WHERE['edge'], WHERE['far']]
    got = m.NNR(target=np.array(places), source=np.array(GRID), known_values=v,
                sample_size=size, n_neighbors=n, weight=weight)
    ctx.check(got.shape == (len(places), 1 if dims == 1 else 2, size), 'shape')
    for t, at in enumerate(places):
        w = weights(at, n, weight)
        p, pick = rng.seen[t]
        near = sorted(w, key=lambda g: sum(
            (a - b) ** 2 for a, b in zip(at, GRID[g])))
        for x, g in zip(p, near):
            ctx.eq(x, w[g], 'probability')
        for i, k in enumerate(pick):
            for f in range(got.shape[1]):
                at_ = (near[k], f, i % 3)[:dims]
                ctx.eq(got[t, f, i], v[at_], 'realization')
