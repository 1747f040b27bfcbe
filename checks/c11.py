"""C11  Damage processes change exactly what their events say."""

import contextlib
import io

import pandas as pd

from engine.harness import harness
from engine.dists import Rng
from engine.models import make_assessment

NAMES = ['cmp', 'loc', 'dir', 'uid', 'block']
COLS = [('src', '1', '1', '0', '1'), ('src', '2', '1', '0', '1'),
        ('tg.A', '1', '1', '0', '1'), ('tg.A', '2', '1', '0', '1'),
        ('tg_B', '2', '2', '0', '1'), ('tg.A.x', '1', '1', '0', '1'),
        ('tg.A', '3', '1', '0', '1')]


def sample(ctx, a, n, cols=COLS, hi=2):
    v = [[ctx.int(f's{i}{j}', -1, hi) for j in range(len(cols))] for i in range(n)]
    a.damage.ds_model.ds_sample = pd.DataFrame(
        v, columns=pd.MultiIndex.from_tuples(cols, names=NAMES),
        dtype=object if ctx.symbolic else 'int64')
    return v


def perform(a, *tasks):
    with contextlib.redirect_stdout(io.StringIO()):
        for t in tasks:
            a.damage.ds_model.perform_dmg_task(t)
    return a.damage.ds_model.ds_sample


def oracle(v, cols, task, events):
    """Plain-Python meaning of one task, applied to the rows of v in place."""
    src = task.split('_', 1)[1]
    by_loc = src.endswith('-LOC')
    src = src[:-4] if by_loc else src
    for ev, targets in events.items():
        k = int(ev[2:])
        for t in targets if isinstance(targets, list) else [targets]:
            cmp, st = t.rsplit('_', 1)
            new = -1 if st == 'NA' else int(st[2:])
            for row in v:
                for loc in sorted({c[1] for c in cols if c[0] == src}):
                    s = [x for x, c in zip(row, cols)
                         if c[0] == src and (c[1] == loc or not by_loc)]
                    mx = s[0]
                    for x in s[1:]:
                        mx = x if bool(x > mx) else mx
                    if bool(mx == k):
                        for j, c in enumerate(cols):
                            if (c[0] != src if cmp == 'ALL' else c[0] == cmp) and (
                                    c[1] == loc or not by_loc):
                                row[j] = new
                    if not by_loc:
                        break


TASKS = [
    ('1_src', {'DS1': 'tg.A_DS2'}),
    ('1_src', {'DS2': ['tg.A_DS1', 'tg_B_NA']}),
    ('1_src', {'DS1': 'tg.A_DS2', 'DS2': 'tg.A_DS0'}),
    ('1_src', {'DS1': 'ALL_NA'}),
    ('1_src', {'DS0': ['ALL_DS1']}),
    ('1_src-LOC', {'DS1': 'tg.A_DS2'}),
    ('1_src-LOC', {'DS2': 'ALL_NA'}),
    ('1_src-LOC', {'DS1': ['tg_B_DS3', 'tg.A_NA']}),
    ('1_tg_B', {'DS1': 'src_DS1'}),
    ('1_tg_B-LOC', {'DS1': ['src_DS2', 'missing_DS1']}),
    ('1_missing', {'DS1': 'src_DS2'}),
    ('1_src', {'DS1': ['missing_DS1', 'tg.A_DS2']}),
    ('1_tg_B-LOC', {'DS1': 'ALL_DS2'}),
    ('1_tg.A-LOC', {'DS1': 'tg.A.x_DS2', 'DS2': 'ALL_NA'}),
    ('1_tg.A', {'DS1': ['tg.A.x_DS2', 'tg.A_DS0']}),
]


@harness('15 task shapes (single and several targets, ALL, NA, location match, '
         'missing components, similar names); 7 columns in either order and any damage state -1..2, 1 '
         'realization', [{'t': t, 'rev': r} for t in range(len(TASKS))
                         for r in (False, True)],
         must_reach=('states after the task',))
def single(ctx, t, rev):
    a = make_assessment(ctx)
    cols = COLS[::-1] if rev else COLS
    v = sample(ctx, a, 1, cols)
    task = TASKS[t]
    out = perform(a, task)
    want = [list(r) for r in v]
    if task[0].split('_', 1)[1] != 'missing':
        oracle(want, cols, *task)
    compare(ctx, out, cols, want)


def compare(ctx, out, cols, want):
    ctx.check([tuple(c) for c in out.columns] == cols, 'columns kept')
    for i, row in enumerate(want):
        for j, x in enumerate(row):
            ctx.eq(out.iloc[i, j], x, 'states after the task')


@harness('2 realizations, 3 columns; each realization is decided by its own '
         'states', [{'t': t} for t in (0, 3, 5)],
         must_reach=('states after the task',))
def per_realization(ctx, t):
    a = make_assessment(ctx)
    cols = COLS[:1] + COLS[2:4]
    v = sample(ctx, a, 2, cols)
    out = perform(a, TASKS[t])
    want = [list(r) for r in v]
    oracle(want, cols, *TASKS[t])
    compare(ctx, out, cols, want)


GROUPS = [('src', '1', '1', '0', '1'), ('src.x', '1', '1', '0', '1'),
          ('src', '1', '2', '0', '1'), ('src', '2', '1', '0', '1'),
          ('tg', '1', '1', '0', '1'), ('tg', '2', '1', '0', '1')]


@harness('a source with several performance groups at a location and another '
         'component whose name starts with its name; 6 columns in either order, '
         'damage states -1..2, 1 realization, 6 task shapes',
         [{'src': s, 'event': e, 'rev': r} for s in ('src', 'src-LOC')
          for e in ('tg_DS2', 'ALL_NA', 'src.x_DS0') for r in (False, True)],
         must_reach=('states after the task',))
def groups(ctx, src, event, rev):
    a = make_assessment(ctx)
    cols = GROUPS[::-1] if rev else GROUPS
    v = sample(ctx, a, 1, cols)
    task = (f'1_{src}', {'DS1': event})
    out = perform(a, task)
    want = [list(r) for r in v]
    oracle(want, cols, *task)
    compare(ctx, out, cols, want)


CHAIN = {
    '10_tg_B': {'DS1': 'tg.A.x_DS2'},
    '2_tg.A': {'DS1': 'tg_B_DS1'},
    '1_src': {'DS1': 'tg.A_DS1'},
    '3_tg.A': {'DS1': 'src_DS0'},
}


@harness('a process of 4 chained tasks given in every order; tasks are performed '
         'in the order of their numbers', must_reach=('states after the task',))
def process(ctx):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'},
                              'DemandOffset': {'PFA': 0}})
    cols = [COLS[0], COLS[2], COLS[4], COLS[5]]
    v = sample(ctx, a, 1, cols, 1)
    keys = list(CHAIN)
    order = ctx.perm('order', 4)
    proc = {keys[i]: CHAIN[keys[i]] for i in order}
    model = a.damage.ds_model
    # the damage states are given: only the process is of interest
    type(model)
    ctx.patch(type(model), 'obtain_ds_sample', lambda self, **k: None)
    seen = {}
    ctx.patch(type(model), 'prepare_dmg_quantities',
              lambda self, *x, **k: seen.setdefault('ds', self.ds_sample))
    a.asset.cmp_sample = pd.DataFrame(
        [[1.0] * 4], columns=pd.MultiIndex.from_tuples([c[:4] for c in cols]))
    a.asset.cmp_marginal_params = pd.DataFrame(index=a.asset.cmp_sample.columns)
    a.demand.sample = pd.DataFrame()
    with contextlib.redirect_stdout(io.StringIO()):
        a.damage.calculate(dmg_process=proc)
    ctx.check(list(proc) == [keys[i] for i in order], 'process untouched')
    want = [list(r) for r in v]
    for k in sorted(CHAIN, key=lambda x: int(x.split('_')[0])):
        oracle(want, cols, k, CHAIN[k])
    compare(ctx, seen['ds'], cols, want)


@harness('malformed events', must_reach=('refused',))
def malformed(ctx):
    a = make_assessment(ctx)
    sample(ctx, a, 1)
    for t in (('1_src', {'LS1': 'tg.A_DS1'}), ('1_src', {'DS1': 'tg.A_LS1'}),
              ('1_src', {'DSx': 'tg.A_DS1'}), ('1_src', {'DS1': 'tg.A_DSx'})):
        try:
            perform(a, t)
        except ValueError:
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', str(t))
