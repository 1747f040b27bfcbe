"""C17  The asset model expands to the right groups with the right quantities."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.harness import assume_note, harness
from engine.models import arr, make_assessment, used_symbols

assume_note('the quantile functions of the families are those of pelicun.uq '
            '(checked in C01)')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def table(ctx, rows):
    """rows: list of (id, {column: value})"""
    cols = list(dict.fromkeys(k for _, r in rows for k in r))
    df = pd.DataFrame([[r.get(c, np.nan) for c in cols] for _, r in rows],
                      index=[i for i, _ in rows], columns=cols, dtype=object)
    return df if ctx.symbolic else df.infer_objects()


LOCS = {'1': [1], '2.0': [2], 3: [3], '1--3': [1, 2, 3], '3,1': [1, 3],
        '1,1': [1, 1], 'all': [1, 2, 3, 4], 'top': [4], 'roof': [5], '0--top': [0, 1, 2, 3, 4],
        '3--roof': [3, 4, 5], 1.0: [1], '0': [0]}
DIRS = {'1': [1], 2: [2], '2,2': [2, 2], '1,2': [1, 2], '0--2': [0, 1, 2], None: [1], 2.0: [2],
        '0': [0]}


def groups(a):
    mp = a.asset.cmp_marginal_params
    return list(mp.index.names), {tuple(str(x) for x in k): r
                                  for k, r in mp.iterrows()}


@harness('3 rows: one with every form of location and direction, one overlapping '
         'with it, one of another component; symbolic quantities and unit '
         'factors, 1-3 blocks; every order of the rows',
         [{'loc': x, 'dr': '1,2'} for x in LOCS]
         + [{'loc': '1--3', 'dr': x} for x in DIRS],
         must_reach=('groups', 'quantity', 'blocks', 'unit of the component'))
def expansion(ctx, loc, dr):
    f = ctx.real('f', 0.01, 100)
    g = ctx.real('g', 0.01, 100)
    a = make_assessment(ctx, units={'uf': f, 'ug': g}, stories=4)
    q = [ctx.real(f'q{i}', 0.1, 10) for i in range(3)]
    b = ctx.choice('blocks', [(3, 2, 1), (None, 2, 3)])
    rows = [('c.1', loc, dr, 'uf', q[0], b[0]), ('c.1', '1', '2', 'uf', q[1], b[1]),
            ('c.2', '1', '1', 'ug', q[2], b[2])]
    fam = ctx.choice('family column', [False, True])
    ctx_units = 'units' if fam else 'Units'
    rows = [rows[i] for i in ctx.perm('order', 3)]
    tab = []
    for r in rows:
        d = {ctx_units: r[3], 'Location': r[1], 'Direction': r[2], 'Theta_0': r[4]}
        if r[2] is None:
            d['Direction'] = np.nan
        if fam:
            d['Family'] = np.nan
        if r[5] is not None:
            d['Blocks'] = r[5]
        tab.append((r[0], d))
    src = table(ctx, tab)
    before = src.copy()
    quiet(a.asset.load_cmp_model, {'marginals': src})
    ctx.check(src.equals(before) or ctx.symbolic, 'input untouched')
    names, got = groups(a)
    ctx.check(names == ['cmp', 'loc', 'dir', 'uid'], 'layout')
    want = [('c.1', str(x), str(y), q[0] * f, b[0] or 1)
            for x in LOCS[loc] for y in DIRS[dr]]
    want += [('c.1', '1', '2', q[1] * f, b[1]), ('c.2', '1', '1', q[2] * g, b[2])]
    ctx.check(len(got) == len(want), 'groups')
    left = got
    for w in want:
        # rows are told apart by their number of blocks
        m = [k for k, r in left.items() if k[:3] == w[:3] and int(r['Blocks']) == w[4]]
        # a place listed twice has two equal groups
        ctx.check(len(m) == sum(v[:3] + v[4:] == w[:3] + w[4:] for v in want), 'groups')
        if not m:
            return
        r = left[m[0]]
        ctx.eq(r['Theta_0'], w[3], 'quantity')
    for k in {k[:3] for k in got}:
        uids = sorted(v[3] for v in got if v[:3] == k)
        ctx.check(uids == [str(i) for i in range(len(uids))], 'uid')
    ctx.reach('blocks')
    u = a.asset.cmp_units
    ctx.check(dict(u) == {'c.1': 'uf', 'c.2': 'ug'}, 'unit of the component')
    ctx.check(sorted(a.asset.list_unique_component_ids()) == ['c.1', 'c.2'],
              'components')


FAM = {'normal': (4.0, 0.2), 'lognormal': (4.0, 0.3), 'uniform': (2.0, 6.0),
       'normal_std': (4.0, 0.7), None: (4.0, np.nan)}


@harness('2 rows of one component in different units (or a multiple of one), any '
         'family and truncation limits',
         [{'fam': x, 'other': y} for x in FAM for y in ('ug', '3 uf', 'uf')],
         must_reach=('own unit',))
def own_unit(ctx, fam, other):
    f, g = ctx.real('f', 0.01, 100), ctx.real('g', 0.01, 100)
    a = make_assessment(ctx, units={'uf': f, 'ug': g})
    k = {'uf': f, 'ug': g, '3 uf': 3 * f}
    q = [ctx.real(f'q{i}', 0.5, 5) for i in range(2)]
    s = ctx.real('s', 0.1, 0.9) if fam != 'uniform' else ctx.real('s', 6, 9)
    lo, hi = ctx.real('lo', 0.1, 0.4), ctx.real('hi', 10, 20)
    rows = []
    for i, u in enumerate(('uf', other)):
        d = {'Units': u, 'Location': str(i + 1), 'Direction': '1', 'Theta_0': q[i],
             'Family': np.nan, 'Theta_1': np.nan}
        if i == 1 and fam:
            d.update(Family=fam, Theta_1=s, TruncateLower=lo, TruncateUpper=hi)
        rows.append(('c.1', d))
    if ctx.flag('other row first'):
        rows = rows[::-1]
    quiet(a.asset.load_cmp_model, {'marginals': table(ctx, rows)})
    _, got = groups(a)
    ctx.check(set(got) == {('c.1', '1', '1', '0'), ('c.1', '2', '1', '0')}, 'groups')
    ctx.eq(got['c.1', '1', '1', '0']['Theta_0'], q[0] * f, 'own unit')
    r = got['c.1', '2', '1', '0']
    ctx.eq(r['Theta_0'], q[1] * k[other], 'own unit')
    if fam:
        sc = k[other] if fam in ('uniform', 'normal_std') else 1
        ctx.check(r['Family'] == fam, 'family')
        ctx.eq(r['Theta_1'], s * sc, 'second parameter')
        ctx.eq(r['TruncateLower'], lo * k[other], 'limits')
        ctx.eq(r['TruncateUpper'], hi * k[other], 'limits')


@harness('3 groups of families random / deterministic / random at different places or '
         'two random ones at the same place, 2 realizations, '
         'every pair of families, with truncation limits; sample size given or '
         'that of the demands',
         [{'f1': x, 'f2': y, 'twice': z} for x, y in (
             ('normal', 'lognormal'), ('uniform', 'normal'), ('lognormal', None),
             ('normal_std', 'uniform'), (None, None)) for z in (False, True)],
         must_reach=('quantity',))
def sample(ctx, f1, f2, twice):
    from pelicun import uq

    f = ctx.choice('factor', [1.0, 2.0])
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}},
                        units={'uf': f})
    rng = Rng(ctx)
    rng.lim = (1e-9, 1 - 1e-9)  # away from rounding at the ends
    a.options._rng = rng
    groups = [('c.1', '1', f1), ('c.2', '1', None), ('c.2', '2', f2)]
    if twice:
        groups[1] = ('c.1', '1', f2)
    if ctx.flag('reversed'):
        groups = groups[::-1]
    spec, rows = {}, []
    for c, loc, fam in groups:
        uid = sum(k[:2] == (c, loc) for k in spec)
        spec[c, loc, '1', str(uid)] = fam
        t0, t1 = FAM[fam]
        d = {'Units': 'uf', 'Location': loc, 'Direction': '1', 'Theta_0': t0,
             'Family': fam or np.nan, 'Theta_1': t1}
        if fam:
            d.update(TruncateLower=1.0)
        rows.append((c, d))
    quiet(a.asset.load_cmp_model, {'marginals': table(ctx, rows)})
    n = 2
    if ctx.flag('size given'):
        quiet(a.asset.generate_cmp_sample, n)
    else:
        a.demand.sample = pd.DataFrame(np.zeros((n, ctx.choice('demands', [1, 3]))))
        quiet(a.asset.generate_cmp_sample)
    out = a.asset.cmp_sample
    ctx.check(list(out.columns.names) == ['cmp', 'loc', 'dir', 'uid']
              and {tuple(c) for c in out.columns} == set(spec)
              and list(out.index) == list(range(n)), 'layout')
    draws = list(rng.memo.values())
    seen = set()
    for k, fam in spec.items():
        t0, t1 = FAM[fam]
        for i in range(n):
            v = out[k].iloc[i]
            if fam is None:
                ctx.eq(v, t0 * f, 'quantity')
                continue
            sc = f if fam in ('uniform', 'normal_std') else 1
            rv = uq.rv_class_map(fam)(
                name='x', theta=np.array([t0 * f, t1 * sc]),
                truncation_limits=np.array([1.0 * f, np.nan]))
            if ctx.symbolic:
                names = used_symbols(v)
                mine = [x for x in draws if str(x.t) in names]
                ctx.check(len(mine) == 1 and not names & seen, 'own draw')
                if len(mine) != 1:
                    return
                seen |= names
                ctx.eq(v, rv.inverse_transform(arr(ctx, mine))[0], 'quantity')
            else:
                q = rv.inverse_transform(np.array(draws, dtype=float))
                hit = [j for j in np.where(np.isclose(q, v))[0] if j not in seen]
                ctx.check(bool(hit), 'quantity')
                seen.add(hit[0] if hit else None)


@harness('Latin hypercube options, 2-3 realizations, uniform quantities',
         [{'m': m, 'n': n} for m in ('LHS', 'LHS_midpoint', 'MonteCarlo')
          for n in (2, 3)],
         must_reach=('sampling method',))
def method(ctx, m, n):
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': m}})
    a.options._rng = Rng(ctx)
    rows = [('c.1', {'Units': 'ea', 'Location': x, 'Direction': '1',
                     'Theta_0': 0.0, 'Theta_1': 1.0, 'Family': 'uniform'})
            for x in '12']
    quiet(a.asset.load_cmp_model, {'marginals': table(ctx, rows)})
    quiet(a.asset.generate_cmp_sample, n)
    for c in a.asset.cmp_sample.columns:
        v = list(a.asset.cmp_sample[c])
        if m == 'MonteCarlo':
            for x in v:
                ctx.check((x > 0) & (x < 1), 'sampling method')
            continue
        cells = []
        for x in v:
            k = [j for j in range(n) if bool(x * n > j) and bool(x * n < j + 1)]
            ctx.check(len(k) == 1, 'sampling method')
            cells += k
            if m == 'LHS_midpoint':
                ctx.eq(x * n, k[0] + 0.5, 'sampling method')
        ctx.check(sorted(cells) == list(range(n)), 'sampling method')


@harness('locations or directions that cannot be read, missing first parameter, '
         'unknown unit or family, no model or size',
         [{'bad': k} for k in range(8)], must_reach=('refused',))
def malformed(ctx, bad):
    a = make_assessment(ctx, stories=3 if bad != 3 else None)
    row = {'Units': 'ea', 'Location': '1', 'Direction': '1', 'Theta_0': 2.0,
           'Theta_1': 0.3, 'Family': 'normal'}
    upd = [{'Location': 'basement'}, {'Direction': 'x'}, {'Theta_0': np.nan},
           {'Location': 'all'}, {'Units': 'no such unit'}, {'Family': 'no such'},
           {'Location': np.nan}, {}][bad]
    row.update(upd)
    try:
        if bad != 7:
            quiet(a.asset.load_cmp_model, {'marginals': table(ctx, [('c', row)])})
            # the second row has everything
        quiet(a.asset.generate_cmp_sample, 2)
    except (ValueError, KeyError, AssertionError):
        ctx.check(True, 'refused')
    else:
        ctx.fail('refused', str(upd))
