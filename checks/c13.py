"""C13  Repair consequences of damage states, with economies of scale."""

import contextlib
import io

import numpy as np
import pandas as pd
import scipy.stats as st

from engine.dists import Rng
from engine.funcs import NORM, exp
from engine.harness import harness
from engine.models import frame, make_assessment, used_symbols, write_table

QNAMES = ['cmp', 'loc', 'dir', 'uid', 'ds']
SNAMES = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def head(q='1 EA'):
    return {'DV-Unit': 'USD_2011', 'Quantity-Unit': q}


def ds(n, fam, t0, t1=np.nan):
    return {f'DS{n}-Family': np.nan if fam is None else fam,
            f'DS{n}-Theta_0': t0, f'DS{n}-Theta_1': t1}


def setup(ctx, floors, states, rho=0.0):
    a = make_assessment(ctx, {
        'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0},
        'EconomiesOfScale': {'AcrossFloors': floors, 'AcrossDamageStates': states},
        'NonDirectionalMultipliers': {'ALL': 1.0}, 'RepairCostAndTimeCorrelation': rho})
    rng = a.options._rng = Rng(ctx)
    return a, rng


def give(ctx, a, rows, lmap, dvs=('Cost', 'Time')):
    a.loss.decision_variables = dvs
    a.loss._loss_map = pd.DataFrame({'Repair': lmap})
    with write_table({'-'.join(k): v for k, v in rows.items()}) as p:
        quiet(a.loss.load_model_parameters, [p])


def run(ctx, a, cols, values):
    n = len(values)
    a.demand.sample = pd.DataFrame(
        {('PFA', '1', '1'): [1.0] * n}).rename_axis(columns=['type', 'loc', 'dir'])
    a.asset.cmp_sample = pd.DataFrame(index=range(n))
    a.asset.cmp_marginal_params = pd.DataFrame({'Units': []}, index=pd.MultiIndex.from_tuples(
        [], names=QNAMES[:4]))
    a.damage.ds_model.sample = frame(
        ctx, values, columns=pd.MultiIndex.from_tuples(cols, names=QNAMES))
    quiet(a.loss.calculate)
    return a.loss.ds_model.sample


def interp(x, ys, xs):
    """Linear between the points, constant outside of them."""
    if bool(x <= xs[0]):
        return ys[0]
    for (x0, x1), (y0, y1) in zip(zip(xs, xs[1:]), zip(ys, ys[1:])):
        if bool(x <= x1):
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return ys[-1]


def deviation(ctx, fam, t1, u):
    """Quantile u of the deviation from the median, truncated at zero."""
    cdf, ppf = ((NORM.cdf, NORM.ppf) if ctx.symbolic
                else (st.norm.cdf, st.norm.ppf))
    if fam == 'lognormal':
        return (exp if ctx.symbolic else np.exp)(t1 * ppf(u))
    pa = cdf(-1 / t1)
    return 1 + t1 * ppf(u * (1 - pa) + pa)


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-4 * (1e-3 + abs(float(b)))


def loss_eq(ctx, got, want, label):
    """Quantity-dependent parameters are stored as text with 6 digits."""
    if ctx.symbolic:
        ctx.eq(got, want, label)
    else:
        ctx.check(close(got, want), label, f'{got!r} vs {want!r}')


def find_draw(ctx, got, expected, rng, free):
    """The one draw that explains the value (None: none does)."""
    if ctx.symbolic:
        names = [k for k in rng.memo if str(rng.memo[k].t) in used_symbols(got)]
        return names[0] if len(names) == 1 else None
    hits = [k for k in free if close(got, expected(rng.memo[k]))]
    return hits[0] if hits else None


@harness('2 components (own or shared consequence), 2 locations, 2 directions, '
         '2 damage states plus the undamaged one; symbolic quantities (one of '
         'them possibly missing), y-values, dispersions; 2-point '
         'quantity-dependent, constant, and no family; all 4 economies of scale',
         [{'floors': f, 'states': s, 'shared': h, 'part': p}
          for f in (False, True) for s in (False, True) for h in (False, True)
          for p in ('scale', 'random')],
         must_reach=('loss', 'own draw', 'columns'))
def consequences(ctx, floors, states, shared, part):
    a, rng = setup(ctx, floors, states)
    y = [ctx.real(f'y{i}', 1, 10) for i in range(6)]
    t1 = [ctx.real(f't1{i}', 0.1, 0.6) for i in range(3)]
    fam = ctx.choice('fam', ['normal', 'lognormal']) if part == 'random' else None
    if fam == 'normal':
        t1[2] = t1[0]
    # (dv, ds): (family, (ys, xs) or constant, theta_1)
    dep = part == 'scale'
    spec = {
        'L1': {('Cost', '1'): (fam, ((y[0], y[1]), (4, 8)) if dep else y[0], t1[0]),
               ('Cost', '2'): (None, ((y[2], y[3]), (3, 5))
                               if dep and not shared else y[2], None),
               ('Time', '1'): (None, y[4], None),
               ('Time', '2'): ('lognormal' if fam else None, y[5], t1[1])},
        'L2': {('Cost', '1'): (None, y[4], None), ('Cost', '2'): (fam, y[5], t1[2])},
    }
    rows = {}
    for l, entries in spec.items():
        for (dv, d), (f, t, th1) in entries.items():
            r = rows.setdefault((l, dv), head())
            t0 = t if not isinstance(t, tuple) else '{},{}|{},{}'.format(*t[0], *t[1])
            r.update(ds(d, f, t0, np.nan if f is None else th1))
    lmap = {'c.1': 'L1', 'c.2': 'L1' if shared else 'L2'}
    give(ctx, a, rows, lmap)
    cols = [('c.1', '1', '1', '0', '0'), ('c.1', '1', '1', '0', '1'),
            ('c.1', '1', '2', '0', '1'), ('c.1', '2', '1', '0', '1'),
            ('c.1', '1', '1', '0', '2'),
            ('c.2', '1', '1', '0', '0'), ('c.2', '1', '1', '0', '1'),
            ('c.2', '1', '1', '0', '2'), ('c.3', '1', '1', '0', '1')]
    if not dep:
        cols = [c for c in cols if c[2] == '1']
    elif shared:
        cols = [c for c in cols if c[:3] != ('c.1', '1', '2')]
    n = 1 if part == 'scale' else 2
    nan = ctx.flag('missing')
    q = [[ctx.real(f'q{i}_{j}', 0, 10) if not (nan and i == 0 and j in (1, 3))
          else float('nan') for j in range(len(cols))] for i in range(n)]
    order = list(range(len(cols)))
    if shared:
        order.reverse()
    out = run(ctx, a, [cols[j] for j in order], [[r[j] for j in order] for r in q])
    ctx.check(list(out.columns.names) == SNAMES, 'layout')
    free = set(rng.memo)
    want_cols = set()
    for j, c in enumerate(cols):
        cmp, loc, d_, uid, d = c
        if cmp not in lmap:
            continue
        for (dv, dd), (f, t, th1) in spec[lmap[cmp]].items():
            if dd != d:
                continue
            key = (dv, lmap[cmp], cmp, d, loc, d_, uid)
            want_cols.add(key)
            if key not in out.columns:
                continue
            for i in range(n):
                got = out[key].iloc[i]
                if isinstance(q[i][j], float) and np.isnan(q[i][j]):
                    ctx.check(bool(got == 0), 'missing quantity')
                    continue
                if isinstance(t, tuple):
                    e = 0
                    for k, o in enumerate(cols):
                        if (o[0] == cmp and o[4] != '0' and not (
                                isinstance(q[i][k], float) and np.isnan(q[i][k]))
                                and (floors or o[1] == loc) and (states or o[4] == d)):
                            e = e + q[i][k]
                    med = interp(e, *t)
                else:
                    med = t
                base = q[i][j] * med
                if f is None:
                    loss_eq(ctx, got, base, 'loss')
                    continue
                def full(u, base=base, f=f, th1=th1):
                    return base * deviation(ctx, f, th1, u)
                u = find_draw(ctx, got, full, rng, free)
                ctx.check(u in free, 'own draw')
                if u not in free:
                    return
                free.discard(u)
                loss_eq(ctx, got, full(rng.memo[u]), 'loss')
    ctx.check(set(out.columns) == want_cols and out.columns.is_unique, 'columns')
    if part == 'scale':
        ctx.reach('own draw')


@harness('one component, Cost and Time both random, correlation 0, 1 and 0.5; 2 '
         'realizations; arbitrary draws and dispersions; also for components '
         'named after a decision variable',
         [{'rho': r, 'cmp': c} for c in ('c.1', 'Time.Cost') for r in (0.0, 1.0, 0.5)],
         must_reach=('loss', 'draws'))
def correlation(ctx, rho, cmp):
    lid = 'L1' if cmp == 'c.1' else 'Cost.1'
    a, rng = setup(ctx, False, False, rho)
    t1 = [ctx.real('t10', 0.1, 0.6)]
    t1.append(t1[0] if rho == 1.0 else ctx.real('t11', 0.1, 0.6))
    m = [ctx.real(f'm{i}', 1, 5) for i in range(2)]
    rows = {(lid, 'Cost'): {**head(), **ds(1, 'lognormal', m[0], t1[0])},
            (lid, 'Time'): {**head(), **ds(1, 'lognormal', m[1], t1[1])},
            (lid, 'Carbon'): {**head(), **ds(1, 'lognormal', m[1], t1[1])}}
    give(ctx, a, rows, {cmp: lid}, ('Time', 'Cost', 'Carbon'))
    cols = [(cmp, '1', '1', '0', '1'), (cmp, '2', '1', '0', '1')]
    out = run(ctx, a, cols, [[1.0, 1.0]])
    ppf = NORM.ppf if ctx.symbolic else st.norm.ppf
    xp = exp if ctx.symbolic else np.exp

    def value(dv, loc):
        return out[dv, lid, cmp, '1', loc, '1', '0'].iloc[0]

    def match(dv, loc, med, t, mix, free):
        got = value(dv, loc)
        names = ([k for k in free if str(rng.memo[k].t) in used_symbols(got)]
                 if ctx.symbolic else
                 [k for k in free if close(got, med * xp(t * mix(rng.memo[k])))])
        ctx.check(len(names) == 1 if ctx.symbolic else bool(names), 'draws')
        if not names or ctx.symbolic and len(names) != 1:
            return None
        loss_eq(ctx, got, med * xp(t * mix(rng.memo[names[0]])), 'loss')
        free.discard(names[0])
        return names[0]

    if rho == 1.0:
        # one draw (or combination of draws) drives both
        own = []
        for c in cols:
            cost, time = value('Cost', c[1]), value('Time', c[1])
            if ctx.symbolic:
                ctx.check(used_symbols(cost) - {'m0'} == used_symbols(time) - {'m1'},
                          'draws')
            else:
                ctx.check(close(cost / m[0], time / m[1]), 'draws')
            ctx.reach('loss')
            own += [used_symbols(cost), used_symbols(value('Carbon', c[1]))]
        ids = {str(v.t) for v in rng.memo.values()} if ctx.symbolic else set()
        own = [o & ids for o in own]
        for i, o in enumerate(own):
            for p in own[:i]:
                ctx.check(not (o & p), 'draws')
        return
    free = set(rng.memo)
    zc = {}
    for c in cols:
        k = match('Cost', c[1], m[0], t1[0], ppf, free)
        if k is None:
            return
        zc[c[1]] = ppf(rng.memo[k])
    for c in cols:
        if match('Carbon', c[1], m[1], t1[1], ppf, free) is None:
            return
    for c in cols:
        z = zc[c[1]]
        if match('Time', c[1], m[1], t1[1], lambda u, z=z: rho * z + np.sqrt(
                1 - rho**2) * ppf(u), free) is None:
            return


@harness('no damage, damage without any consequence, and consequences random in '
         'one damage state only; symbolic quantities',
         must_reach=('no losses', 'partly random'))
def special(ctx):
    q = ctx.real('q', 0, 10)
    y = ctx.real('y', 1, 10)
    t = ctx.real('t', 0.1, 0.6)
    rows = {('L1', 'Cost'): {**head(), **ds(1, 'lognormal', y, t), **ds(2, None, y)}}
    for cols in ([('c.1', '1', '1', '0', '0')], [('c.3', '1', '1', '0', '1')]):
        a, rng = setup(ctx, ctx.flag(f'fl{cols[0][0]}'), False)
        give(ctx, a, rows, {'c.1': 'L1'}, ('Cost',))
        out = run(ctx, a, cols, [[q]])
        ctx.check(out is None or out.shape[1] == 0, 'no losses')
    a, rng = setup(ctx, ctx.flag('floors'), ctx.flag('states'))
    give(ctx, a, rows, {'c.1': 'L1'}, ('Cost',))
    out = run(ctx, a, [('c.1', '1', '1', '0', '1'), ('c.1', '1', '1', '0', '2')],
              [[q, 2 * q]])
    ctx.check(out.shape[1] == 2, 'columns')
    ctx.eq(out['Cost', 'L1', 'c.1', '2', '1', '1', '0'].iloc[0], 2 * q * y,
           'partly random')
    (u,) = rng.memo.values()
    ctx.eq(out['Cost', 'L1', 'c.1', '1', '1', '1', '0'].iloc[0],
           q * y * deviation(ctx, 'lognormal', t, u), 'loss')


@harness('damage states and locations 1, 2, 10 and 12 of one component, one '
         'realization; symbolic quantities, consequences and dispersion; all '
         '4 economies of scale',
         [{'floors': f, 'states': s} for f in (False, True) for s in (False, True)],
         must_reach=('loss', 'own draw', 'columns'))
def many(ctx, floors, states):
    a, rng = setup(ctx, floors, states)
    t1 = ctx.real('t1', 0.1, 0.6)
    ids = ('1', '2', '10', '12')
    y = {d: ctx.real(f'y{d}', 1, 10) for d in ids}
    r = head()
    for d in ids:
        r.update(ds(d, 'lognormal' if d in ('2', '12') else None, y[d],
                    t1 if d in ('2', '12') else np.nan))
    give(ctx, a, {('L', 'Cost'): r}, {'c': 'L'}, ('Cost',))
    cols = [('c', l, '1', '0', d) for l, d in (
        ('1', '0'), ('1', '1'), ('1', '12'), ('2', '10'), ('10', '2'), ('12', '12'),
        ('10', '1'))]
    q = [ctx.real(f'q{j}', 1, 10) for j in range(len(cols))]
    out = run(ctx, a, cols, [q])
    free = set(rng.memo)
    want = {('Cost', 'L', 'c', c[4], c[1], '1', '0'): (j, c[4])
            for j, c in enumerate(cols) if c[4] != '0'}
    ctx.check(set(out.columns) == set(want) and out.columns.is_unique, 'columns')
    if set(out.columns) != set(want):
        return
    for key, (j, d) in want.items():
        got = out[key].iloc[0]
        if d not in ('2', '12'):
            loss_eq(ctx, got, q[j] * y[d], 'loss')
            continue
        key = find_draw(ctx, got, lambda u: q[j] * y[d] * deviation(
            ctx, 'lognormal', t1, u), rng, free)
        ctx.check(key in free, 'own draw')
        if key is None or key not in free:
            continue
        free.remove(key)
        loss_eq(ctx, got, q[j] * y[d] * deviation(ctx, 'lognormal', t1, rng.memo[key]),
                'loss')
