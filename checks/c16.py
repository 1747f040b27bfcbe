"""C16  Combination of losses with a table instead of a sum."""

import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from engine.harness import assume_note, harness
from engine.models import frame, make_assessment, patch_grid

assume_note('scipy.interpolate.RegularGridInterpolator is replaced by its '
            'documented contract (multilinear, ValueError outside of the domain)')

DN = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LN = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
AX = (0.0, 4.0, 10.0)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def table(ctx, dims, axes, tag=''):
    """Combination table: single losses on the axes, symbolic elsewhere."""
    shape = tuple(len(x) for x in axes)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        nz = [k for k in range(dims) if i[k]]
        if len(nz) <= 1:
            out[i] = axes[nz[0]][i[nz[0]]] if nz else 0.0
        else:
            out[i] = ctx.real(tag + 't' + '_'.join(map(str, i)), 0, 20)
    return out if ctx.symbolic else out.astype(float)


def lookup(axes, tab, x):
    cell, w = [], []
    for ax, v in zip(axes, x):
        k = 0
        while k < len(ax) - 2 and not bool(v <= ax[k + 1]):
            k += 1
        cell.append(k)
        w.append((v - ax[k]) / (ax[k + 1] - ax[k]))
    out = 0
    for c in itertools.product((0, 1), repeat=len(axes)):
        f = tab[tuple(k + j for k, j in zip(cell, c))]
        for j, wi in zip(c, w):
            f = f * (wi if j else 1 - wi)
        out = out + f
    return out


def build(ctx, n, ds=(), lf=(), hi=10):
    a = make_assessment(ctx)
    patch_grid(ctx)
    a.loss.decision_variables = ('Cost', 'Time')
    a.loss.dv_units = {'Cost': 'USD_2011', 'Time': 'worker_day'}
    v = {}
    for tag, cols, names, m in (('d', ds, DN, a.loss.ds_model),
                                ('l', lf, LN, a.loss.lf_model)):
        if not cols:
            continue
        x = [[ctx.real(f'{tag}{i}_{j}', 0, hi) for j in range(len(cols))]
             for i in range(n)]
        m.sample = frame(ctx, x, columns=pd.MultiIndex.from_tuples(cols, names=names))
        for j, c in enumerate(cols):
            for i in range(n):
                k = (i, c[0], c[2], c[-3:])
                v[k] = v.get(k, 0) + x[i][j]
    return a, v


def agg(ctx, a, comb):
    df, _ = quiet(a.loss.aggregate_losses, loss_combination=comb, future=True)
    return df


def cost(df, i=0):
    c = df['repair_cost']
    return (c.iloc[:, 0] if isinstance(c, pd.DataFrame) else c).iloc[i]


@harness('2 components combined at 1-2 places, alone or next to other components; '
         'losses of loss functions and damage states; 3x3 table, not symmetric; both '
         'orders of the pair; symbolic losses and table values; 1-2 realizations',
         [{'case': c, 'n': n} for c, n in (
             ('alone', 2), ('two places', 1), ('with others', 1),
             ('different others', 1), ('two models', 1), ('other dv', 1))],
         must_reach=('combined',))
def pair(ctx, case, n):
    w, f, o = 'wind', 'flood', 'other'
    p1, p2 = ('1', '1', '0'), ('2', '1', '0')
    lf = [('Cost', 'L' + c, c, *p1) for c in (w, f)]
    ds = []
    if case in {'two places', 'different others'}:
        lf += [('Cost', 'L' + c, c, *p2) for c in (w, f)]
    if case in {'with others', 'different others'}:
        lf.append(('Cost', 'L' + o, o, *p1))
        lf.append(('Cost', 'L' + w, w, '3', '1', '0'))
    if case == 'two models':
        ds = [('Cost', 'L' + f, f, d, *p1) for d in ('1', '2')]
        lf = lf[:1]
    if case == 'other dv':
        lf += [('Time', 'L' + c, c, *p1) for c in (w, f)]
    a, v = build(ctx, n, ds, lf, 5 if case == 'two models' else 10)
    tab = table(ctx, 2, (AX, AX))
    names = ctx.choice('pair', [(w, f), (f, w)])
    df = agg(ctx, a, {'Cost': {names: tab}})
    ctx.check(len(df) == n, 'layout')
    for i in range(n):
        want = 0
        for q in (p1, p2, ('3', '1', '0')):
            x = [v.get((i, 'Cost', c, q)) for c in names]
            if x[0] is not None and x[1] is not None:
                want = want + lookup((AX, AX), tab, x)
            else:
                want = want + sum((y for y in x if y is not None), 0)
            want = want + v.get((i, 'Cost', o, q), 0)
        ctx.eq(cost(df, i), want, 'combined')
        if case == 'other dv':
            ctx.eq(df['repair_time', 'sequential'].iloc[i],
                   v[i, 'Time', w, p1] + v[i, 'Time', f, p1], 'other dv is added')


@harness('3 components combined with a 2x3x2 table; 2 pairs with their own tables; '
         'the same pair for two decision variables; losses outside of the table; '
         'components that are never together', must_reach=(
             'three', 'two pairs', 'two tables', 'refused'))
def several(ctx):
    p = ('1', '1', '0')
    a, v = build(ctx, 1, (), [('Cost', 'L', c, *p) for c in 'ABC'])
    axes = ((0.0, 10.0), AX, (0.0, 10.0))
    order = ctx.choice('order', ['ABC', 'CAB'])
    tab = table(ctx, 3, axes, 'a')
    df = agg(ctx, a, {'Cost': {tuple(order): tab}})
    ctx.eq(cost(df), lookup(axes, tab, [v[0, 'Cost', c, p] for c in order]), 'three')
    t1, t2 = (table(ctx, 2, ((0.0, 10.0), (0.0, 10.0)), x) for x in 'bc')
    two = ((0.0, 10.0),) * 2
    p2 = ('2', '1', '0')
    with_names = [('Cost', 'L', c, *q) for q, cs in ((p, 'AB'), (p2, 'CD')) for c in cs]
    vals = list(v.values()) + [v[0, 'Cost', 'A', p]]
    a2, _ = build(ctx, 0)
    a2.loss.lf_model.sample = frame(
        ctx, [vals], columns=pd.MultiIndex.from_tuples(with_names, names=LN))
    df = agg(ctx, a2, {'Cost': {('A', 'B'): t1, ('D', 'C'): t2}})
    ctx.eq(cost(df), lookup(two, t1, vals[:2]) + lookup(two, t2, [vals[3], vals[2]]),
           'two pairs')
    names = [(dv, 'L', c, *p) for dv in ('Cost', 'Time') for c in 'AB']
    a2.loss.lf_model.sample = frame(
        ctx, [vals], columns=pd.MultiIndex.from_tuples(names, names=LN))
    df = agg(ctx, a2, {'Cost': {('A', 'B'): t1}, 'Time': {('A', 'B'): t2}})
    ctx.eq(cost(df), lookup(two, t1, vals[:2]), 'two tables')
    ctx.eq(df['repair_time', 'parallel'].iloc[0], lookup(two, t2, vals[2:]),
           'two tables')
    out = [[ctx.real('out', 10.5, 20), vals[0], vals[1], vals[2]]]
    a2.loss.lf_model.sample = frame(
        ctx, out, columns=pd.MultiIndex.from_tuples(names, names=LN))
    for comb in ({'Cost': {('A', 'B'): t1}}, {'Cost': {('A', 'Z'): t1}},
                 {'Energy': {('A', 'B'): t1}}, {'Time': {'AB': t1}},
                 {'Time': {('A', 'B'): [[0, 1], [1, 2]]}}, {'Time': {('A', 1): t1}}):
        try:
            agg(ctx, a2, comb)
        except (ValueError, TypeError, AssertionError, KeyError):
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', str(comb))
