"""C15  Aggregated losses: replacement, thresholds, sums, units."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.harness import harness
from engine.models import arr, frame, make_assessment

DN = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LN = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def model(ctx, dvs, n, ds=None, lf=None, units=None, hi=10):
    """ds / lf: list of columns -> loss model with symbolic losses."""
    a = make_assessment(ctx, units=units and {k: v for k, v in units.values()})
    a.loss.decision_variables = dvs
    a.loss.dv_units = {dv: units[dv][0] if units else 'USD_2011' for dv in dvs}
    vals = {}
    for tag, cols, names, m in (('d', ds, DN, a.loss.ds_model),
                                ('l', lf, LN, a.loss.lf_model)):
        if not cols:
            continue
        v = [[ctx.real(f'{tag}{i}_{j}', 0, hi) for j in range(len(cols))]
             for i in range(n)]
        m.sample = frame(ctx, v, columns=pd.MultiIndex.from_tuples(cols, names=names))
        for j, c in enumerate(cols):
            key = (c[0], c[1], c[2], *c[-3:])
            for i in range(n):
                vals.setdefault(i, []).append((key, v[i][j]))
    return a, vals


def total(xs):
    out = 0
    for x in xs:
        out = out + x
    return out


def big(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        if bool(x > m):
            m = x
    return m


def check_agg(ctx, df, i, losses, dvs, factor, tag=''):
    """losses: list of (key, value) in realization i."""
    for dv in dvs:
        f = factor.get(dv, 1.0)
        mine = [(k, v) for k, v in losses if k[0] == dv]
        if dv == 'Time':
            seq = df['repair_time', 'sequential'].iloc[i]
            par = df['repair_time', 'parallel'].iloc[i]
            ctx.eq(seq * f, total(v for _, v in mine), 'sequential' + tag)
            locs = sorted({k[3] for k, _ in mine})
            ctx.eq(par * f, big(total(v for k, v in mine if k[3] == loc)
                                for loc in locs), 'parallel' + tag)
        else:
            col = f'repair_{dv.lower()}'
            got = df[col]
            got = got.iloc[:, 0] if isinstance(got, pd.DataFrame) else got
            ctx.eq(got.iloc[i] * f, total(v for _, v in mine), 'sum' + tag)


def combined(ctx, a, parts):
    """The losses of all components in one table."""
    for _ in range(2):
        s = a.loss.sample
        names = list(s.columns.names)
        ctx.check(s.shape[1] == sum(b.shape[1] for _, b in parts), 'all losses')
        for m, b in parts:
            full = m is a.loss.ds_model or len(parts) == 1
            ctx.check(names == (DN if a.loss.ds_model.sample is not None else LN),
                      'level names')
            for j, c in enumerate(b.columns):
                c = c if full else (*c[:3], 'N/A', *c[3:])
                for i in range(len(b)):
                    ctx.eq(s.loc[i, c], b.iloc[i, j], 'all losses')


DS = [('Cost', 'L1', 'c.1', '1', '1', '1', '0'), ('Cost', 'L1', 'c.1', '2', '1', '1', '0'),
      ('Time', 'L1', 'c.1', '1', '2', '1', '0'), ('Time', 'L3', 'c.3', '1', '1', '2', 'x')]
REP = [('Cost', 'replacement', 'collapse', '1', '0', '1', '0'),
       ('Time', 'replacement', 'collapse', '1', '0', '1', '0')]
IRR = [('Cost', 'replacement', 'irreparable', '1', '0', '1', '0')]
LF = [('Cost', 'L2', 'c.2', '2', '1', '0'), ('Time', 'L2', 'c.2', '1', '1', '0')]
MORE = [('Cost', 'L4', 'c.4', '3', '2', '0'), ('Time', 'L4', 'c.4', '3', '2', '0'),
        ('Time', 'L2', 'c.2', '2', '1', '1')]


@harness('losses of damage states and/or loss functions on 3 locations, with or '
         'without replacement consequences (of one or two drivers), 1-2 realizations; symbolic losses and '
         'unit factors', [{'ds': d, 'rep': r, 'lf': l, 'n': n} for d, r, l, n in (
             (True, False, False, 2), (False, False, True, 2), (True, False, True, 1),
             (True, True, False, 1), (True, True, True, 1), (False, True, True, 2),
             (False, True, 'more', 1), (False, 'two', 'more', 1),
             (False, 'one', 'more', 1))],
         must_reach=('sum', 'sequential', 'parallel', 'samples untouched'))
def aggregate(ctx, ds, rep, lf, n):
    units = {'Cost': ('uc', ctx.real('uc', 0.01, 100)),
             'Time': ('ut', ctx.real('ut', 0.01, 100))}
    dvs = ctx.choice('dvs', [('Cost', 'Time'), ('Time', 'Cost')])
    cols = (DS if ds else []) + (REP if rep else [])
    if rep == 'two':
        cols = cols[:1] + IRR + cols[1:]
    elif rep == 'one':
        cols = cols[:1]
    a, vals = model(ctx, dvs, n, cols, (LF + MORE if lf == 'more' else LF)
                    if lf else None, units)
    before = [(m, m.sample.copy()) for m in (a.loss.ds_model, a.loss.lf_model)
              if m.sample is not None]
    if ctx.flag('looked at'):
        combined(ctx, a, before)
    df, exc = quiet(a.loss.aggregate_losses, future=True)
    ctx.check(len(df) == n and len(exc) == n and not exc.to_numpy().any(), 'layout')
    want = {'repair_cost', 'repair_time'}
    ctx.check(set(df.columns.get_level_values(0)) == want, 'layout')
    for i in range(n):
        losses = vals[i]
        if any(k[1] == 'replacement' and bool(v > 0) for k, v in losses):
            losses = [(k, v if k[1] == 'replacement' else 0) for k, v in losses]
        check_agg(ctx, df, i, losses, dvs, {d: u[1] for d, u in units.items()})
    for m, b in before:
        ctx.check(m.sample.shape == b.shape and m.sample.columns.equals(b.columns)
                  and m.sample.columns.names == b.columns.names, 'samples untouched')
        for j in range(b.shape[1]):
            for i in range(n):
                ctx.eq(m.sample.iloc[i, j], b.iloc[i, j], 'samples untouched')


@harness('replacement thresholds: symbolic losses, random replacement '
         'consequences, symbolic ratios; with existing replacement columns, loss '
         'functions, a decision variable without losses; 1-2 realizations',
         [{'n': 1, 'rep': r, 'lf': l, 'none': z} for r in (False, True)
          for l in (False, True) for z in (False, True)]
         + [{'n': 2, 'rep': r, 'lf': False, 'none': False} for r in (False, True)],
         must_reach=('sum', 'exceeded'))
def thresholds(ctx, n, rep, lf, none):
    from pelicun import uq

    dvs = ('Cost', 'Time')
    ds = [c for c in DS if not none or c[0] == 'Cost']
    reps = [c for c in REP if not none or c[0] == 'Cost'] if rep else []
    lfs = [c for c in LF if not none or c[0] == 'Cost'] if lf else []
    if n == 2:
        ds = ds[1:3]
        if rep:
            ds, reps = ds[:1], reps[:1]
    a, vals = model(ctx, dvs, n, ds + reps, lfs)
    rng = Rng(ctx)
    reg = uq.RandomVariableRegistry(rng)
    lim = {}
    rv = dvs if ctx.flag('registry order') else dvs[::-1]
    for dv in rv:
        lo = ctx.real(f'lo{dv}', 5, 20)
        reg.add_RV(uq.rv_class_map('uniform')(
            name=dv, theta=arr(ctx, [lo, lo + 10.0])))
        lim[dv] = lo
    ratio = {dv: ctx.real(f'r{dv}', 0.2, 1) for dv in dvs}
    df, exc = quiet(a.loss.aggregate_losses,
                    replacement_configuration=(reg, ratio), future=True)
    ctx.check(len(df) == n and set(exc.columns) == set(dvs), 'layout')
    for i in range(n):
        losses = vals[i]
        already = any(k[1] == 'replacement' and bool(v > 0) for k, v in losses)
        if already:
            losses = [(k, v if k[1] == 'replacement' else 0) for k, v in losses]
        repl = {dv: reg.RV[dv].sample[i] for dv in dvs}
        hit = {}
        for dv in dvs:
            # its own draw within the range of the distribution
            ctx.check((repl[dv] >= lim[dv]) & (repl[dv] <= lim[dv] + 10), 'sampled')
            s = total(v for k, v in losses if k[0] == dv and k[1] != 'replacement')
            hit[dv] = bool(s > repl[dv] * ratio[dv])
            ctx.check(bool(exc[dv].iloc[i]) == hit[dv], 'exceeded')
        if any(hit.values()):
            # also present without other losses of that decision variable
            losses = [((dv, 'replacement', 'x', '0', '1', '0'), repl[dv]) for dv in dvs]
        else:
            losses = losses + [((dv, 'replacement', 'x', '0', '1', '0'), 0)
                               for dv in dvs]
        check_agg(ctx, df, i, losses, dvs, {})


@harness('no losses at all; a decision variable without any loss; names other '
         'than the usual ones; a replacement registry or ratio with unknown or '
         'missing decision variables',
         must_reach=('no losses', 'dropped', 'any name', 'refused'))
def special(ctx):
    from pelicun import uq

    a, _ = model(ctx, ('Cost', 'Time'), 1)
    df = quiet(a.loss.aggregate_losses)
    ctx.check(df.to_numpy().sum() == 0 and set(df.columns) == {
        'repair_cost', 'repair_time-sequential', 'repair_time-parallel'}, 'no losses')
    a, vals = model(ctx, ('Cost', 'Time'), 1, [c for c in DS if c[0] == 'Time'])
    df = quiet(a.loss.aggregate_losses)
    ctx.check(set(df.columns.get_level_values(0)) == {'repair_time'}, 'dropped')
    check_agg(ctx, df, 0, vals[0], ('Time',), {})
    a, _ = model(ctx, ('CO2', 'repairCost'), 0)
    v = [ctx.real(f'v{i}', 0, 10) for i in range(2)]
    a.loss.ds_model.sample = frame(ctx, [v], columns=pd.MultiIndex.from_tuples(
        [('CO2', *DS[0][1:]), ('repairCost', *DS[0][1:])], names=DN))
    df = quiet(a.loss.aggregate_losses)
    for k, c in enumerate(('repair_co2', 'repair_repaircost')):
        got = df[c]
        got = got.iloc[:, 0] if isinstance(got, pd.DataFrame) else got
        ctx.eq(got.iloc[0], v[k], 'any name')
    a, _ = model(ctx, ('Time', 'Carbon'), 0)
    def reg(names):
        r = uq.RandomVariableRegistry(Rng(ctx, 'x'))
        for m in names:
            r.add_RV(uq.rv_class_map('deterministic')(name=m, theta=np.array([1.0])))
        return r
    bad = ctx.choice('bad', [
        (reg(['Time']), {'Time': 1.0, 'Carbon': 1.0}),
        (reg(['Time', 'Carbon', 'Cost']), {'Time': 1.0, 'Carbon': 1.0}),
        (reg(['Time', 'Carbon']), {'Time': 1.0, 'Carbon': 1.0, 'Cost': 1.0}),
        ({'Time': 1.0, 'Carbon': 1.0}, {'Time': 1.0, 'Carbon': 1.0})])
    try:
        quiet(a.loss.aggregate_losses, replacement_configuration=bad)
    except (ValueError, TypeError):
        ctx.check(True, 'refused')
    else:
        ctx.fail('refused')
