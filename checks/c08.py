"""C08  Every component responds to the demand its parameters ask for."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.harness import assume_note, harness
from engine.models import (
    demand_spec, make_assessment, params_table, set_assets, set_demands)
from engine.shim import SYMNP

assume_note('numexpr.evaluate is modelled as the elementwise Python expression '
            '(symbolic runs only)')

EDPS = [('PFA', '1', '1'), ('PFA', '1', '2'), ('PFA', '2', '1'),
        ('PFA', '2', '2'), ('PID', '1', '1'), ('PID', '2', '2'),
        ('SA_1.13', '1', '1'), ('PFA', '0', '1'), ('PFA', '1', '3')]


def ne_stub(ctx):
    if ctx.symbolic:
        from pelicun.model import demand_model

        class NE:
            NumExpr = staticmethod(demand_model.ne.NumExpr)

            @staticmethod
            def evaluate(expr, local_dict=None, **_):
                env = dict(local_dict)
                env.update(sqrt=SYMNP.sqrt, exp=SYMNP.exp, log=SYMNP.log,
                           __builtins__={})
                return eval(expr, env)  # noqa: S307

        ctx.patch(demand_model, 'ne', NE)


def run(ctx, a, rows, pgs, demand, caps, n=1):
    """Deterministic capacities: the state tells the demand seen by each group."""
    a.options._rng = Rng(ctx)
    for r, c in zip(rows.values(), caps):
        r.update({'LS1-Family': np.nan, 'LS1-Theta_0': c})
    set_assets(ctx, a, pgs, [[1.0] * len(pgs) for _ in range(n)])
    set_demands(ctx, a, EDPS, demand)
    with contextlib.redirect_stdout(io.StringIO()):
        a.damage.load_model_parameters([params_table(ctx, rows)], set(rows))
        a.damage.calculate()
    return a.damage.ds_model.ds_sample


def demands(ctx, n=1):
    return [[ctx.real(f'd{i}_{j}', 0, 10) for j in range(len(EDPS))]
            for i in range(n)]


def smax(ctx, xs):
    out = xs[0]
    for x in xs[1:]:
        out = x if bool(x > out) else out
    return out


MC = {'Sampling': {'SamplingMethod': 'MonteCarlo'}, 'DemandOffset': {'PFA': 0}}


@harness('9 demand columns (up to 3 directions), 1-2 realizations; one component of 1 group; every '
         'direction and location 1-2, offset -1..1, directional or not, global '
         'offset, one symbolic multiplier per type or for all',
         [{'kind': k} for k in ('PFA', 'PID', 'SA')],
         must_reach=('sees its demand',))
def simple(ctx, kind):
    n = 2 if kind == 'SA' else 1
    kp, ka = ctx.real('kPFA', 0.5, 2), ctx.real('kALL', 0.5, 2)
    mult = ctx.choice('mult', ['type', 'all'])
    # accelerations are offset by -1 unless the user says otherwise
    gl = ctx.choice('global offset', [-1, 0, 1]) if kind != 'PID' else 0
    opt = dict(MC)
    if gl == -1 and kind == 'PFA':
        del opt['DemandOffset']
    else:
        # one entry covers every subtype
        opt['DemandOffset'] = {kind: gl}
    a = make_assessment(ctx, opt)
    a.options.nondir_multi_dict = (
        {'PFA': kp, 'SA_1.13': kp, 'SA': ka, 'ALL': ka} if mult == 'type' else
        {'ALL': ka})
    d = demands(ctx, n)
    direc = ctx.choice('directional', [0, 1])
    off = ctx.choice('offset', [-1, 0, 1]) if kind == 'PFA' else 0
    loc = ctx.choice('loc', ['1', '2'])
    dr = ctx.choice('dir', ['1', '2'])
    name = {'PFA': 'Peak Floor Acceleration', 'PID': 'Peak Interstory Drift Ratio',
            'SA': 'Peak Spectral Acceleration|1.13'}[kind]
    ty = {'PFA': 'PFA', 'PID': 'PID', 'SA': 'SA_1.13'}[kind]
    cap = ctx.real('cap', 0, 12)
    rows = {'c.1': demand_spec(name, 'mps2' if kind != 'PID' else 'rad', off, direc)}
    want_loc = str(int(loc) + off + gl)
    have = [(j, e) for j, e in enumerate(EDPS) if e[0] == ty and e[1] == want_loc]
    if direc:
        have = [x for x in have if x[1][2] == dr]
    try:
        ds = run(ctx, a, rows, [('c.1', loc, dr, '0')], d, [cap], n)
    except (ValueError, KeyError):
        # no such demand in the sample
        ctx.check(not have, 'only a missing demand is refused')
        ctx.reach('refused')
        return
    ctx.check(bool(have), 'missing demand refused')
    if not have:
        return
    for i in range(n):
        want = smax(ctx, [d[i][j] for j, _ in have])
        if not direc:
            want = want * (kp if (ty != 'PID' and mult == 'type') else ka)
        hit = ds.iloc[i, 0] == 1
        ctx.check(hit == bool(want > cap), 'sees its demand')


@harness('2 components x 2 groups each, with different demand types, offsets '
         'and directions in one run; symbolic demands and capacities',
         must_reach=('sees its demand',))
def several(ctx):
    a = make_assessment(ctx, MC)
    k = ctx.real('k', 0.5, 2)
    a.options.nondir_multi_dict = {'ALL': k}
    d = demands(ctx)
    rows = {
        'c.1': demand_spec('Peak Interstory Drift Ratio', 'rad', 0, 1),
        'c.2': demand_spec('Peak Floor Acceleration', 'mps2', 1, 0),
        'c.3': demand_spec('Peak Floor Acceleration', 'mps2', 0, 1),
    }
    pgs = [('c.1', '1', '1', '0'), ('c.1', '2', '2', '0'), ('c.2', '1', '1', '0'),
           ('c.3', '1', '2', '0'), ('c.3', '2', '2', 'x')]
    pgs = ctx.choice('order', [pgs, pgs[::-1]])
    caps = [ctx.real(f'cap{i}', 0, 12) for i in range(3)]
    ds = run(ctx, a, rows, pgs, d, caps)
    dv = dict(zip(EDPS, d[0]))
    want = {
        ('c.1', '1', '1', '0'): (dv['PID', '1', '1'], caps[0]),
        ('c.1', '2', '2', '0'): (dv['PID', '2', '2'], caps[0]),
        ('c.2', '1', '1', '0'): (
            smax(ctx, [dv['PFA', '2', '1'], dv['PFA', '2', '2']]) * k, caps[1]),
        ('c.3', '1', '2', '0'): (dv['PFA', '1', '2'], caps[2]),
        ('c.3', '2', '2', 'x'): (dv['PFA', '2', '2'], caps[2]),
    }
    ctx.check(set(ds.columns) == {(*p, '1') for p in want}, 'every group')
    for p, (dm, c) in want.items():
        ctx.check((ds[(*p, '1')].iloc[0] == 1) == bool(dm > c), 'sees its demand')
    # the demand sample itself is an input
    for e, v in dv.items():
        ctx.eq(a.demand.sample[e].iloc[0], v, 'demands untouched')


EXPR = {
    'X1': lambda x: x[0],
    '2*X1 + 1': lambda x: 2 * x[0] + 1,
    'X1 - X2': lambda x: x[0] - x[1],
    'X1*X2/2': lambda x: x[0] * x[1] / 2,
    'X1 + (X2 - 3)^2': lambda x: x[0] + (x[1] - 3) * (x[1] - 3),
    'X1 + 2*X2 + 3*X3': lambda x: x[0] + 2 * x[1] + 3 * x[2],
}


@harness('6 expressions of 1-3 demands (X1..X3), 2 realizations, next to a '
         'component without an expression', [{'e': e} for e in EXPR],
         must_reach=('sees its demand',))
def expression(ctx, e):
    a = make_assessment(ctx, MC)
    k = ctx.real('k', 0.5, 2)
    a.options.nondir_multi_dict = {'ALL': k}
    ne_stub(ctx)
    n = 2 if 'X2' not in e else 1
    d = demands(ctx, n)
    spec = demand_spec('Peak Floor Acceleration', 'mps2', 0, 1)
    spec['Demand-Expression'] = e
    # the same demand may appear twice
    rep = 'X2' in e and ctx.flag('X2 same as X1')
    spec.update(demand_spec(
        f'Peak {"Floor Acceleration" if rep else "Interstory Drift Ratio"}',
        None, 0, 1, 2))
    spec.update(demand_spec('Peak Floor Acceleration', None, 1, 0, 3))
    rows = {'c.1': spec}
    pgs = [('c.1', '1', '1', '0')]
    both = ctx.flag('with a plain component')
    if both:
        rows['c.2'] = demand_spec('Peak Floor Acceleration', 'mps2', 0, 1)
        pgs.append(('c.2', '1', '1', '0'))
    cap = [ctx.real('cap', -30, 60), ctx.real('cap2', 0, 12)]
    ds = run(ctx, a, rows, pgs, d, cap, n)
    for i in range(n):
        dv = dict(zip(EDPS, d[i]))
        x = [dv['PFA', '1', '1'], dv['PFA' if rep else 'PID', '1', '1'],
             (smax(ctx, [dv['PFA', '2', '1'], dv['PFA', '2', '2']]) * k)
             if 'X3' in e else None]
        ctx.check((ds['c.1', '1', '1', '0', '1'].iloc[i] == 1)
                  == bool(EXPR[e](x) > cap[0]), 'sees its demand')
        if both:
            ctx.check((ds['c.2', '1', '1', '0', '1'].iloc[i] == 1)
                      == bool(x[0] > cap[1]), 'sees its demand')


@harness('invalid requests', must_reach=('refused',))
def refused(ctx):
    ne_stub(ctx)
    k, cap = ctx.real('k', 1, 2), ctx.real('cap', 1, 2)
    for spec, loc, mult in (
        (demand_spec(offset=-2), '1', True),
        (demand_spec(directional=0), '1', False),
        (demand_spec('No Such Demand'), '1', True),
        (demand_spec('Peak Floor Velocity'), '1', True),
        ({**demand_spec(), 'Demand-Expression': 'X1; X1'}, '1', True),
        (demand_spec(), '7', True),
        (demand_spec(offset=-1), '0', True),
    ):
        a = make_assessment(ctx, MC)
        a.options.nondir_multi_dict = {'ALL': k} if mult else {}
        try:
            run(ctx, a, {'c.1': dict(spec)}, [('c.1', loc, '1', '0')],
                [[1.0] * len(EDPS)], [cap])
        except (ValueError, KeyError):
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', str(spec))
