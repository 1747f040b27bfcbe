"""C04  A change of units commutes with the distribution."""

import contextlib
import io

import numpy as np
import pandas as pd

from engine.dists import patch_uq
from engine.harness import assume_note, harness
from engine.models import arr, make_assessment
from engine.sym import Sym

assume_note('unit factors are symbolic positive reals registered in the '
            'assessment\'s unit table')

COLS = ['Family', 'Theta_0', 'Theta_1', 'Theta_2', 'TruncateLower',
        'TruncateUpper']
SCALED = {'normal': (1, 0), 'normal_cov': (1, 0), 'normal_std': (1, 1),
          'lognormal': (1, 0), 'uniform': (1, 1), 'deterministic': (1, None),
          None: (1, None)}


def close(ctx, a, b, label):
    ctx.eq(a, b, label)


@harness('one row per family with symbolic parameters, limits, unit factor and '
         'count; one row without a unit',
         [{'fam': f, 'lims': l} for f in SCALED
          for l in ('both', 'none', 'lower')],
         must_reach=('theta_0', 'unit-less row unchanged', 'round trip'))
def marginals(ctx, fam, lims):
    f = ctx.real('unit_factor', 0.001, 1000)
    count = ctx.choice('count', ['', '2 ', '0.5 '])
    k = f * (float(count) if count else 1.0)
    a = make_assessment(ctx, units={'uu': f})
    th = [ctx.real(f't{i}', 0.01, 5) for i in range(2)]
    lo = ctx.real('lo', 0.01, 1) if lims in {'both', 'lower'} else np.nan
    hi = ctx.real('hi', 6, 9) if lims == 'both' else np.nan
    famv = np.nan if fam is None else fam
    rows = [[famv, th[0], th[1], np.nan, lo, hi],
            ['lognormal', th[0], th[1], np.nan, lo, np.nan],
            ['empirical', th[0], th[1], np.nan, np.nan, np.nan]]
    order = ctx.choice('row order', [[0, 1, 2], [2, 0, 1]])
    names = ['A', 'B', 'C']
    index = pd.MultiIndex.from_tuples([(names[i], '1', '1') for i in order])
    df = pd.DataFrame([rows[i] for i in order], columns=COLS, index=index,
                      dtype=object)
    uu = {'A': count + 'uu', 'B': np.nan, 'C': 'uu'}
    units = pd.Series([uu[names[i]] for i in order], index=index, dtype=object)
    out = a.demand._convert_marginal_params(df.copy(), units)
    ctx.check(list(out.columns) == COLS, 'same columns')
    ctx.check(list(out.index) == list(index), 'same rows')
    r = out.loc[('A', '1', '1')]
    s0, s1 = SCALED[fam]
    close(ctx, r['Theta_0'], th[0] * k, 'theta_0')
    if s1 is not None:
        close(ctx, r['Theta_1'], th[1] * k if s1 else th[1], 'theta_1')
    if lims != 'none':
        close(ctx, r['TruncateLower'], lo * k, 'lower limit')
    else:
        ctx.check(pd.isna(r['TruncateLower']), 'lower limit absent')
    if lims == 'both':
        close(ctx, r['TruncateUpper'], hi * k, 'upper limit')
    else:
        ctx.check(pd.isna(r['TruncateUpper']), 'upper limit absent')
    for nm, i in (('B', 1), ('C', 2)):
        r = out.loc[(nm, '1', '1')]
        for c, v in zip(COLS, rows[i]):
            if isinstance(v, float) and v != v:
                ctx.check(pd.isna(r[c]), 'unit-less row unchanged')
            else:
                ctx.eq(r[c], v, 'unit-less row unchanged')
    # and back
    back = a.demand._convert_marginal_params(
        out.copy(), units, inverse_conversion=True)
    r = back.loc[('A', '1', '1')]
    close(ctx, r['Theta_0'], th[0], 'round trip')
    if s1 is not None:
        close(ctx, r['Theta_1'], th[1], 'round trip')
    if lims != 'none':
        close(ctx, r['TruncateLower'], lo, 'round trip')


@harness('two rows with the same or different quantity (argument) units: constant and '
         'quantity-dependent first parameter (2 points)',
         [{'fam': f, 'divide': d, 'au': u, 'n': n}
          for f in ('normal', 'lognormal', None)
          for d in (True, False) for u in ('qq', '1 EA', '10 qq')
          for n in (0, 2)],
         must_reach=('median',))
def per_quantity(ctx, fam, divide, au, n):
    """Consequence parameters: cost unit per quantity unit."""
    f = ctx.real('unit_factor', 0.01, 100)
    q = ctx.real('quantity_factor', 0.01, 100)
    a = make_assessment(ctx, units={'uu': f, 'qq': q, 'EA': 1.0})
    qk = {'qq': q, '1 EA': 1.0, '10 qq': 10.0 * q}[au]
    other = ctx.choice('other row', [au, '1 EA'])
    th1 = ctx.real('t1', 0.1, 1)
    famv = np.nan if fam is None else fam
    if n:
        # six significant digits survive the text form
        ys = [ctx.int(f'y{i}', 1, 9) for i in range(n)]
        xs = [ctx.int(f'x{i}', 1, 9) for i in range(n)]
        th0 = ','.join(str(v) for v in ys) + '|' + ','.join(str(v) for v in xs)
    else:
        y = ctx.real('t0', 0.1, 10)
        th0 = y
    idx = pd.MultiIndex.from_tuples([('c.1', 'Cost'), ('c.2', 'Cost')])
    df = pd.DataFrame([[famv, th0, th1], [famv, th0, th1]], index=idx,
                      columns=['Family', 'Theta_0', 'Theta_1'], dtype=object)
    out = a.demand._convert_marginal_params(
        df.copy(), pd.Series(['uu', 'uu'], index=idx),
        pd.Series([au, other], index=idx), divide_units=divide)
    qk0 = qk
    for row, au_r in zip(idx, (au, other)):
        qk = 1.0 if au_r == '1 EA' else qk0
        k = f / qk if divide else f
        v = out.loc[row, 'Theta_0']
        if not n:
            ctx.eq(v, y * k, 'median')
        else:
            ctx.check(isinstance(v, str) and v.count('|') == 1, 'text form')
            gy, gx = [part.split(',') for part in v.split('|')]
            ctx.check(len(gy) == n and len(gx) == n, 'text form')
            for i in range(n):
                tol_eq(ctx, gy[i], ys[i] * k, 'median')
                tol_eq(ctx, gx[i], xs[i] * qk, 'quantity points')
        if fam is not None:
            ctx.eq(out.loc[row, 'Theta_1'], th1, 'dispersion unchanged')


def tol_eq(ctx, text, want, label):
    from engine.sym import parse_number

    v = parse_number(text)
    if ctx.symbolic:
        ctx.eq(v, want, label)
    else:
        ctx.check(abs(v - want) <= 1e-5 * abs(want), label, f'{v} vs {want}')


@harness('each linear family, symbolic positive factor, parameters and uniform '
         'draw; limits none/both',
         [{'fam': f, 'lims': l} for f in
          ('normal_std', 'normal_cov', 'uniform', 'lognormal', 'deterministic')
          for l in (False, True)],
         must_reach=('quantile scales',))
def scaled_quantile(ctx, fam, lims):
    """Scaling the parameters scales every quantile."""
    uq = patch_uq(ctx)
    if fam == 'lognormal' and lims:
        f = ctx.choice('f', [12.0, 0.3048])
    else:
        f = ctx.real('f', 0.01, 100)
    t0 = ctx.real('t0', 0.5, 5)
    t1 = ctx.real('t1', 0.1, 0.9) if fam != 'uniform' else ctx.real('t1', 6, 9)
    theta = arr(ctx, [t0, t1, np.nan])
    if lims:
        lim = arr(ctx, [ctx.real('lo', 0.1, 3), ctx.real('hi', 4, 8)])
    else:
        lim = None
    th2, lim2 = uq.scale_distribution(f, fam, theta.copy(),
                                      None if lim is None else lim.copy())
    ctx.check((lim2 is None) == (lim is None), 'limits kept')
    if lim is not None:
        ctx.eq(lim2[0], lim[0] * f, 'limits scale')
        ctx.eq(lim2[1], lim[1] * f, 'limits scale')
    ctx.eq(th2[0], t0 * f, 'theta')
    if fam in {'normal_std', 'uniform'}:
        ctx.eq(th2[1], t1 * f, 'theta')
    elif fam != 'deterministic':
        ctx.eq(th2[1], t1, 'theta')
    if lim is not None and fam not in {'normal_std', 'uniform'}:
        ctx.reach('quantile scales')
        return
    cls = uq.rv_class_map(fam)
    u = ctx.real('u', 0.01, 0.99)
    out = []
    for th, li in ((theta, lim), (th2, lim2)):
        kw = {}
        if li is not None and fam != 'deterministic':
            kw['truncation_limits'] = li
        rv = cls('X', theta=th[:2] if fam != 'deterministic' else th[:1], **kw)
        if fam == 'deterministic':
            rv.inverse_transform_sampling(1)
        else:
            rv.uni_sample = arr(ctx, [u])
            try:
                rv.inverse_transform_sampling()
            except ValueError:
                # next to no probability between the limits: refused
                ctx.assume(False)
        out.append(rv.sample[0])
    ctx.eq(out[1], out[0] * f, 'quantile scales')


@harness('parameters and limits given as whole numbers (as a table without any '
         'decimals has them), 4 unit factors; rows of a table and the function '
         'itself',
         [{'fam': f} for f in ('normal_std', 'normal_cov', 'uniform', 'lognormal',
                               'deterministic')],
         must_reach=('integer parameters', 'integer table'))
def integers(ctx, fam):
    """Whole numbers are scaled like any other number."""
    uq = patch_uq(ctx)
    f = ctx.choice('f', [0.3048, 0.0254, 12.0, 1.5])
    t = [ctx.choice('t0', [3, 10]), ctx.choice('t1', [1, 7]), 0]
    both = fam in {'normal_std', 'uniform'}
    lim = [2, 35] if ctx.flag('limits') else None
    given = None if lim is None else np.array(lim)
    theta = np.array(t)
    th2, lim2 = uq.scale_distribution(f, fam, theta, given)
    n = 1 if fam == 'deterministic' else 2
    want = [t[0] * f, t[1] * f if both else t[1]][:n]
    for a, b in zip(th2, want):
        ctx.check(abs(float(a) - b) <= 1e-9 * b, 'integer parameters', f'{a} vs {b}')
    ctx.check(list(theta) == t, 'inputs kept')
    if lim is None:
        ctx.check(lim2 is None, 'limits kept')
    else:
        ctx.check(list(given) == lim, 'inputs kept')
        for a, b in zip(lim2, lim):
            ctx.check(abs(float(a) - b * f) <= 1e-9 * b * f, 'integer limits')
    a = make_assessment(ctx, units={'uu': f})
    idx = pd.MultiIndex.from_tuples([('A', '1', '1'), ('B', '1', '1')])
    cols = {'Theta_0': [t[0], t[0]], 'Theta_1': [t[1], t[1]]}
    if ctx.flag('third column'):
        cols['Theta_2'] = [0, 0]
    cols['Family'] = [fam if n == 2 else np.nan] * 2
    if lim is not None:
        cols['TruncateLower'], cols['TruncateUpper'] = [lim[0]] * 2, [lim[1]] * 2
    df = pd.DataFrame(cols, index=idx)
    with contextlib.redirect_stdout(io.StringIO()):
        out = a.demand._convert_marginal_params(
            df.copy(), pd.Series(['uu', 'uu'], index=idx))
    for nm in idx:
        for i, b in enumerate(want):
            v = float(out.loc[nm, f'Theta_{i}'])
            ctx.check(abs(v - b) <= 1e-9 * b, 'integer table', f'{v} vs {b}')
        if lim is not None:
            for c, b in zip(('TruncateLower', 'TruncateUpper'), lim):
                v = float(out.loc[nm, c])
                ctx.check(abs(v - b * f) <= 1e-9 * b * f, 'integer table')


@harness('family names outside the supported set', must_reach=('refused',))
def unsupported_family(ctx):
    uq = patch_uq(ctx)
    th = arr(ctx, [ctx.real('a', 1, 2), ctx.real('b', 1, 2), np.nan])
    try:
        uq.scale_distribution(2.0, 'no such family', th)
    except ValueError:
        ctx.check(True, 'refused')
    else:
        ctx.fail('refused')
