"""C19  Calibration: the demand model is fitted to the right data."""

import contextlib
import io
import math
import types
import warnings
from fractions import Fraction as Q

import numpy as np
import pandas as pd
import scipy.stats as st

from engine.dists import patch_uq
from engine.funcs import NORM, log, npdf, sqrt
from engine.harness import assume_note, harness
from engine.models import arr, frame, make_assessment
from engine.sym import Sym

assume_note('the numerical optimiser (scipy.optimize.minimize) is a stub that '
            'hands over its objective and returns an arbitrary point; the '
            'multivariate normal density and box probability of two dimensions '
            'are uninterpreted functions of their arguments (C25 decides the box)')

N3 = ['type', 'loc', 'dir']
COLS = [('PFA', '1', '1'), ('PID', '1', '1'), ('SA_1.1', '0', '1')]
UNITS = {'PFA': 'ua', 'PID': 'ur', 'SA_1.1': 'ua'}
LIMS = ['CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def nan(x):
    return isinstance(x, float) and x != x


def fit_stub(ctx, log_):
    """Stand-in for uq.fit_distribution_to_sample: records, returns anything."""

    def fit(raw_sample, distribution, truncation_limits=None, censored_count=0,
            detection_limits=None, **k):
        n = len(raw_sample)
        theta = [[ctx.real(f'th{i}', 1, 5), ctx.real(f'sg{i}', 0.1, 2)]
                 for i in range(n)]
        rho = [[1.0 if i == j else ctx.real(f'rho{j}{i}', -1, 1) if j < i else None
                for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                rho[j][i] = rho[i][j]
        log_.update(raw=raw_sample, dist=list(distribution), tr=truncation_limits,
                    det=detection_limits, count=censored_count, theta=theta,
                    rho=rho)
        t, r = np.empty((n, 2), dtype=object), np.empty((n, n), dtype=object)
        for i in range(n):
            t[i] = theta[i]
            r[i] = rho[i]
        return (t, r) if ctx.symbolic else (t.astype(float), r.astype(float))

    return fit


# settings of ALL and of the demand types: families and which limits they set
CONFIGS = [
    # one family, limits for all
    {'ALL': ('lognormal', ['CensorUpper'])},
    {'ALL': ('normal', ['TruncateLower', 'TruncateUpper'])},
    # limits for one type; ALL has another one
    {'ALL': ('lognormal', ['TruncateUpper']),
     'PID': ('normal', ['CensorLower', 'TruncateUpper'])},
    {'ALL': ('normal_std', []), 'PFA': ('lognormal', ['CensorLower', 'CensorUpper'])},
    {'ALL': ('empirical', []), 'PID': ('lognormal', ['TruncateUpper'])},
    {'ALL': ('lognormal', ['CensorUpper']), 'SA': ('empirical', [])},
    {'ALL': ('empirical', ['CensorLower'])},
    {'ALL': ('lognormal', []), 'SA': ('normal', ['TruncateLower']),
     'PID': ('empirical', [])},
    # a type without demands whose name starts like that of another
    {'ALL': ('lognormal', ['CensorUpper']), 'PF': ('normal', ['TruncateUpper'])},
]


@harness('3 demands x 2 realizations (1 in some cases) of symbolic values; settings for all demands '
         'and for demand types, every limit symbolic, in its own unit or without '
         'unit, as number or as text, or "N/A"; the columns in two orders',
         [{'c': c, 'unit': u} for c in range(len(CONFIGS))
          for u in ('own', 'none') if u == 'own' or c in (0, 3, 7)],
         thorough=[{'c': c, 'unit': 'none'} for c in (1, 2, 4, 5, 6)],
         must_reach=('data', 'parameters', 'limits', 'counts'))
def settings(ctx, c, unit):
    from pelicun import uq

    facs = {'ua': 2.0, 'ur': 0.5, 'ux': 4.0, 'uy': 0.25}
    a = make_assessment(ctx, units=facs)
    rec = {}
    ctx.patch(uq, 'fit_distribution_to_sample', fit_stub(ctx, rec))
    how = ctx.choice('how', ['number', 'text', 'reordered'])
    cols = [COLS[i] for i in (2, 0, 1)] if how == 'reordered' else COLS
    n = 1 if c == 1 else 2
    v = [[ctx.real(f'v{i}{e[0]}', 0.1, 10) for e in cols] for i in range(n)]
    a.demand.sample = frame(ctx, v, columns=pd.MultiIndex.from_tuples(
        cols, names=N3))
    a.demand.user_units = pd.Series([UNITS[e[0]] for e in cols], name='Units',
                                    index=a.demand.sample.columns)
    cfg, lim = {}, {}
    text = how == 'text'
    for t, (fam, set_) in CONFIGS[c].items():
        s = {'DistributionFamily': fam}
        if unit == 'own':
            s['Unit'] = 'ux' if t == 'ALL' else 'uy'
        f = facs[s['Unit']] if 'Unit' in s else 1.0
        for x in set_:
            b = (0.2, 4.0) if 'Lower' in x else (6.0, 12.0)
            val = ctx.real(f'{t}{x}', b[0] / f, b[1] / f)
            s[x] = '{}'.format(val) if text else val
            lim[t, x] = val * f
        if len(set_) == 1:
            s['TruncateLower' if set_ == ['CensorUpper'] else 'CensorUpper'] = (
                'N/A' if text else np.nan)
        cfg[t] = s
    before = {t: dict(s) for t, s in cfg.items()}
    quiet(a.demand.calibrate_model, cfg)
    ctx.check(all(k in cfg for k in before) and all(
        list(cfg[t]) == list(before[t]) for t in before), 'settings untouched')

    def of(e, x):
        t = e[0].split('_')[0]
        return lim.get((t, x), lim.get(('ALL', x), math.nan))

    fam = {e: CONFIGS[c].get(e[0].split('_')[0], CONFIGS[c]['ALL'])[0] for e in cols}

    # the realizations that stay, by the meaning of the limits
    def inside(row, lo, hi):
        ok = True
        for x, e in zip(row, cols):
            l, u = of(e, lo), of(e, hi)
            ok = ok and (nan(l) or bool(x > l)) and (nan(u) or bool(x < u))
        return ok

    left = [r for r in v if inside(r, 'CensorLower', 'CensorUpper')]
    ctx.check(rec['count'] == n - len(left), 'counts')
    left = [r for r in left if inside(r, 'TruncateLower', 'TruncateUpper')]
    cont = [i for i, e in enumerate(cols) if fam[e] != 'empirical']
    raw = rec['raw']
    ctx.check(np.shape(raw) == (len(cont), len(left))
              and rec['dist'] == [fam[cols[i]] for i in cont], 'data')
    for j, i in enumerate(cont):
        for k, r in enumerate(left):
            ctx.eq(raw[j][k], r[i], 'data')
        for m, x in enumerate(LIMS):
            got = (rec['det'] if m < 2 else rec['tr'])[j][m % 2]
            want = of(cols[i], x)
            if nan(want):
                ctx.check(nan(got), 'limits')
            else:
                ctx.eq(got, want, 'limits')
    ctx.reach('limits')
    # results go where they belong
    p = a.demand.marginal_params
    ctx.check([tuple(x) for x in p.index] == list(cols), 'parameters')
    for j, i in enumerate(cont):
        e = cols[i]
        ctx.check(p.loc[e, 'Family'] == fam[e], 'parameters')
        for m in range(2):
            ctx.eq(p.loc[e, f'Theta_{m}'], rec['theta'][j][m], 'parameters')
        for x in LIMS[2:]:
            want = of(e, x)
            if nan(want):
                ctx.check(nan(p.loc[e, x]), 'parameters')
            else:
                ctx.eq(p.loc[e, x], want, 'parameters')
        for m, i2 in enumerate(cont):
            ctx.eq(a.demand.correlation.loc[e, cols[i2]], rec['rho'][j][m],
                   'parameters')
    for e in cols:
        if fam[e] == 'empirical':
            ctx.check(p.loc[e, 'Family'] == 'empirical'
                      and nan(p.loc[e, 'Theta_0']), 'parameters')
            d = a.demand.empirical_data[e]
            ctx.check(len(d) == len(left), 'data')
            for k, r in enumerate(left):
                ctx.eq(d.iloc[k], r[cols.index(e)], 'data')
    ctx.check(a.demand.correlation.shape == (len(cont),) * 2, 'parameters')
    # the sample itself is not affected
    ctx.check(a.demand.sample.shape == (n, 3), 'sample kept')
    for i in range(n):
        for j in range(3):
            ctx.eq(a.demand.sample.iloc[i, j], v[i][j], 'sample kept')


@harness('additional uncertainty of demands of every family, in any unit, after '
         'a fit with any result; one demand without',
         [{'f': f} for f in ('lognormal', 'normal', 'normal_std')],
         must_reach=('uncertainty',))
def added_uncertainty(ctx, f):
    from pelicun import uq

    k = ctx.real('factor', 0.1, 10)
    a = make_assessment(ctx, units={'ua': 2.0, 'ur': 1.0, 'ux': k})
    rec = {}
    ctx.patch(uq, 'fit_distribution_to_sample', fit_stub(ctx, rec))
    v = [[1.0, 2.0, 3.0], [2.0, 3.0, 5.0]]
    a.demand.sample = frame(ctx, v, columns=pd.MultiIndex.from_tuples(
        COLS, names=N3))
    a.demand.user_units = pd.Series([UNITS[e[0]] for e in COLS], name='Units',
                                    index=a.demand.sample.columns)
    inc = ctx.real('added', 0.01, 2)
    t = ctx.choice('type', ['PFA', 'PID', 'SA'])
    cfg = {'ALL': {'DistributionFamily': 'lognormal'},
           t: {'DistributionFamily': f, 'AddUncertainty': inc, 'Unit': 'ux'}}
    quiet(a.demand.calibrate_model, cfg)
    for j, e in enumerate(COLS):
        th, sg = rec['theta'][j]
        p = a.demand.marginal_params.loc[e]
        ctx.eq(p['Theta_0'], th, 'uncertainty')
        got = p['Theta_1']
        ctx.check(got >= 0, 'uncertainty')
        if e[0].split('_')[0] != t:
            ctx.eq(got * got, sg * sg, 'uncertainty')
        elif f == 'lognormal':
            ctx.eq(got * got, sg * sg + inc * inc, 'uncertainty')
        elif f == 'normal_std':
            ctx.eq(got * got, sg * sg + inc * k * inc * k, 'uncertainty')
        else:
            # coefficients of variation: variances are added
            ctx.eq(got * got * th * th, sg * sg * th * th + inc * k * inc * k,
                   'uncertainty')


def pick(ctx, x):
    return log(x) if isinstance(x, Sym) else float(np.log(x))


@harness('one demand of any family, 1-3 observations (4 in thorough) without limits; numbers or '
         'integers', [{'f': f, 'n': n} for f in (
             'normal', 'normal_std', 'normal_cov', 'lognormal') for n in (1, 2, 3)],
         thorough=[{'f': f, 'n': 4} for f in ('normal_std', 'lognormal')],
         must_reach=('moments',))
def moments(ctx, f, n):
    uq = patch_uq(ctx)
    if ctx.flag('integers'):
        x = [[1, 2, 4, 9], [3, 1, 1, 2]][ctx.choice('data', [0, 1])][:n]
        raw = np.array([x])
    else:
        x = [ctx.real(f'x{i}', 0.5, 20) for i in range(n)]
        raw = frame(ctx, [x]).to_numpy()
    theta, rho = quiet(uq.fit_distribution_to_sample, raw, f)
    ctx.check(np.shape(theta) == (1, 2) and np.shape(rho) == (1, 1), 'moments')
    ctx.eq(rho[0][0], 1.0, 'moments')
    t0, t1 = theta[0]
    y = [pick(ctx, v) for v in x] if f == 'lognormal' else x
    m = sum(y) / n
    var = sum((v - m) * (v - m) for v in y) / n
    ctx.eq(pick(ctx, t0) if f == 'lognormal' else t0, m, 'location')
    if f in {'normal', 'normal_cov'}:
        t1 = t1 * abs(m)
    ctx.check(t1 > 0, 'moments')
    # identical observations: a tiny deviation instead of zero
    if bool(var <= 1e-12):
        ctx.check(t1 <= 1e-5 * (1 + abs(m)), 'identical observations')
    else:
        ctx.eq(t1 * t1, var, 'moments')


@harness('2 or 3 demands of mixed families; 4 observations whose standard scores '
         'are fixed, with any location and scale', [
             {'f': f} for f in (('normal_std', 'lognormal'),
                                ('lognormal', 'normal', 'lognormal'),
                                ('normal_cov', 'normal_std', 'normal'))],
         must_reach=('moments', 'correlation'))
def joint(ctx, f):
    uq = patch_uq(ctx)

    z = [[Q(1), Q(1), Q(-1), Q(-1)],
         [Q(7, 5), Q(-1, 5), Q(1, 5), Q(-7, 5)],
         [Q(1), Q(-1), Q(-1), Q(1)]]
    if len(f) == 2:
        z = z[:2]
    order = ctx.perm('order', len(f))
    z = [z[i] for i in order]
    x, loc, sc = [], [], []
    for i, fam in enumerate(f):
        m = ctx.real(f'm{i}', 1, 5)
        s = ctx.real(f's{i}', 0.05, 0.5)
        loc.append(m)
        sc.append(s)
        row = [m + s * exact(ctx, q) for q in z[i]]
        x.append([from_log(ctx, r) for r in row] if fam == 'lognormal' else row)
    raw = frame(ctx, x).to_numpy()
    theta, rho = quiet(uq.fit_distribution_to_sample, raw, list(f))
    for i, fam in enumerate(f):
        t0, t1 = theta[i]
        ctx.eq(pick(ctx, t0) if fam == 'lognormal' else t0, loc[i], 'moments')
        if fam in {'normal', 'normal_cov'}:
            t1 = t1 * loc[i]
        ctx.eq(t1 * t1, sc[i] * sc[i], 'moments')
        ctx.check(t1 > 0, 'moments')
        for j in range(len(f)):
            want = sum(p * q for p, q in zip(z[i], z[j])) / 4
            ctx.eq(rho[i][j], exact(ctx, want), 'correlation')


def exact(ctx, q):
    if not ctx.symbolic:
        return float(q)
    from engine.sym import mk
    import z3
    return mk(z3.Q(q.numerator, q.denominator))


def from_log(ctx, y):
    from engine.funcs import exp
    return exp(y) if ctx.symbolic else np.exp(y)


def grow(ctx, s, d):
    return from_log(ctx, pick(ctx, s) + d)


@harness('the objective of the fit of one demand with any truncation and detection '
         'limits, 4 observations with given standard scores, at any point; and its use of the optimum',
         [{'f': f, 'kind': k} for f in ('normal_std', 'lognormal', 'normal')
          for k in ('truncated', 'lower', 'censored', 'both', 'beyond')],
         must_reach=('likelihood', 'optimum'))
def objective(ctx, f, kind):
    uq = patch_uq(ctx)
    n = 4
    if ctx.symbolic:
        ctx.opaque_quotients = {}
    loc, log_scale = ctx.real('location', -0.2, 0.2), ctx.real('scale', -1.2, -0.5)
    scale = from_log(ctx, log_scale)
    ctx.assume((scale > 0.25) & (scale < 0.65))
    y = [loc + scale * exact(ctx, Q(k, 5)) for k in (1, -7, 7, -1)]
    lo, hi = ctx.real('lo', -3, -1.5), ctx.real('hi', 1.5, 3)
    # observations and limits, transformed by the family
    back = (lambda v: from_log(ctx, v)) if f == 'lognormal' else (lambda v: v + 5.0)
    shift = 0.0 if f == 'lognormal' else 5.0
    x = [back(v) for v in y]
    tr, det, count = [math.nan] * 2, [math.nan] * 2, 0
    if kind == 'truncated':
        tr = [back(lo), back(hi)]
    elif kind == 'lower':
        tr = [back(lo), math.nan]
    else:
        seen = ctx.real('detected', 1.2, 1.4) if kind == 'both' else hi
        if kind == 'both':
            tr = [back(lo), back(hi)]
        det = [math.nan, back(seen)]
        if kind == 'beyond':
            # detected from a lower limit on, up to one above the truncation
            seen = ctx.real('detected', -1.4, -1.2)
            tr = [math.nan, back(hi)]
            det = [back(seen), back(ctx.real('beyond', 3.1, 3.3))]
        count = ctx.choice('count', [1, 4])
    calls = []
    d0, d1 = ctx.real('d0', -0.5, 0.5), ctx.real('d1', 0.01, 0.5)
    e0, e1 = ctx.real('e0', -0.5, 0.5), ctx.real('e1', 0.01, 0.5)

    def minimize(fun, x0, args=(), **k):
        calls.append(fun(arr(ctx, [e0, e1]), *args))
        return types.SimpleNamespace(x=arr(ctx, [d0, d1]))

    ctx.patch(uq, 'minimize', minimize)
    if ctx.symbolic:
        ctx.patch(uq, 'mvn', types.SimpleNamespace(pdf=mvn_pdf(ctx)))
    ctx.patch(uq, 'mvn_orthotope_density', box(ctx))
    theta, rho = quiet(uq.fit_distribution_to_sample, frame(ctx, [x]).to_numpy(),
                       f, truncation_limits=tr, censored_count=count,
                       detection_limits=det)
    ctx.check(len(calls) == (2 if count else 1), 'optimum')
    # where the point is in terms of the parameters
    m0, s0 = loc + shift, scale
    mu, sg = m0, s0
    for _ in calls:
        mu = mu + d0
        sg = grow(ctx, sg, d1) if f == 'lognormal' else sg + d1
    t0, t1 = theta[0]
    ctx.eq(pick(ctx, t0) if f == 'lognormal' else t0, mu, 'optimum')
    ctx.eq(t1, sg / abs(mu) if f == 'normal' else sg, 'optimum')
    # the likelihood at an arbitrary point
    got = calls[-1]
    mu, sg = m0, s0
    for _ in calls[:-1]:
        mu = mu + d0
        sg = grow(ctx, sg, d1) if f == 'lognormal' else sg + d1
    mu = mu + e0
    sg = grow(ctx, sg, e1) if f == 'lognormal' else sg + e1
    cdf = (lambda v: NORM.cdf((v + shift - mu) / sg)) if ctx.symbolic else (
        lambda v: st.norm.cdf(v + shift, mu, sg))
    pdf = (lambda v: npdf((v + shift - mu) / sg) / sg) if ctx.symbolic else (
        lambda v: st.norm.pdf(v + shift, mu, sg))
    pa = cdf(lo) if not nan(tr[0]) else 0.0
    pb = cdf(hi) if not nan(tr[1]) else 1.0
    ll = 0.0
    for v in y:
        ll = ll + pick(ctx, pdf(v) / (pb - pa))
    if count:
        below = (cdf(seen) - pa) / (pb - pa)
        ll = ll + count * pick(ctx, below if kind == 'beyond' else 1.0 - below)
    ctx.eq(got, -ll / n, 'likelihood')


def mvn_pdf(ctx):
    def pdf(x, mean=None, cov=None):
        x = np.asarray(x, dtype=object)
        c = np.asarray(cov, dtype=object)
        if x.shape[1] != 1 or any(v != 0 for v in np.ravel(mean)):
            raise NotImplementedError
        out = np.empty(len(x), dtype=object)
        for i, r in enumerate(x):
            sd = 1.0 if c[0][0] == 1.0 else sqrt(c[0][0])
            out[i] = npdf(r[0] / sd) / sd
            # not so far out that the density underflows
            ctx.assume(out[i] > 1e-6)
        return out

    return pdf


def box(ctx):
    def density(mu, cov, lower=np.nan, upper=np.nan):
        lo, hi = np.atleast_1d(lower)[0], np.atleast_1d(upper)[0]

        def p(x, d):
            if nan(x) or x is None:
                return d
            if isinstance(x, float) and math.isinf(x):
                return 0.0 if x < 0 else 1.0
            return NORM.cdf(x) if ctx.symbolic else float(st.norm.cdf(x))

        alpha = p(hi, 1.0) - p(lo, 0.0)
        # neither (almost) everything nor nothing can be detected
        ctx.assume((alpha > 1e-6) & (alpha < 1 - 1e-6))
        return alpha, 1e-16

    return density


@harness('the objective of the joint fit of two censored demands (normal and '
         'lognormal, in both orders) with detection limits on any of their sides and '
         'any probability of detection; 4 given observations, two points, 1 or 3 '
         'censored',
         [{'f': f, 'lims': l} for f in (('normal_std', 'lognormal'),
                                        ('lognormal', 'normal_std'))
          for l in ('upper', 'first', 'both')],
         must_reach=('likelihood', 'limits', 'correlation'))
def joint_objective(ctx, f, lims):
    uq = patch_uq(ctx)
    z = np.array([[1, -7, 7, -1], [7, -1, 1, -7]]) / 5
    n = len(z[0])
    e = np.array(ctx.choice('point', [(1, 1, 0, 0), (-1, 0, 0, 0)])) / 5
    x = [np.exp(row) if fam == 'lognormal' else row + 5.0 for fam, row in zip(f, z)]
    hi = [ctx.real('hi0', 1.5, 3), ctx.real('hi1', 1.5, 3)]
    lo = [ctx.real('lo0', -3, -1.5), math.nan]
    if lims != 'both':
        lo = [math.nan] * 2
    if lims == 'first':
        hi[1] = math.nan

    def back(fam, v):
        if nan(v):
            return v
        return from_log(ctx, v) if fam == 'lognormal' else v + 5.0

    det = [[back(fam, a), back(fam, b)] for fam, a, b in zip(f, lo, hi)]
    count = ctx.choice('count', [1, 3])
    got, rows, boxes = [], [], []
    dens = [0.11, 0.07, 0.13, 0.03]

    def minimize(fun, x0, args=(), **k):
        if np.size(x0) == 4:
            got.append(fun(e.copy(), *args))
        return types.SimpleNamespace(x=np.zeros(np.size(x0)))

    def pdf(v, mean=None, cov=None):
        v, c = np.asarray(v, dtype=float), np.asarray(cov, dtype=float)
        ctx.check(v.shape == (n, 2) and not np.any(mean), 'correlation')
        if c[0][1] == 0:
            return st.norm.pdf(v).prod(axis=1)
        rows.append((v, c))
        return np.array(dens)

    def density(mu, cov, lower=np.nan, upper=np.nan):
        p = ctx.real('detected', 0.3, 0.9)
        boxes.append((np.asarray(cov, dtype=float), np.ravel(lower), np.ravel(upper), p))
        return p, 1e-16

    ctx.patch(uq, 'minimize', minimize)
    ctx.patch(uq, 'mvn', types.SimpleNamespace(pdf=pdf))
    ctx.patch(uq, 'mvn_orthotope_density', density)
    quiet(uq.fit_distribution_to_sample, np.array(x), list(f),
          censored_count=count, detection_limits=det)
    # the standard scores at the point (only the first demand is moved)
    s0 = 1 + e[1] if f[0] == 'normal_std' else np.exp(e[1])
    want = np.array([(z[0] - e[0]) / s0, z[1]])
    r = (want[0] * want[1]).sum() / n
    ctx.check(len(got) == len(boxes) == len(rows) == 1, 'likelihood')
    (cov, low, up, seen), = boxes
    v, c = rows[0]
    near = lambda a, b: bool(np.allclose(np.asarray(a, dtype=float), b, 1e-7, 1e-7))
    ctx.check(near(cov, [[1, r], [r, 1]]) and near(c, cov), 'correlation')
    ctx.check(near(v, want.T), 'likelihood')

    def open_(v):
        return nan(v) or isinstance(v, float) and math.isinf(v)

    def almost(a, b, label):
        ctx.check((a - b <= 1e-6) & (b - a <= 1e-6), label)

    for i, s, m in ((0, s0, e[0]), (1, 1.0, 0.0)):
        for g, w in ((low[i], lo[i]), (up[i], hi[i])):
            if nan(w):
                ctx.check(open_(g), 'limits')
            else:
                almost(g, (w - m) / s, 'limits')
    ll = np.log(np.array(dens) / s0).sum() + count * pick(ctx, 1.0 - seen)
    almost(got[0], -ll / (2 * n), 'likelihood')
