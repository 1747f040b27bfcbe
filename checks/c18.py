"""C18  The demand sample follows the demand model it was given."""

import contextlib
import io
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from engine.dists import Rng
from engine.funcs import exp, log
from engine.harness import assume_note, harness
from engine.models import arr, frame, make_assessment, used_symbols
from engine.sym import bterm

assume_note('the quantile functions of the families are those of pelicun.uq '
            '(checked in C01); the numbers of correlated draws are checked in C03')

N3 = ['type', 'loc', 'dir']
UNITS = {'PFA': 'ua', 'PID': 'ur', 'SA_1.1': 'ua', 'PFV': 'uv'}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def assessment(ctx, fixed=False, method='MonteCarlo'):
    if fixed:
        f = {'ua': 2.0, 'ur': 0.5, 'uv': 3.0}
    else:
        f = {u: ctx.real('f' + u, 0.01, 100) for u in ('ua', 'ur', 'uv')}
    a = make_assessment(ctx, {'Sampling': {'SamplingMethod': method}}, units=f)
    return a, f


def by_type(f, edp):
    return f[UNITS[edp[0]]]


def marginals(ctx, rows, simple):
    """rows: {edp: (family, t0, t1, lo, hi)} in user units."""
    cols = ['Units', 'Family', 'Theta_0', 'Theta_1', 'TruncateLower',
            'TruncateUpper']
    keys = list(rows)
    df = pd.DataFrame([[UNITS[k[0]], *rows[k]] for k in keys], columns=cols,
                      index=['-'.join(k) for k in keys] if simple else
                      pd.MultiIndex.from_tuples(keys, names=N3), dtype=object)
    return df if ctx.symbolic else df.infer_objects()


EDPS = [('PFA', '1', '1'), ('PID', '1', '1'), ('SA_1.1', '0', '1')]
FAMS = {'normal': (4.0, 0.2), 'lognormal': (4.0, 0.3), 'uniform': (2.0, 6.0),
        'normal_std': (4.0, 0.7)}


def source_of(ctx, v, quantile, draws, seen):
    """The draw a sampled value comes from, when it is the quantile there."""
    if ctx.symbolic:
        names = used_symbols(v)
        mine = [x for x in draws if str(x.t) in names]
        ctx.check(len(mine) == 1 and not names & seen, 'own draw')
        seen |= names
        if len(mine) == 1:
            ctx.eq(v, quantile(arr(ctx, mine))[0], 'quantile')
        return
    q = np.asarray(quantile(np.array(draws, dtype=float)), dtype=float)
    hit = [j for j in np.where(np.isclose(q, float(v), atol=1e-9))[0]
           if j not in seen]
    ctx.check(bool(hit), 'quantile')
    seen.add(hit[0])


@harness('3 uncorrelated demands of any family (2 of them with truncation '
         'limits), every order of the rows, simple or multi index; 2 realizations',
         [{'f': f, 'simple': s} for s in (False, True) for f in (
             ('normal', 'lognormal', 'uniform'),
             ('normal_std', 'uniform', 'normal'),
             ('lognormal', 'normal', 'normal_std'))],
         must_reach=('quantile', 'layout'))
def independent(ctx, f, simple):
    from pelicun import uq

    a, fac = assessment(ctx, fixed=True)
    rng = Rng(ctx)
    rng.lim = (1e-9, 1 - 1e-9)  # away from rounding at the ends
    a.options._rng = rng
    order = ctx.perm('order', 3)
    lim = [(1.0, np.nan), (np.nan, np.nan), (np.nan, 8.0)]
    spec = {e: (x, *FAMS[x], *li) for e, x, li in zip(EDPS, f, lim)}
    rows = {EDPS[i]: spec[EDPS[i]] for i in order}
    quiet(a.demand.load_model, {'marginals': marginals(ctx, rows, simple)})
    n = 2
    quiet(a.demand.generate_sample, {'SampleSize': n})
    out = a.demand.sample
    ctx.check(list(out.columns.names) == N3 and {tuple(c) for c in out.columns}
              == set(EDPS) and list(out.index) == list(range(n)), 'layout')
    draws, seen = list(rng.memo.values()), set()
    for e in EDPS:
        fam, t0, t1, lo, hi = spec[e]
        k = by_type(fac, e)
        sc = k if fam in {'uniform', 'normal_std'} else 1.0
        rv = uq.rv_class_map(fam)(name='x', theta=np.array([t0 * k, t1 * sc]),
                                  truncation_limits=np.array([lo * k, hi * k]))
        for i in range(n):
            source_of(ctx, out[e].iloc[i], rv.inverse_transform, draws, seen)
    # reported in user units
    res, un = quiet(a.demand.save_sample, save_units=True)
    for e in EDPS:
        ctx.check(un[e] == UNITS[e[0]], 'unit')
        ctx.eq(res[e].iloc[0] * by_type(fac, e), out[e].iloc[0], 'user units')


@harness('3 demands, two of them correlated by any coefficient; every order of '
         'the marginals and of the correlation matrix; with or without an '
         'uncorrelated demand in the matrix',
         [{'full': x} for x in (True, False)],
         must_reach=('correlated', 'independent'))
def correlated(ctx, full):
    a, _ = assessment(ctx, fixed=True)
    rng = Rng(ctx)
    rng.lim = (0.001, 0.999)
    a.options._rng = rng
    rho = ctx.real('rho', -0.9, 0.9)
    ctx.assume((rho > 0.1) | (rho < -0.1))
    po, co = ctx.perm('order', 3), ctx.perm('matrix order', 3 if full else 2)
    rows = {EDPS[i]: ('normal_std', 0.0, 1.0, np.nan, np.nan) for i in po}
    # the first and the last demand are correlated
    pair = (EDPS[0], EDPS[2])
    names = [(*pair, EDPS[1])[i] for i in co]
    m = [[1.0 if x == y else rho if {x, y} == set(pair) else 0.0 for y in names]
         for x in names]
    mi = pd.MultiIndex.from_tuples(names, names=N3)
    corr = frame(ctx, m, index=mi, columns=mi)
    quiet(a.demand.load_model, {'marginals': marginals(ctx, rows, False),
                                'correlation': corr})
    quiet(a.demand.generate_sample, {'SampleSize': 1})
    out = a.demand.sample
    k = {e: by_type({'ua': 2.0, 'ur': 0.5}, e) for e in EDPS}
    z = {e: out[e].iloc[0] / k[e] for e in EDPS}
    from engine.funcs import NORM
    import scipy.stats as st

    draws = list(rng.memo.values())
    if ctx.symbolic:
        used = {e: {str(x.t) for x in draws if str(x.t) in used_symbols(z[e])}
                for e in EDPS}
        ctx.check(len(used[EDPS[1]]) == 1
                  and not used[EDPS[1]] & (used[pair[0]] | used[pair[1]]),
                  'independent')
        ctx.check(bool(used[pair[0]] & used[pair[1]]), 'correlated')
    else:
        ctx.reach('independent')
        ctx.reach('correlated')
    # one of the two is a plain quantile, the other one the prescribed mix
    g = [NORM.ppf(x) if ctx.symbolic else st.norm.ppf(x) for x in draws]
    want = []
    for x in pair:
        y = pair[1] if x == pair[0] else pair[0]
        for i in range(3):
            for j in range(3):
                if i != j:
                    want.append((z[x], g[i], z[y], i, j))
    ok = False
    for zx, gi, zy, i, j in want:
        if not same(ctx, zx, gi):
            continue
        d = zy - rho * gi
        if same(ctx, d * d, (1 - rho * rho) * g[j] * g[j]):
            ok = True
            break
    ctx.check(ok, 'correlated')


def same(ctx, x, y):
    if ctx.symbolic:
        c = x == y
        return c if isinstance(c, bool) else ctx.entailed(bterm(c))
    return bool(abs(x - y) <= 1e-6 * (1 + abs(y)))


@harness('2 empirical demands with 3 observations next to a random one; raw order '
         'preserved or not; sample sizes 1-4; empirical data from memory or file',
         [{'keep': k, 'n': n} for k, n in (
             (True, 2), (True, 4), (False, 1), (False, 2))],
         must_reach=('observation',))
def empirical(ctx, keep, n):
    a, fac = assessment(ctx, fixed=True)
    rng = Rng(ctx)
    a.options._rng = rng
    obs = [[ctx.real(f'o{i}_{j}', 0.1, 10) for j in range(2)] for i in range(3)]
    # observations can be told apart
    for j in range(2):
        for x in range(3):
            for y in range(x):
                ctx.assume((obs[x][j] > obs[y][j] + 0.01)
                           | (obs[x][j] < obs[y][j] - 0.01))
    emp = [('PFA', '1', '1'), ('PID', '1', '1')]
    rows = {emp[0]: ('empirical', *[np.nan] * 4),
            ('PFV', '1', '1'): ('uniform', 2.0, 6.0, np.nan, np.nan),
            emp[1]: ('empirical', *[np.nan] * 4)}
    co = ctx.choice('columns', [[0, 1], [1, 0]])
    data = pd.DataFrame([['ua', 'ur']] + [list(r) for r in obs], dtype=object,
                        index=['Units', 0, 1, 2], columns=['-'.join(e) for e in emp])
    data = data.iloc[:, co]
    stale = ctx.flag('model loaded before')
    if stale:
        a.demand.empirical_data = pd.DataFrame({e: [7.0] for e in emp})
    quiet(a.demand.load_model, {'marginals': marginals(ctx, rows, True),
                                'empirical': data})
    quiet(a.demand.generate_sample, {'SampleSize': n, 'PreserveRawOrder': keep})
    out = a.demand.sample
    ctx.check({tuple(c) for c in out.columns} == set(rows), 'layout')
    for j, e in enumerate(emp):
        k = by_type(fac, e)
        for i in range(n):
            v = out[e].iloc[i] / k
            if keep:
                ctx.eq(v, obs[i % 3][j], 'observation')
                continue
            # one of the observations; which one is settled by its draw (C02)
            hit = [x for x in range(3) if same(ctx, v, obs[x][j])]
            ctx.check(len(hit) == 1, 'observation')


@harness('models of 3 demands (any mix of families, possibly empirical), symbolic '
         'parameters, limits, correlations, data and unit factors; stored in files '
         'and loaded by a fresh or a used model',
         [{'emp': e, 'used': u} for e in ('none', 'one', 'all')
          for u in (False, True)],
         must_reach=('parameters', 'units'))
def stored(ctx, emp, used):
    a, fac = assessment(ctx)
    b, _ = assessment_like(ctx, a)
    kinds = {'none': ('lognormal', 'normal', 'uniform'),
             'one': ('normal', 'empirical', 'normal_std'),
             'all': ('empirical',) * 3}[emp]
    rows, base = {}, {}
    for i, (e, fam) in enumerate(zip(EDPS, kinds)):
        if fam == 'empirical':
            rows[e] = (fam, *[np.nan] * 4)
            continue
        rows[e] = (fam, ctx.real(f't{i}', 1, 5), ctx.real(f's{i}', 0.1, 0.9),
                   ctx.real(f'lo{i}', 0.1, 0.5) if i == 0 else np.nan,
                   ctx.real(f'hi{i}', 9, 10) if i != 1 else np.nan)
    m = a.demand
    mi = pd.MultiIndex.from_tuples(list(rows), names=N3)
    m.user_units = pd.Series([UNITS[e[0]] for e in rows], index=mi, name='Units')
    data = []
    for e, r in rows.items():
        k = by_type(fac, e)
        sc = k if r[0] in ('uniform', 'normal_std') else 1.0
        data.append([r[0], r[1] * k, r[2] * sc, r[3] * k, r[4] * k]
                    if r[0] != 'empirical' else list(r))
        base[e] = data[-1]
    m.marginal_params = pd.DataFrame(
        data, index=mi, columns=['Family', 'Theta_0', 'Theta_1', 'TruncateLower',
                                 'TruncateUpper'],
        dtype=object)
    if not ctx.symbolic:
        m.marginal_params = m.marginal_params.infer_objects()
    cont = [e for e in rows if rows[e][0] != 'empirical']
    rho = ctx.real('rho', -0.9, 0.9)
    cm = [[1.0 if x == y else rho for y in cont] for x in cont]
    ci = pd.MultiIndex.from_tuples(cont, names=N3) if cont else pd.MultiIndex.from_arrays(
        [[]] * 3, names=N3)
    m.correlation = frame(ctx, cm, index=ci, columns=ci) if cont else pd.DataFrame(
        index=ci, columns=ci, dtype=float)
    em = [e for e in rows if rows[e][0] == 'empirical']
    obs = {e: [ctx.real(f'o{"".join(e)}{i}', 0.1, 10) for i in range(2)] for e in em}
    if em:
        m.empirical_data = frame(
            ctx, [[obs[e][i] for e in em] for i in range(2)],
            columns=pd.MultiIndex.from_tuples(em, names=N3))
    before = m.marginal_params.copy()
    if used:
        b.demand.empirical_data = pd.DataFrame({EDPS[0]: [7.0]})
        b.demand.correlation = pd.DataFrame([[1.0]], index=mi[:1], columns=mi[:1])
    with tempfile.TemporaryDirectory() as d:
        quiet(m.save_model, str(Path(d, 'm')))
        ctx.check(list(before.columns) == list(m.marginal_params.columns), 'kept')
        for e in rows:
            for c, x in before.loc[e].items():
                y = m.marginal_params.loc[e, c]
                ctx.check(pd.isna(y) if is_nan(x) else True, 'kept')
                if not is_nan(x) and c != 'Family':
                    ctx.eq(y, x, 'kept')
        quiet(b.demand.load_model, str(Path(d, 'm')))
    g = b.demand
    ctx.check({tuple(x) for x in g.marginal_params.index} == set(rows), 'parameters')
    for e in rows:
        r = g.marginal_params.loc[e]
        ctx.check(r['Family'] == base[e][0], 'parameters')
        for c, x in zip(('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'),
                        base[e][1:]):
            if is_nan(x):
                ctx.check(c not in r or pd.isna(r[c]), 'parameters')
            else:
                ctx.eq(r[c], x, 'parameters')
        ctx.check(g.user_units[e] == UNITS[e[0]], 'units')
    if em:
        ctx.check({tuple(x) for x in g.empirical_data.columns} == set(em), 'data')
        for e in em:
            for i in range(2):
                ctx.eq(g.empirical_data[e].iloc[i], obs[e][i], 'data')
    else:
        ctx.check(g.empirical_data is None, 'data')
    if cont:
        for x in cont:
            for y in cont:
                ctx.eq(g.correlation.loc[x, y], 1.0 if x == y else rho,
                       'correlation')
        ctx.check(g.correlation.shape == (len(cont),) * 2, 'correlation')
    else:
        ctx.check(g.correlation is None or g.correlation.empty, 'correlation')


def is_nan(x):
    return isinstance(x, float) and x != x


def assessment_like(ctx, a):
    b = make_assessment(ctx, {'Sampling': {'SamplingMethod': 'MonteCarlo'}})
    b.unit_conversion_factors = a.unit_conversion_factors
    return b, None


COLS = [('PFA', '0', '1'), ('PFA', '1', '1'), ('PFV', '1', '1'), ('PID', '1', '1')]
CLONES = [
    {'PFA-0-1': ['PFA-0-1', 'PFA-0-2']},
    {'PFA-1-1': ['PFA-1-2'], 'PID-1-1': ['PID-1-1', 'PID-1-2', 'PID-2-2']},
    {'PID-1-1': ['PID-9-9'], 'PGA-0-1': ['PGA-0-2']},
    {'PFV-1-1': [], 'PID-1-1': ['SA_1.1-0-1']},
]


@harness('4 demand columns, 4 cloning requests (copies, renames, absent sources, '
         'removal); units listed in another order, for more columns, or missing '
         'for one column', [{'c': c, 'u': u} for c in range(len(CLONES))
                            for u in ('same', 'reversed', 'more', 'missing')],
         must_reach=('copy', 'unit'))
def cloning(ctx, c, u):
    a, fac = assessment(ctx)
    v = [ctx.real(f'v{j}', -5, 5) for j in range(4)]
    a.demand.sample = frame(ctx, [v, [1.0] * 4],
                            columns=pd.MultiIndex.from_tuples(COLS, names=N3))
    un = {e: UNITS[e[0]] for e in COLS}
    if u == 'reversed':
        un = dict(reversed(un.items()))
    elif u == 'more':
        un = {('ERROR', '0', '1'): 'uv', **un}
    elif u == 'missing':
        del un['PFA', '1', '1']
    a.demand.user_units = pd.Series(
        list(un.values()), name='Units', dtype=object,
        index=pd.MultiIndex.from_tuples(list(un), names=N3))
    req = CLONES[c]
    before = {k: list(x) for k, x in req.items()}
    quiet(a.demand.clone_demands, req)
    ctx.check(req == before, 'request untouched')
    want = []
    for j, e in enumerate(COLS):
        for t in before.get('-'.join(e), ['-'.join(e)]):
            want.append((tuple(t.split('-')), v[j], e))
    out = a.demand.sample
    ctx.check(sorted(tuple(x) for x in out.columns) == sorted(w[0] for w in want)
              and list(out.columns.names) == N3 and len(out) == 2, 'copy')
    for t, x, e in want:
        ctx.eq(out[t].iloc[0], x, 'copy')
        ctx.eq(out[t].iloc[1], 1.0, 'copy')
        if e in un:
            ctx.check(a.demand.user_units[t] == un[e], 'unit')
        else:
            ctx.check(t not in a.demand.user_units.index
                      or pd.isna(a.demand.user_units[t]), 'unit')
    if u != 'missing':
        res = quiet(a.demand.save_sample)
        for t, x, e in want:
            ctx.eq(res[t].iloc[0] * by_type(fac, e), x, 'unit')


ROUNDS = [None, {'PFA-1-1': ['PFA-1-1', 'PFA-1-2']},
          {'PFA-1-1': ['PFA-1-3'], 'PID-1-1': ['PID-1-1', 'SA_1.1-0-1']},
          {'PID-1-1': ['PID-2-1']}]


@harness('a model of 2 demands with symbolic values and unit factors, sampled '
         'twice with any two of 4 cloning requests (or none); the raw table had an '
         'ERROR column or not; samples and the model stored afterwards',
         [{'one': i, 'two': j, 'raw': (i + j) % 2 == 0} for i in range(4)
          for j in range(4)], must_reach=('value', 'model'))
def again(ctx, one, two, raw):
    a, fac = assessment(ctx)
    b, _ = assessment_like(ctx, a)
    edps = [('PFA', '1', '1'), ('PID', '1', '1')]
    m = a.demand
    mi = pd.MultiIndex.from_tuples(edps, names=N3)
    un = pd.Series([UNITS[e[0]] for e in edps], index=mi, name='Units')
    if raw:
        un.loc['ERROR', '0', '1'] = 'uv'
    m.user_units = un
    t = [ctx.real(f't{i}', 1, 5) for i in range(2)]
    m.marginal_params = pd.DataFrame(
        [['deterministic', t[i] * by_type(fac, e), np.nan, np.nan, np.nan]
         for i, e in enumerate(edps)], index=mi, dtype=object,
        columns=['Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'])
    if not ctx.symbolic:
        m.marginal_params = m.marginal_params.infer_objects()
    for r in (one, two):
        req = {} if ROUNDS[r] is None else {'DemandCloning': {
            k: list(x) for k, x in ROUNDS[r].items()}}
        quiet(m.generate_sample, {'SampleSize': 2, **req})
        want = {tuple(c.split('-')): i for i, e in enumerate(edps)
                for c in (ROUNDS[r] or {}).get('-'.join(e), ['-'.join(e)])}
        out, units = quiet(m.save_sample, save_units=True)
        ctx.check({tuple(c) for c in out.columns} == set(want), 'columns')
        for c, i in want.items():
            ctx.check(units[c] == UNITS[edps[i][0]], 'unit')
            for k in range(2):
                ctx.eq(m.sample[c].iloc[k], t[i] * by_type(fac, edps[i]), 'value')
                ctx.eq(out[c].iloc[k], t[i], 'value')
    with tempfile.TemporaryDirectory() as d:
        m.correlation = pd.DataFrame(np.eye(2), index=mi, columns=mi)
        quiet(m.save_model, str(Path(d, 'm')))
        quiet(b.demand.load_model, str(Path(d, 'm')))
    g = b.demand
    ctx.check({tuple(x) for x in g.marginal_params.index} == set(edps), 'model')
    for i, e in enumerate(edps):
        ctx.eq(g.marginal_params.loc[e, 'Theta_0'], t[i] * by_type(fac, e), 'model')
        ctx.check(g.user_units[e] == UNITS[e[0]], 'model')


@harness('cloning requests that name a copy twice', must_reach=('refused',))
def bad_cloning(ctx):
    a, _ = assessment(ctx)
    a.demand.sample = frame(ctx, [[1.0] * 4], columns=pd.MultiIndex.from_tuples(
        COLS, names=N3))
    a.demand.user_units = pd.Series(['ua'] * 4, index=a.demand.sample.columns)
    for req in ({'PFA-0-1': ['PFA-0-1', 'PFA-0-1']},
                {'PFA-0-1': ['X-1-1'], 'PFA-1-1': ['X-1-1']}):
        try:
            quiet(a.demand.clone_demands, req)
        except ValueError:
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', str(req))


class NormalRng(Rng):
    """Also hands out normal deviations."""

    def normal(self, loc=0.0, scale=1.0, size=None, **k):
        nm = self._next('normal')
        self.calls.append(('normal', scale))
        shape = tuple(np.atleast_1d(size).tolist())
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            t = nm + '_'.join(map(str, i))
            z = self._memo(t, lambda t=t: self.ctx.real(t, -4, 4))
            out[i] = loc + z * scale
        return out if self.ctx.symbolic else out.astype(float)


@harness('residual drifts of 2 stories x 2 realizations from symbolic drifts, yield '
         'drift and deviations; with other demands in other units in the sample',
         [{'whole': w} for w in (False, True)],
         must_reach=('residual drift',))
def residual(ctx, whole):
    # the yield drift is a ratio, like residual drifts, in whatever unit drifts are
    a = make_assessment(ctx, units={'ua': ctx.real('fa', 0.01, 100),
                                    'ur': ctx.choice('unit', [1.0, 0.01])})
    rng = NormalRng(ctx)
    a.options._rng = rng
    cols = [('1', '1'), ('2', '1')]
    n = 1 if whole else 2
    cols = cols if whole else cols[:1]
    pid = [[ctx.real(f'd{i}{j}', 0.0001, 0.2) for j in range(len(cols))]
           for i in range(n)]
    y = ctx.real('yield', 0.001, 0.05)
    if whole:
        acc = ctx.real('acc', 0, 10)
        full = [('PFA', '1', '1'), *[('PID', *c) for c in cols]]
        a.demand.sample = frame(ctx, [[acc, *pid[0]]],
                                columns=pd.MultiIndex.from_tuples(full, names=N3))
        # as after realizations with errors were removed
        a.demand.sample.index = [ctx.choice('row', [0, 3])]
        a.demand.user_units = pd.Series(
            ['ua', 'ur', 'ur'], name='Units', index=a.demand.sample.columns)
        quiet(a.demand.estimate_RID_and_adjust_sample, {'yield_drift': y})
        out = a.demand.sample
        ctx.check({tuple(c) for c in out.columns}
                  == {*full, *[('RID', *c) for c in cols]}
                  and list(out.columns.names) == N3 and len(out) == 1, 'layout')
        ctx.eq(out['PFA', '1', '1'].iloc[0], acc, 'other demands')
        for j, c in enumerate(cols):
            ctx.eq(out[('PID', *c)].iloc[0], pid[0][j], 'other demands')
    else:
        d = frame(ctx, pid, columns=pd.MultiIndex.from_tuples(cols, names=N3[1:]))
        out = quiet(a.demand.estimate_RID, d, {'yield_drift': y})
        ctx.check([tuple(c) for c in out.columns] == [('RID', *c) for c in cols],
                  'layout')
        for j in range(len(cols)):
            for i in range(n):
                ctx.eq(d.iloc[i, j], pid[i][j], 'other demands')
    ctx.check(rng.calls == [('normal', 0.2)], 'deviation')
    z = list(rng.memo.values())
    k = 0
    for i in range(n):
        for j, c in enumerate(cols):
            p = pid[i][j]
            r = out[('RID', *c)].iloc[i]
            e = 0.2 * z[k]
            k += 1
            if bool(p < y):
                ctx.eq(r, 0.0, 'residual drift')
                continue
            m = 0.3 * (p - y) if bool(p < 4 * y) else p - 3 * y
            if not bool(m > 0):
                ctx.eq(r, 0.0, 'residual drift')
                continue
            w = exp(log(m) + e) if ctx.symbolic else m * np.exp(e)
            ctx.eq(r, w if bool(w < p) else p, 'residual drift')
            ctx.check((r >= 0) & (r <= p + 1e-12), 'within the peak drift')


@harness('a new demand for all realizations, a number or one value per realization, '
         'in any unit; 2 realizations', [{'vec': v} for v in (False, True)],
         must_reach=('new demand', 'other demands', 'refused'))
def expansion(ctx, vec):
    a, fac = assessment(ctx)
    v = [[ctx.real(f'v{i}{j}', -5, 5) for j in range(2)] for i in range(2)]
    cols = [('PFA', '1', '1'), ('PID', '1', '1')]
    a.demand.sample = frame(ctx, v, columns=pd.MultiIndex.from_tuples(
        cols, names=N3))
    a.demand.user_units = pd.Series(['ua', 'ur'], name='Units',
                                    index=a.demand.sample.columns)
    new = [ctx.real(f'n{i}', -5, 5) for i in range(2)] if vec else [
        ctx.real('n', -5, 5)] * 2
    unit = ctx.choice('unit', ['ua', 'uv'])
    val = arr(ctx, new) if vec else new[0]
    kw = ctx.choice('place', [{}, {'location': '2', 'direction': '2'}])
    quiet(a.demand.expand_sample, 'NEW', val, unit, **kw)
    at = ('NEW', kw.get('location', '0'), kw.get('direction', '1'))
    out = a.demand.sample
    ctx.check({tuple(c) for c in out.columns} == {*cols, at}
              and list(out.columns.names) == N3 and len(out) == 2, 'layout')
    for i in range(2):
        ctx.eq(out[at].iloc[i], new[i] * fac[unit], 'new demand')
        for j, c in enumerate(cols):
            ctx.eq(out[c].iloc[i], v[i][j], 'other demands')
    un = a.demand.user_units
    ctx.check({tuple(k): x for k, x in un.items()} == {
        cols[0]: 'ua', cols[1]: 'ur', at: unit}, 'unit')
    for bad in ((np.ones(3), 'ua'), (1.0, 'no such unit')):
        try:
            quiet(a.demand.expand_sample, 'B', *bad)
        except (ValueError, KeyError):
            ctx.reach('refused')
        else:
            ctx.check(bad[1] != 'ua', 'refused')
            return
