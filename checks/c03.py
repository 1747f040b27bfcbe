"""C03  Sampling design: strata, shared draws, and correlation of variable sets."""

import itertools

import numpy as np
import scipy.stats as st

from engine.dists import Rng, patch_uq
from engine.funcs import NORM
from engine.harness import assume_note, harness
from engine.shim import obj_array
from engine.sym import has_sym, ite, sor

assume_note(
    'the random generator is a stub: random() returns arbitrary pairwise '
    'distinct numbers in (0,1), permutation(n) an arbitrary permutation',
    'norm.cdf/ppf: uninterpreted strictly increasing bijection; Cholesky '
    'factors of symbolic matrices are computed by the textbook recursion',
)


def arr(ctx, values):
    return obj_array(values) if ctx.symbolic else np.array(values, dtype=float)


class SymRng(Rng):
    """Permutations stay symbolic; uniforms are pairwise distinct."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.draws = []

    def random(self, size=None, **k):
        out = super().random(size)
        for v in np.atleast_1d(out).ravel():
            for w in self.draws:
                d = v - w
                self.ctx.assume(
                    (d > 1e-6) | (d < -1e-6) if self.ctx.symbolic
                    else abs(d) > 1e-6)
            self.draws.append(v)
        return out

    def permutation(self, n):
        if not self.ctx.symbolic or not isinstance(n, (int, np.integer)):
            return super().permutation(n)
        nm = self._next('perm')
        out = []
        for i in range(int(n)):
            v = self.ctx.int(f'{nm}[{i}]', 0, int(n) - 1)
            for w in out:
                self.ctx.assume(v != w)
            out.append(v)
        return obj_array(out)


@harness('2 independent variables + 1 anchored, 1-3 samples (4 in thorough)',
         [{'n': n, 'method': m} for n in (1, 2, 3)
          for m in ('LHS', 'LHS_midpoint', 'MonteCarlo')],
         thorough=[{'n': 4, 'method': m} for m in ('LHS', 'LHS_midpoint')],
         must_reach=('in (0,1)', 'anchored'))
def design(ctx, n, method):
    uq = patch_uq(ctx)
    reg = uq.RandomVariableRegistry(SymRng(ctx))
    U = uq.rv_class_map('uniform')
    unit = [0.0, 1.0]
    a = U('A', theta=arr(ctx, unit))
    b = U('B', theta=arr(ctx, unit))
    w = ctx.real('w', 0.5, 5)
    c = U('C', theta=arr(ctx, [0.0, w]), anchor=b)
    det = uq.rv_class_map('deterministic')('D', theta=arr(ctx, [w]))
    order = ctx.choice('order', [[a, b, c, det], [c, det, b, a], [b, det, c, a]])
    if order[0] is b:
        # values of its own do not count for an anchored variable
        c.uni_sample = arr(ctx, [0.25] * n)
    for rv in order:
        reg.add_RV(rv)
    reg.generate_sample(n, method)
    s = reg.RV_sample
    ctx.check(set(s) == {'A', 'B', 'C', 'D'}, 'all variables sampled')
    allu = []
    for name in 'AB':
        u = s[name]
        ctx.check(len(u) == n, 'size')
        for v in u:
            ctx.check((v > 0) & (v < 1) if ctx.symbolic else 0 < v < 1,
                      'in (0,1)')
        allu += list(u)
        if method.startswith('LHS'):
            for k in range(n):
                hits = 0
                for v in u:
                    if ctx.symbolic:
                        hits = hits + ite(
                            (v * n >= k) & (v * n < k + 1), 1, 0)
                    else:
                        hits += k <= v * n < k + 1
                ctx.eq(hits, 1, 'one draw per stratum')
        if method == 'LHS_midpoint':
            for v in u:
                ok = [(v * n - (k + 0.5)) for k in range(n)]
                if ctx.symbolic:
                    ctx.check(sor(*[d == 0 for d in ok]), 'stratum midpoint')
                else:
                    ctx.check(min(map(abs, ok)) < 1e-9, 'stratum midpoint')
    if method != 'LHS_midpoint':
        for i in range(len(allu)):
            for j in range(i):
                ctx.check(allu[i] != allu[j], 'every value has its own draw')
    for i in range(n):
        ctx.eq(s['C'][i], s['B'][i] * w, 'anchored')
        ctx.eq(s['D'][i], w, 'deterministic')


@harness('2 independent variables of any order in the registry, 2-3 samples: '
         'either may be in any stratum whatever the stratum of the other',
         [{'n': n, 'method': m} for n in (2, 3)
          for m in ('LHS', 'LHS_midpoint', 'MonteCarlo')],
         must_reach=('A low, B low', 'A low, B high', 'A high, B low',
                     'A high, B high'))
def independent(ctx, n, method):
    uq = patch_uq(ctx)
    reg = uq.RandomVariableRegistry(SymRng(ctx))
    U = uq.rv_class_map('uniform')
    for name in 'AB':
        reg.add_RV(U(name, theta=arr(ctx, [0.0, 1.0])))
    reg.generate_sample(n, method)
    s = reg.RV_sample
    k = int(ctx.int('sample', 0, n - 1))
    where = [name + (' low' if bool(s[name][k] * n < 1) else ' high')
             for name in 'AB']
    ctx.reach(', '.join(where))
    ctx.check(len(s['A']) == len(s['B']) == n, 'size')


@harness('sampled twice, with another sample size the second time; two '
         'independent, an anchored and a fixed variable',
         [{'method': m, 'n': n} for m in ('LHS', 'LHS_midpoint', 'MonteCarlo')
          for n in ((1, 2), (2, 1))],
         must_reach=('new draws', 'anchored'))
def again(ctx, method, n):
    uq = patch_uq(ctx)
    reg = uq.RandomVariableRegistry(SymRng(ctx))
    U = uq.rv_class_map('uniform')
    w = ctx.real('w', 0.5, 5)
    rv = {name: U(name, theta=arr(ctx, [0.0, 1.0])) for name in 'AB'}
    rv['C'] = U('C', theta=arr(ctx, [0.0, w]), anchor=rv['A'])
    rv['D'] = uq.rv_class_map('deterministic')('D', theta=arr(ctx, [w]))
    for v in rv.values():
        reg.add_RV(v)
    seen = []
    for size in n:
        reg.generate_sample(size, method)
        s = reg.RV_sample
        for name in 'AB':
            ctx.check(len(s[name]) == size, 'size')
            if method == 'LHS_midpoint':
                continue
            # the draws: the place within the stratum
            m = size if method == 'LHS' else 1
            for v in s[name]:
                for u in seen:
                    for k in range(-2, 3) if method == 'LHS' else (0,):
                        ctx.check(v * m - u != k, 'new draws')
            seen += [v * m for v in s[name]]
        if method == 'LHS_midpoint':
            # the only sample, or one of each half
            ctx.eq(sum(s['A']), size / 2, 'new draws')
            ctx.eq(sum(s['B']), size / 2, 'new draws')
        ctx.check(len(s['C']) == len(s['D']) == size, 'size')
        for i in range(size):
            ctx.eq(s['C'][i], s['A'][i] * w, 'anchored')
            ctx.eq(s['D'][i], w, 'deterministic')


@harness('names must be unique in a registry', must_reach=('duplicate rejected',))
def duplicate(ctx):
    uq = patch_uq(ctx)
    reg = uq.RandomVariableRegistry(SymRng(ctx))
    U = uq.rv_class_map('uniform')
    t = ctx.real('t', 1, 2)
    reg.add_RV(U('A', theta=arr(ctx, [0.0, t])))
    try:
        other = U('B', theta=arr(ctx, [0.0, 2.0])) if ctx.flag('anchored') else None
        reg.add_RV(U('A', theta=arr(ctx, [0.0, 2.0]), anchor=other))
    except ValueError:
        ctx.check(bool(reg.RV['A'].theta[1] == t), 'duplicate rejected')
    else:
        ctx.fail('duplicate rejected')


class UnitRng:
    """Uniform draws whose normal scores are the unit vectors."""

    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d

    def random(self, size):
        assert list(size) == [self.d, self.d]
        if not self.ctx.symbolic:
            return st.norm.cdf(np.eye(self.d))
        one, zero = NORM.cdf(1.0), NORM.cdf(0.0)
        return obj_array(
            [one if i == j else zero for i in range(self.d)
             for j in range(self.d)], (self.d, self.d))


def _corr_check(ctx, uq, rho, names, fam, times=1):
    d = len(names)
    reg = uq.RandomVariableRegistry(UnitRng(ctx, d))
    mu = [ctx.real(f'mu{i}', 1, 5) for i in range(d)]
    sd = [ctx.real(f'sd{i}', 0.5, 2) for i in range(d)]
    cls = uq.rv_class_map(fam)
    rvs = [cls(n, theta=arr(ctx, [m, s])) for n, m, s in zip(names, mu, sd)]
    for rv in rvs:
        reg.add_RV(rv)
    m = np.array(rho, dtype=object if has_sym(rho) else float)
    reg.add_RV_set(uq.RandomVariableSet('S', rvs, m))
    for _ in range(times):
        reg.generate_sample(d, 'MonteCarlo')
    z = {}
    for n, mm, ss in zip(names, mu, sd):
        x = reg.RV_sample[n]
        if fam == 'lognormal':
            if ctx.symbolic:
                from engine.funcs import log

                z[n] = [(log(v) - log(mm)) / ss for v in x]
            else:
                z[n] = [np.log(v / mm) / ss for v in x]
        else:
            z[n] = [(v - mm) / ss for v in x]
    for i, j in itertools.product(range(d), repeat=2):
        dot = 0
        for k in range(d):
            dot = dot + z[names[i]][k] * z[names[j]][k]
        ctx.eq(dot, rho[i][j], f'correlation[{i}{j}]')


@harness('2 variables, symbolic correlation in (-0.99, 0.99), both name orders',
         [{'names': n, 'fam': f} for n in (('A', 'B'), ('B', 'A'))
          for f in ('normal_std', 'lognormal')], must_reach=('correlation',))
def correlation2(ctx, names, fam):
    uq = patch_uq(ctx)
    r = ctx.real('r', -0.99, 0.99)
    _corr_check(ctx, uq, [[1.0, r], [r, 1.0]], names, fam)


@harness('2 correlated variables sampled twice', must_reach=('correlation',))
def correlation_again(ctx):
    uq = patch_uq(ctx)
    r = ctx.real('r', -0.99, 0.99)
    _corr_check(ctx, uq, [[1.0, r], [r, 1.0]], ('B', 'A'), 'normal_std', 2)


@harness('3 variables in every name order; one correlation symbolic in '
         '(-0.49, 0.49), the others concrete (thorough: all three symbolic)',
         [{'names': n, 'which': w} for n in itertools.permutations('ABC')
          for w in (0, 1, 2)],
         thorough=[{'names': n, 'which': None}
                   for n in itertools.permutations('ABC')],
         must_reach=('correlation',))
def correlation3(ctx, names, which):
    uq = patch_uq(ctx)
    conc = {0: 0.3125, 1: -0.25, 2: 0.4375}
    r01, r02, r12 = (
        ctx.real(f'r{k}', -0.49, 0.49) if which in (k, None) else conc[k]
        for k in range(3))
    _corr_check(ctx, uq, [[1.0, r01, r02], [r01, 1.0, r12], [r02, r12, 1.0]],
                names, 'normal_std')


@harness('2 variables, perfectly (anti)correlated: singular matrix',
         [{'r': r} for r in (1.0, -1.0)], must_reach=('correlation',))
def correlation_singular(ctx, r):
    uq = patch_uq(ctx)
    _corr_check(ctx, uq, [[1.0, r], [r, 1.0]], ('B', 'A'), 'normal_std')


@harness('3 variables with a singular correlation matrix (listed in the code) '
         'in every name order',
         [{'rho': r, 'names': n} for r in (
             ((1, 1, 0), (1, 1, 0), (0, 0, 1)),
             ((1, .5, 1), (.5, 1, .5), (1, .5, 1)),
             ((1, -1, .6), (-1, 1, -.6), (.6, -.6, 1)),
             ((1, .6, .8), (.6, 1, 0), (.8, 0, 1)))
          for n in itertools.permutations('ABC')], must_reach=('correlation',))
def correlation3_singular(ctx, rho, names):
    uq = patch_uq(ctx)
    _corr_check(ctx, uq, [[float(v) for v in row] for row in rho], names,
                'normal_std')


@harness('correlation matrix of any ordered subset of 3 variables',
         [{'names': n} for n in itertools.permutations('ABC')],
         must_reach=('subset',))
def rho_subset(ctx, names):
    uq = patch_uq(ctx)
    cls = uq.rv_class_map('normal_std')
    rvs = [cls(n, theta=np.array([0.0, 1.0])) for n in names]
    r = {frozenset(p): ctx.real('r' + ''.join(p), -1, 1)
         for p in itertools.combinations('ABC', 2)}
    rho = [[1.0 if a == b else r[frozenset((a, b))] for b in names]
           for a in names]
    s = uq.RandomVariableSet(
        'S', rvs, np.array(rho, dtype=object if ctx.symbolic else float))
    subs = [p for k in (1, 2, 3) for p in itertools.permutations('ABC', k)]
    sub = subs[int(ctx.int('subset', 0, len(subs) - 1))]
    got = s.Rho(list(sub))
    for i, a in enumerate(sub):
        for j, b in enumerate(sub):
            ctx.eq(got[i, j], 1.0 if a == b else r[frozenset((a, b))], 'subset')
