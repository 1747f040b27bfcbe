"""
Transcendental functions as uninterpreted functions with axioms.

Only facts that hold for the real functions are added (soundness of a proof
needs nothing else); rewriting keeps terms in a canonical form so that
identities such as exp(log m + b z) = m exp(b z) are decided syntactically.
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

from . import sym as S
from .sym import Sym, const_value, is_inf, is_nan, is_num, mk, real_term

R = z3.RealSort()
EXP = z3.Function('exp', R, R)
LOG = z3.Function('log', R, R)
SQRT = z3.Function('sqrt', R, R)


def _real(x):
    return z3.simplify(real_term(x))


def _app(f, t):
    return z3.is_app(t) and t.decl().eq(f)


def apply_uf(f, t, kind):
    """Create f(t) and register the axioms of `kind` for it."""
    app = f(t)
    S.CUR.register_uf(f, t, app, kind)
    return app


def _addends(t):
    t = z3.simplify(t, som=True)
    return list(t.children()) if z3.is_add(t) else [t]


def _mulfactors(t):
    return list(t.children()) if z3.is_mul(t) else [t]


def exp(x):
    if not isinstance(x, Sym):
        return np.exp(x)
    rest, factors = [], []
    for a in _addends(real_term(x)):
        if _app(LOG, a):
            factors.append(a.arg(0))
        else:
            rest.append(a)
    out = None
    if rest:
        r = z3.simplify(z3.Sum(rest)) if len(rest) > 1 else rest[0]
        c = const_value(r)
        if c == 0:
            out = None
        else:
            out = apply_uf(EXP, r, 'exp')
    for f in factors:
        out = f if out is None else out * f
    return mk(out if out is not None else z3.RealVal(1))


def log(x):
    if not isinstance(x, Sym):
        return np.log(x)
    t = _real(x)
    # the real np.log gives -inf at zero and NaN below
    if not S.CUR.entailed(t > 0):
        if bool(S.mkb(t == 0)):
            return -math.inf
        if bool(S.mkb(t < 0)):
            return float('nan')
    out, rest = None, []
    t = z3.simplify(t, som=True)
    for a in _mulfactors(t):
        if _app(EXP, a):
            out = a.arg(0) if out is None else out + a.arg(0)
        else:
            rest.append(a)
    pos = len(rest) <= 1 or all(
        S.CUR.entailed(a > 0) for a in rest
    )
    if rest:
        if pos:
            terms = [_log_atom(a) for a in rest]
        else:
            p = rest[0]
            for a in rest[1:]:
                p = p * a
            terms = [_log_atom(p)]
        for q in terms:
            out = q if out is None else out + q
    out = z3.simplify(out)
    if not _app(LOG, out) and const_value(out) is None:
        # keep the link to monotonicity: log(t) itself equals the sum
        app = apply_uf(LOG, t, 'log')
        S.CUR.add(app == out)
    return mk(out)


def _log_atom(a):
    c = const_value(a)
    if c == 1:
        return z3.RealVal(0)
    return apply_uf(LOG, a, 'log')


def sqrt(x):
    if not isinstance(x, Sym):
        return np.sqrt(x)
    t = _real(x)
    if not S.CUR.entailed(t >= 0) and bool(S.mkb(t < 0)):
        return float('nan')
    r = _square_root(z3.simplify(t, som=True))
    if r is not None:
        for v in (r, -r):
            if S.CUR.entailed(v >= 0):
                return mk(v)
    return mk(apply_uf(SQRT, t, 'sqrt'))


def _factors(t):
    """Constant and atoms (with powers expanded) of a monomial."""
    c, atoms = Fraction(1), []
    for a in _mulfactors(t):
        v = const_value(a)
        if v is not None:
            c *= Fraction(v)
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_POWER:
            k = const_value(a.arg(1))
            if k is None or int(k) != k or k < 1:
                atoms.append(a)
            else:
                atoms += [a.arg(0)] * int(k)
        else:
            atoms.append(a)
    return c, atoms


def _square_root(t):
    """A monomial whose square is t, up to its sign."""
    if z3.is_add(t):
        return None
    c, atoms = _factors(t)
    if c <= 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    out = z3.Q(n, d)
    atoms.sort(key=lambda a: a.get_id())
    for a, b in zip(atoms[::2], atoms[1::2]):
        if not a.eq(b):
            return None
        out = out * a
    return None if len(atoms) % 2 else z3.simplify(out)


def ratio(x, s):
    """x / s, for s that is known not to be zero, cancelled if possible."""
    if isinstance(x, Sym) and isinstance(s, Sym):
        c, den = _factors(z3.simplify(real_term(s), som=True))
        if len(den) == 1 and not z3.is_add(den[0]):
            out = []
            for a in _addends(real_term(x)):
                k, num = _factors(a)
                hit = [i for i, f in enumerate(num) if f.eq(den[0])]
                if not hit and k != 0:
                    break
                if k == 0:
                    continue
                del num[hit[0]]
                k /= c
                q = z3.Q(k.numerator, k.denominator)
                for f in num:
                    q = q * f
                out.append(q)
            else:
                return mk(z3.simplify(z3.Sum(out)) if out else z3.RealVal(0))
        return mk(S._div(real_term(x), real_term(s)))
    return x / s


def power(a, b):
    if is_num(b) and not is_nan(b) and not is_inf(b):
        f = Fraction(str(b)) if isinstance(b, float) else Fraction(int(b))
        if f.denominator == 1:
            n = int(f)
            if n == 0:
                return 1
            out = a
            for _ in range(abs(n) - 1):
                out = out * a
            return out if n > 0 else 1.0 / out
        if f == Fraction(1, 2):
            return sqrt(a)
        return exp(b * log(a))
    if is_num(a) and a > 0:
        return exp(b * float(np.log(a))) if a != 1 else 1.0
    if isinstance(a, Sym) and isinstance(b, Sym):
        if b.t.is_int():
            return power(a, int(b))
        return exp(b * log(a))
    return NotImplemented


# --- one-argument distribution kernels ---------------------------------------


def _big_constant(t):
    todo, n = [t], 0
    while todo and n < 200:
        x, n = todo.pop(), n + 1
        c = const_value(x)
        if c is not None:
            if abs(c) > 300:
                return True
        else:
            todo.extend(x.children())
    return False


class Kernel:
    """A standard continuous distribution on the real line: cdf and ppf."""

    def __init__(self, name, support=None):
        self.name = name
        self.cdf_f = z3.Function(name + '_cdf', R, R)
        self.ppf_f = z3.Function(name + '_ppf', R, R)
        self.support = support

    def cdf(self, x):
        if is_num(x):
            if is_nan(x):
                return float('nan')
            if is_inf(x):
                return 1.0 if x > 0 else 0.0
        t = _real(x)
        if self.support == 'positive':
            if not S.CUR.entailed(t > 0) and bool(S.mkb(t <= 0)):
                return 0.0
        if _app(self.ppf_f, t):
            return mk(t.arg(0))
        # far in the lower tail the value underflows to zero (norm: below -38.6)
        if self.name == 'norm' and _big_constant(t) and S.CUR.entailed(t < -40):
            return 0.0
        app = apply_uf(self.cdf_f, t, ('cdf', self))
        return mk(app)

    def ppf(self, p):
        if is_num(p):
            if is_nan(p) or p < 0 or p > 1:
                return float('nan')
            if p == 0:
                return 0.0 if self.support == 'positive' else -math.inf
            if p == 1:
                return math.inf
        t = _real(p)
        if not S.CUR.entailed(z3.And(t > 0, t < 1)):
            if bool(S.mkb(z3.Or(t < 0, t > 1))):
                return float('nan')
            if bool(S.mkb(t == 0)):
                return 0.0 if self.support == 'positive' else -math.inf
            if bool(S.mkb(t == 1)):
                return math.inf
        if _app(self.cdf_f, t):
            return mk(t.arg(0))
        app = apply_uf(self.ppf_f, t, ('ppf', self))
        return mk(app)


NORM = Kernel('norm')

NPDF = z3.Function('norm_pdf', R, R)


def npdf(x):
    """Standard normal density."""
    return mk(apply_uf(NPDF, _real(x), 'pdf'))


def axioms(path, f, t, app, kind, others):
    """Axioms for a new application app=f(t); others: earlier [(t, app)]."""
    out = []
    if kind == 'exp':
        out += [app > 0, app >= 1 + t]
        for (t2, a2) in others:
            out += [z3.And((t < t2) == (app < a2), (t == t2) == (app == a2))]
        for (x, l) in path.ufs.get('log', []):
            out += [z3.Implies(x > 0, z3.And((t < l) == (app < x),
                                             (t == l) == (app == x)))]
    elif kind == 'log':
        out += [z3.Implies(t > 0, z3.And(
            app <= t - 1, (app > 0) == (t > 1), (app == 0) == (t == 1)))]
        c = const_value(t)
        if c is not None and c > 0:
            v = math.log(c)
            out += [app > z3.RealVal(repr(v - 1e-9)), app < z3.RealVal(repr(v + 1e-9))]
        for (t2, a2) in others:
            out += [z3.Implies(z3.And(t > 0, t2 > 0), z3.And(
                (t < t2) == (app < a2), (t == t2) == (app == a2)))]
        for (x, e) in path.ufs.get('exp', []):
            out += [z3.Implies(t > 0, z3.And((x < app) == (e < t),
                                             (x == app) == (e == t)))]
    elif kind == 'pdf':
        out += [app > 0, app < z3.Q(2, 5)]
    elif kind == 'sqrt':
        out += [app >= 0, z3.Implies(t >= 0, app * app == t)]
    elif isinstance(kind, tuple) and kind[0] == 'cdf':
        k = kind[1]
        out += [app > 0, app < 1, k.ppf_f(app) == t]
        if k.name == 'norm':
            out += [(t > 0) == (app > z3.Q(1, 2)), (t == 0) == (app == z3.Q(1, 2))]
        for (t2, a2) in others:
            out += [z3.And((t < t2) == (app < a2), (t == t2) == (app == a2))]
        # relation to ppf applications
        for (p, x) in path.ufs.get(k.ppf_f.name(), []):
            out += [z3.And((t < x) == (app < p), (t == x) == (app == p))]
    elif isinstance(kind, tuple) and kind[0] == 'ppf':
        k = kind[1]
        out += [k.cdf_f(app) == t]
        if k.support == 'positive':
            out += [app > 0]
        if k.name == 'norm':
            out += [(app > 0) == (t > z3.Q(1, 2)), (app == 0) == (t == z3.Q(1, 2))]
        for (t2, a2) in others:
            out += [z3.And((t < t2) == (app < a2), (t == t2) == (app == a2))]
        for (x, p) in path.ufs.get(k.cdf_f.name(), []):
            out += [z3.And((x < app) == (p < t), (x == app) == (p == t))]
    return out
