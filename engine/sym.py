"""
Symbolic values.

`Sym` wraps a z3 Int/Real term, `SymBool` a z3 Bool term.  They are ordinary
Python objects, so the real pelicun code (and the real pandas / numpy
object-dtype machinery below it) runs on them unchanged.  The current path
(`engine.path.Path`) is reached through the module variable `CUR`.
"""

from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np
import z3

CUR = None  # the Path being executed (None outside symbolic execution)


class Unsupported(Exception):
    """The engine cannot represent this operation."""


def num_term(x):
    """z3 numeral for a concrete number (floats by their shortest decimal)."""
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return z3.RealVal(int(x))
    f = Fraction(repr(x))
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def is_num(x):
    return isinstance(x, (numbers.Number, np.number, np.bool_)) and not isinstance(
        x, complex
    )


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def is_inf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def term(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    return num_term(x)


def real_term(x):
    t = term(x)
    return z3.ToReal(t) if t.is_int() else t


def _coerce(a, b):
    if a.is_int() and b.is_int():
        return a, b
    return (z3.ToReal(a) if a.is_int() else a, z3.ToReal(b) if b.is_int() else b)


def const_value(t):
    """Fraction / int / None: the value of a numeral term."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def mk(t):
    """Wrap a term, folding constants back to Python numbers."""
    t = z3.simplify(t)
    if z3.is_bool(t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    v = const_value(t)
    if v is not None:
        if isinstance(v, int):
            return v
        return float(v) if v.denominator != 1 else float(v.numerator)
    return Sym(t)


def mkb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def token(s):
    if CUR is None:
        return repr(s)
    return CUR.token(s)


def parse_number(x):
    """float(x) that also reads tokens."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x._n()
    if isinstance(x, str) and '\u27e6' in x and CUR is not None:
        y = x.strip()
        if y in CUR.tokens:
            return CUR.tokens[y]
        raise ValueError(f'could not convert string to float: {x!r}')
    return float(x)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.branch(self.t)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkb(z3.And(self.t, o.t))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkb(z3.Or(self.t, o.t))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkb(z3.Xor(self.t, bterm(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.t))

    logical_not = __invert__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkb(self.t == bterm(o))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return mk(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._n() + (o._n() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * (o._n() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - (o._n() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return (o._n() if isinstance(o, SymBool) else o) - self._n()

    def __repr__(self):
        return f'SymBool({str(self.t)[:60]})'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f'boolean term of {type(x)}')


def sand(*xs):
    return mkb(z3.And(*[bterm(x) for x in xs])) if xs else True


def sor(*xs):
    return mkb(z3.Or(*[bterm(x) for x in xs])) if xs else False


def snot(x):
    return mkb(z3.Not(bterm(x)))


def ite(c, a, b):
    """Term-level if-then-else (no fork)."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if any(is_nan(v) or is_inf(v) for v in (a, b)):
        return a if bool(c) else b
    ta, tb = _coerce(term(a), term(b))
    return mk(z3.If(c.t, ta, tb))


class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # ---- arithmetic -------------------------------------------------------
    def _bin(self, o, f, refl=False):
        if isinstance(o, SymBool):
            o = o._n()
        if isinstance(o, Sym):
            ot = o.t
        elif is_num(o):
            if is_nan(o):
                return float('nan')
            if is_inf(o):
                return NotImplemented
            ot = num_term(o)
        else:
            return NotImplemented
        a, b = _coerce(self.t, ot)
        if refl:
            a, b = b, a
        return mk(f(a, b))

    def __add__(self, o):
        if is_inf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_inf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if is_inf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if is_inf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_inf(o):
            return self._times_inf(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if is_inf(o):
            return self._times_inf(o)
        return self._bin(o, lambda a, b: a * b, True)

    def _times_inf(self, o):
        if bool(self > 0):
            return o
        if bool(self < 0):
            return -o
        return float('nan')

    def __truediv__(self, o):
        if is_inf(o):
            return 0.0
        if is_num(o) and not is_nan(o) and o == 0:
            # float / 0.0 in pandas/numpy: +-inf or nan
            return self._times_inf(math.copysign(math.inf, float(o)))
        if isinstance(o, Sym) and bool(o == 0):
            return self._times_inf(math.inf)
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        if is_inf(o):
            return o if bool(self >= 0) else -o
        if bool(self == 0):
            if is_nan(o) or o == 0:
                return float('nan')
            return math.inf if o > 0 else -math.inf
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        q = self / o
        return q.floor() if isinstance(q, Sym) else np.floor(q)

    def __rfloordiv__(self, o):
        q = o / self
        return q.floor() if isinstance(q, Sym) else np.floor(q)

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and self.t.is_int() and o > 0:
            return mk(self.t % z3.IntVal(int(o)))
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    absolute = fabs = __abs__

    def __pow__(self, o, mod=None):
        from . import funcs

        return funcs.power(self, o)

    def __rpow__(self, o):
        from . import funcs

        return funcs.power(o, self)

    # ---- numpy method-style ufuncs -----------------------------------------
    def exp(self):
        from . import funcs

        return funcs.exp(self)

    def log(self):
        from . import funcs

        return funcs.log(self)

    def sqrt(self):
        from . import funcs

        return funcs.sqrt(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sign(self):
        return ite(self > 0, 1.0, ite(self < 0, -1.0, 0.0))

    def floor(self):
        if self.t.is_int():
            return self
        return mk(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        if self.t.is_int():
            return self
        return mk(-z3.ToReal(z3.ToInt(-self.t)))

    def trunc(self):
        return ite(self >= 0, self.floor(), self.ceil())

    def rint(self):
        f = self.floor()
        d = self - f
        half_even = ite(mkb(z3.ToInt(real_term(f)) % 2 == 0), f, f + 1)
        return ite(d < 0.5, f, ite(d > 0.5, f + 1, half_even))

    def __floor__(self):
        return mk(z3.ToInt(real_term(self)))

    def __ceil__(self):
        return mk(-z3.ToInt(-real_term(self)))

    def __trunc__(self):
        return ite(self >= 0, self.__floor__(), self.__ceil__())

    def __round__(self, n=None):
        if n is None:
            return mk(z3.ToInt(real_term(self.rint())))
        p = 10**n
        return (self * p).rint() / p

    def round(self, decimals=0):
        return self.__round__(decimals)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    # ---- comparison ---------------------------------------------------------
    def _cmp(self, o, f, inf_pos, inf_neg, nan):
        if isinstance(o, SymBool):
            o = o._n()
        if isinstance(o, Sym):
            a, b = _coerce(self.t, o.t)
            return mkb(f(a, b))
        if is_num(o):
            if is_nan(o):
                return nan
            if is_inf(o):
                return inf_pos if o > 0 else inf_neg
            a, b = _coerce(self.t, num_term(o))
            return mkb(f(a, b))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True, False)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True, False)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, True, True)
        return True if r is NotImplemented else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    # ---- concretisation -----------------------------------------------------
    def __hash__(self):
        return hash(CUR.pin(self))

    def __float__(self):
        return float(CUR.pin(self))

    def __int__(self):
        if not self.t.is_int():
            return int(CUR.pin(self.__trunc__()))
        return int(CUR.pin(self))

    def __index__(self):
        if not self.t.is_int():
            raise TypeError('real used as index')
        return int(CUR.pin(self))

    def __complex__(self):
        raise TypeError('Sym is not complex')

    def __repr__(self):
        return f'Sym({str(self.t)[:80]})'

    # text: a token that `parse_number` turns back into the same symbol, so
    # values survive code that writes numbers into strings and re-reads them
    def __str__(self):
        return token(self)

    def __format__(self, spec):
        return token(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _div(a, b):
    if a.is_int():
        a = z3.ToReal(a)
    if b.is_int():
        b = z3.ToReal(b)
    c = const_value(b)
    if c is not None:
        return a * z3.RealVal(str(1 / Fraction(c)))
    if getattr(CUR, 'opaque_quotients', None) is not None:
        return quotient(a, b)
    return a / b


def quotient(a, b):
    """
    a / b as an unknown with linear facts about quotients.

    Everything stated holds for the real quotient, so that a proof is a proof;
    a counterexample may be spurious and has to be reproduced.
    """
    a, b = (z3.simplify(x, som=True, sort_sums=True) for x in (a, b))
    seen = CUR.opaque_quotients
    if a.eq(b):
        return z3.RealVal(1)
    c = const_value(b)
    if c is not None:
        return a * z3.RealVal(str(1 / Fraction(c)))
    key = (a.get_id(), b.get_id())
    if key in seen:
        return seen[key][2]
    q = z3.Real(f'quotient{len(seen)}')
    facts = [z3.Implies(b > 0, z3.And(
        (a > 0) == (q > 0), (a == 0) == (q == 0), (a < b) == (q < 1),
        (a == b) == (q == 1)))]
    for a2, b2, q2 in seen.values():
        if b2.eq(b):
            facts.append(z3.Implies(b > 0, z3.And(
                (a < a2) == (q < q2), (a == a2) == (q == q2))))
    seen[key] = (a, b, q)
    for f in facts:
        CUR.add(f)
    return q


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(v, (Sym, SymBool)) for v in x.ravel()
        )
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if hasattr(x, 'to_numpy') and not isinstance(x, type):
        try:
            return has_sym(x.to_numpy())
        except Exception:  # noqa: BLE001
            return False
    return False
