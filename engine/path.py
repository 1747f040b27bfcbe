"""
Path exploration: re-execution with decision prefixes (DART / CrossHair style).

Every branch on a symbolic condition is decided by the solver: both outcomes
are checked for feasibility under the path condition, the feasible ones are
explored, and on each path every obligation `pc => property` is discharged by
an unsat answer for `pc & not property`.
"""

from __future__ import annotations

import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym as S
from .sym import Sym, SymBool, bterm, const_value, is_num, mk, mkb


class Infeasible(BaseException):
    pass


class Stop(BaseException):
    """End this path quietly (assumption failed / cut)."""


class CounterExample(BaseException):
    def __init__(self, label, models, detail=''):
        self.label, self.models, self.detail = label, models, detail


class ConcreteViolation(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class AssumeFailed(BaseException):
    pass


class Timeout(BaseException):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.inconclusive = []
        self.concretized = []
        self.degraded = []
        self.reached = {}
        self.replays = 0
        self.samples = []
        self.violations = []
        self.incomplete = False

    def as_dict(self):
        return dict(self.__dict__)


QUERY_TIMEOUT_MS = 8000


def val_to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        f = v.approx(20)
        return float(Fraction(f.numerator_as_long(), f.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise S.Unsupported(f'model value {v}')


class Path:
    symbolic = True

    def __init__(self, prefix, stats, deadline=None):
        self.prefix = prefix
        self.stats = stats
        self.decisions = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('timeout', QUERY_TIMEOUT_MS)
        self.solver.set('random_seed', 1)
        self.inputs = {}
        self.ufs = {}
        self.model = None
        self.patches = []
        self.deadline = deadline
        self.concretized = []
        self.hard = []  # constraints
        self.ent_cache = {}
        self.tokens = {}
        self.token_of = {}
        self.opaque_quotients = None

    def token(self, s):
        k = s.t.get_id()
        if k not in self.token_of:
            t = f'\u27e6{len(self.tokens)}\u27e7'
            self.token_of[k] = t
            self.tokens[t] = s
        return self.token_of[k]

    # ------------------------------------------------------------ solver ---
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Timeout
        t0 = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown and self.deadline and time.time() < self.deadline:
            r2, m2 = self._fallback(extra)
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r2 != z3.unknown:
                self._fb_model = m2
                return r2
            return r
        self._fb_model = None
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        return r

    def _fallback(self, extra):
        """A second attempt for `unknown`: fresh solver, other tactics."""
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                if tac == 'smt':
                    s = z3.Solver()
                    s.set('random_seed', 7)
                else:
                    s = z3.Then(
                        'simplify', 'propagate-values', 'solve-eqs',
                        'purify-arith', 'elim-term-ite', 'tseitin-cnf', tac
                    ).solver()
                s.set('timeout', QUERY_TIMEOUT_MS)
                for c in self.solver.assertions():
                    s.add(c)
                for c in extra:
                    s.add(c)
                r = s.check()
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def _get_model(self):
        if getattr(self, '_fb_model', None) is not None:
            return self._fb_model
        return self.solver.model()

    def add(self, c):
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible
            if r == z3.sat:
                self.model = self._get_model()
        return self.model

    def entailed(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        hit = self.ent_cache.get(key)
        if hit is not None:
            return True
        m = self.model
        if m is not None and z3.is_false(m.eval(c, model_completion=True)):
            return False
        r = self._check(z3.Not(c)) == z3.unsat
        if r:
            self.ent_cache[key] = c
        return r

    # ------------------------------------------------------------ branching -
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.branches += 1
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.add(c if d else z3.Not(c))
            return d
        m = self.ensure_model()
        t_ok = f_ok = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                t_ok = True
            elif z3.is_false(v):
                f_ok = True
        mt = mf = None
        if t_ok is None:
            r = self._check(c)
            t_ok = r != z3.unsat
            mt = self._get_model() if r == z3.sat else None
        else:
            mt = m
        if f_ok is None:
            r = self._check(z3.Not(c))
            f_ok = r != z3.unsat
            mf = self._get_model() if r == z3.sat else None
        else:
            mf = m
        if not t_ok and not f_ok:
            raise Infeasible
        d = bool(t_ok)
        if t_ok and f_ok:
            self.stats.forks += 1
            self.alternatives.append(self.decisions + [False])
        self.decisions.append(d)
        self.solver.add(c if d else z3.Not(c))
        self.model = mt if d else mf
        return d

    def pin(self, s):
        """A concrete value for a symbolic number."""
        t = s.t
        v = const_value(z3.simplify(t))
        if v is not None:
            return v if isinstance(v, int) else float(v)
        if t.is_int():
            for _ in range(200):
                if len(self.decisions) < len(self.prefix):
                    # replayed prefix: find the value the recorded decision
                    # was about; it is stored beside the decision
                    d = self.prefix[len(self.decisions)]
                    if isinstance(d, tuple):
                        self.decisions.append(d)
                        val, taken = d
                        self.add(t == val if taken else t != val)
                        if taken:
                            return val
                        continue
                    raise Infeasible
                m = self.ensure_model()
                if m is None:
                    raise S.Unsupported('no model to pin an integer')
                val = m.eval(t, model_completion=True).as_long()
                self.stats.branches += 1
                r = self._check(t != val)
                if r != z3.unsat:
                    self.stats.forks += 1
                    self.alternatives.append(self.decisions + [(val, False)])
                self.decisions.append((val, True))
                self.solver.add(t == val)
                return val
            raise S.Unsupported('integer domain too large to enumerate')
        m = self.ensure_model()
        if m is None:
            raise S.Unsupported('no model to pin a real')
        mv = m.eval(t, model_completion=True)
        f = val_to_py(mv)
        r = self._check(t != mv)
        if r != z3.unsat:
            where = _caller()
            self.concretized.append(where)
            self.stats.concretized.append(where)
            self.solver.add(t == mv)
        return f

    def register_uf(self, f, t, app, kind):
        from . import funcs

        name = f.name()
        lst = self.ufs.setdefault(name, [])
        for t2, _ in lst:
            if t2.eq(t):
                return
        axs = funcs.axioms(self, f, t, app, kind, lst)
        lst.append((t, app))
        for a in axs:
            a = z3.simplify(a)
            if not z3.is_true(a):
                self.add(a)

    # ------------------------------------------------------------ inputs ----
    def _bounds(self, v, lo, hi, lo_open, hi_open):
        if lo is not None:
            a, b = S._coerce(v, S.term(lo))
            self.add(a > b if lo_open else a >= b)
        if hi is not None:
            a, b = S._coerce(v, S.term(hi))
            self.add(a < b if hi_open else a <= b)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.inputs:
            raise ValueError(f'duplicate input {name}')
        v = z3.Real(name)
        self.inputs[name] = v
        self._bounds(v, lo, hi, lo_open, hi_open)
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            raise ValueError(f'duplicate input {name}')
        v = z3.Int(name)
        self.inputs[name] = v
        self._bounds(v, lo, hi, False, False)
        return Sym(v)

    def bool(self, name):
        if name in self.inputs:
            raise ValueError(f'duplicate input {name}')
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def flag(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    def perm(self, name, n):
        out = []
        for i in range(n):
            v = self.int(f'{name}[{i}]', 0, n - 1)
            for o in out:
                self.add(v.t != o.t)
            out.append(v)
        return [int(v) for v in out]

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Stop
            return
        self.add(bterm(c))

    # ------------------------------------------------------------ obligations
    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def _fail(self, label, negs, detail=''):
        """Gather candidate models for a violated obligation."""
        models = []
        for neg in negs:
            r = self._check(neg)
            if r == z3.sat:
                models.append(self.values(self._get_model()))
                # a few variants
                if len(models) >= 6:
                    break
        raise CounterExample(label, models, detail)

    def values(self, m):
        return {
            k: val_to_py(m.eval(v, model_completion=True))
            for k, v in self.inputs.items()
        }

    def check(self, c, label, detail=''):
        self.stats.obligations += 1
        self.reach(label.split('[')[0])
        if isinstance(c, (bool, np.bool_)):
            if c:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
            self._fail(label, [z3.BoolVal(True)] , detail)
        c = bterm(c)
        self._prove(c, [z3.Not(c)], label, detail)

    def _prove(self, c, negs, label, detail):
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            self.stats.inconclusive.append(label)
            return
        base = self.values(self._get_model())
        models = []
        for neg in negs[:-1]:
            if self._check(neg) == z3.sat:
                models.append(self.values(self._get_model()))
        models.append(base)
        raise CounterExample(label, models, detail)

    def eq(self, a, b, label):
        """a and b are the same value (numbers; NaN equals NaN)."""
        self.stats.obligations += 1
        self.reach(label.split('[')[0])
        if isinstance(a, SymBool):
            a = a._n()
        if isinstance(b, SymBool):
            b = b._n()
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x in (a, b):
                if not isinstance(x, Sym) and (
                    not is_num(x) or S.is_nan(x) or S.is_inf(x)
                ):
                    self._fail(label, self._nonzero(a, b), f'{a!r} vs {b!r}')
            ta, tb = S.real_term(a), S.real_term(b)
            d = z3.simplify(ta - tb, som=True)
            if const_value(d) == 0:
                self.stats.discharged += 1
                return
            c = d == 0
            r = self._check(z3.Not(c))
            if r == z3.unsat:
                self.stats.discharged += 1
                return
            # rounding of concrete float constants: allow 1e-9 relative
            tol = z3.RealVal('1/1000000000') * (
                1 + z3.If(ta >= 0, ta, -ta) + z3.If(tb >= 0, tb, -tb)
            )
            c = z3.And(d <= tol, -d <= tol)
            negs = [
                z3.Or(d > 1, d < -1),
                z3.Or(d > z3.Q(1, 100), d < -z3.Q(1, 100)),
                z3.Or(d > 100 * tol, -d > 100 * tol),
                z3.Not(c),
            ]
            self._prove(c, negs, label, f'{a!r} vs {b!r}')
            return
        if concrete_eq(a, b):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        self._fail(label, [z3.BoolVal(True)], f'{a!r} vs {b!r}')

    def _nonzero(self, a, b):
        out = []
        for x in (a, b):
            if isinstance(x, Sym):
                out.append(S.real_term(x) != 0)
        out.append(z3.BoolVal(True))
        return out

    def fail(self, label, detail=''):
        self.stats.obligations += 1
        self.reach(label.split('[')[0])
        self._fail(label, [z3.BoolVal(True)], detail)


def concrete_eq(a, b, rtol=1e-7, atol=1e-9):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b and type(a) is type(b) or (
            isinstance(a, str) and isinstance(b, str) and a == b)
    if is_num(a) and is_num(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if np.isinf(a) or np.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return bool(a == b)


def _caller():
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 3:
        fn = f.f_code.co_filename
        if '/engine/' not in fn:
            out.append(f'{fn.rsplit("/", 1)[-1]}:{f.f_lineno}')
        f = f.f_back
    return ' < '.join(out)


class Concrete:
    """The same interface with plain numbers: used to replay models."""

    symbolic = False

    def __init__(self, values, seed=1, tol=1e-7):
        self.vals = dict(values)
        self.used = {}
        self.rng = random.Random(seed)
        self.patches = []
        self.reached = {}
        self.checked = 0
        self.tol = tol

    def _get(self, name, gen):
        if name in self.used:
            raise ValueError(f'duplicate input {name}')
        v = self.vals[name] if name in self.vals else gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        def gen():
            a = lo if lo is not None else (hi - 10 if hi is not None else -10)
            b = hi if hi is not None else a + 20
            return float(a) + (0.02 + 0.96 * self.rng.random()) * float(b - a)

        v = float(self._get(name, gen))
        # a replay outside the declared range says nothing
        if lo is not None and (v < lo - 1e-12 * abs(lo) or (lo_open and v <= lo)):
            raise AssumeFailed
        if hi is not None and (v > hi + 1e-12 * abs(hi) or (hi_open and v >= hi)):
            raise AssumeFailed
        return v

    def int(self, name, lo=None, hi=None):
        a = lo if lo is not None else (hi - 10 if hi is not None else -10)
        b = hi if hi is not None else a + 20
        return int(self._get(name, lambda: self.rng.randint(a, b)))

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def perm(self, name, n):
        names = [f'{name}[{i}]' for i in range(n)]
        if all(k in self.vals for k in names):
            return [int(self._get(k, None)) for k in names]
        p = list(range(n))
        self.rng.shuffle(p)
        for k, v in zip(names, p):
            self.used[k] = v
        return p

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def check(self, c, label, detail=''):
        self.checked += 1
        if not bool(c):
            raise ConcreteViolation(label, detail)

    def eq(self, a, b, label):
        self.checked += 1
        if not concrete_eq(a, b, rtol=self.tol):
            raise ConcreteViolation(label, f'{a!r} vs {b!r}')

    def fail(self, label, detail=''):
        raise ConcreteViolation(label, detail)

    def entailed(self, c):
        return bool(c)


# ------------------------------------------------------------------ driver --


def run_concrete(fn, values, seed=1, tol=1e-7):
    """
    Run a harness with plain numbers on the real, unpatched code.

    Returns ('ok'|'violation'|'assume'|'exception', label, detail).
    """
    from . import shim

    c = Concrete(values, seed, tol)
    S.CUR = None
    try:
        with shim.harness_scope(c):
            fn(c)
    except ConcreteViolation as e:
        return 'violation', e.label, e.detail, c
    except (AssumeFailed, Stop):
        return 'assume', '', '', c
    except (Exception, SystemExit) as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        site = _site(tb)
        return 'exception', f'exception:{type(e).__name__}@{site}', str(e)[:300], c
    return 'ok', '', '', c


def _site(tb):
    for fr in reversed(tb):
        if '/pelicun/' in fr.filename:
            return f'{fr.filename.rsplit("/", 1)[-1]}:{fr.name}'
    fr = tb[-1]
    return f'{fr.filename.rsplit("/", 1)[-1]}:{fr.name}'


def explore(fn, *, max_paths=4000, time_limit=240.0, replay_paths=2, seed=1):
    from . import shim

    stats = Stats()
    work = [[]]
    deadline = time.time() + time_limit
    while work:
        if stats.paths >= max_paths or time.time() > deadline:
            stats.incomplete = True
            break
        prefix = work.pop()
        p = Path(prefix, stats, deadline)
        S.CUR = p
        failed = None
        try:
            with shim.harness_scope(p):
                fn(p)
        except (Infeasible, Stop):
            work.extend(p.alternatives)
            continue
        except Timeout:
            stats.incomplete = True
            break
        except CounterExample as e:
            failed = e
        except (Exception, SystemExit) as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            failed = CounterExample(
                f'exception:{type(e).__name__}@{_site(tb)}', [], str(e)[:300]
            )
            failed.trace = ''.join(traceback.format_tb(e.__traceback__)[-4:])
        finally:
            S.CUR = None
        work.extend(p.alternatives)
        stats.paths += 1
        if failed is None:
            if p.concretized:
                stats.degraded.append(f'concretized: {p.concretized[0]}')
            if len(stats.samples) < replay_paths:
                _validate(p, fn, stats, seed)
            continue
        # an apparent violation: replay on the real code
        models = list(failed.models)
        if not models:
            S.CUR = p
            try:
                r = p._check()
                if r == z3.unsat:
                    continue
                if r == z3.sat:
                    models.append(p.values(p._get_model()))
            except (Infeasible, Timeout):
                continue
            finally:
                S.CUR = None
        reproduced = None
        cands = models + _perturb(models, seed)
        if not models:
            cands = [{}] * 5
        for i, vals in enumerate(cands):
            st, lab, det, _ = run_concrete(fn, vals, seed=i)
            stats.replays += 1
            if st in {'violation', 'exception'}:
                reproduced = {
                    'label': lab,
                    'symbolic_label': failed.label,
                    'detail': det,
                    'values': vals,
                    'seed': i,
                }
                break
        if reproduced is not None:
            stats.violations.append(reproduced)
            if len({v['label'] for v in stats.violations}) >= 5 or len(
                stats.violations
            ) >= 12:
                break
        else:
            stats.degraded.append(
                f'not reproduced: {failed.label} {failed.detail} '
                + getattr(failed, 'trace', '')
            )
    stats.work_left = len(work)
    return stats


def _perturb(models, seed):
    """Nearby inputs, to survive the gap between reals/UFs and floats."""
    rng = random.Random(seed)
    out = []
    for m in models[:2]:
        for k in range(4):
            v = {}
            for name, x in m.items():
                if isinstance(x, float):
                    v[name] = x * (1 + 0.05 * rng.uniform(-1, 1)) if k < 2 else x
                else:
                    v[name] = x
            if k >= 2:  # keep the discrete part, redraw the real part
                v = {a: b for a, b in m.items() if not isinstance(b, float)}
            out.append(v)
    return out


def robust_failure(fn, vals, seed):
    """
    Does the failure survive a small move of the real inputs?  A model that
    sits exactly on a branch boundary may fall on the other side in float64;
    that is rounding, not a violation.
    """
    names = [k for k, x in vals.items() if isinstance(x, float)]
    if not names:
        return True
    rng = random.Random(seed)
    for k in range(8):
        v = dict(vals)
        for n in names:
            v[n] = vals[n] + (1e-5 if k < 4 else 1e-3) * rng.uniform(-1, 1) * (
                1 + abs(vals[n]))
        if run_concrete(fn, v, seed=seed, tol=1e-6)[0] in {
                'violation', 'exception'}:
            return True
    return False


def _validate(p, fn, stats, seed):
    """Replay a model of a finished path with floats on the real code."""
    S.CUR = p
    try:
        m = p.ensure_model()
        if m is None:
            return
        vals = p.values(m)
    except (Infeasible, Timeout, S.Unsupported):
        return
    finally:
        S.CUR = None
    st, lab, det, c = run_concrete(fn, vals, seed=seed, tol=1e-6)
    if st == 'assume':
        return
    stats.replays += 1
    stats.samples.append(
        {'inputs': {k: v for k, v in list(vals.items())[:12]}, 'result': st}
    )
    if st in {'violation', 'exception'} and not robust_failure(fn, vals, seed):
        stats.degraded.append(f'float-only failure on a path model: {lab} {det}')
    elif st in {'violation', 'exception'}:
        # the path model fails on the real code although the path was proved:
        # an encoding gap (or float behaviour away from branch boundaries).
        # It is a reproduced failure of the real code; report it.
        stats.violations.append(
            {'label': lab, 'symbolic_label': '(validation replay)', 'detail': det,
             'values': vals, 'seed': seed}
        )
