"""C05  Unit conversion: exact, multiplicative, and never silent."""

import json
import tempfile
from pathlib import Path

import numpy as np

from engine.harness import assume_note, harness
from engine.models import arr, make_assessment

assume_note('reference unit table: SI definitions, compared to 6 significant '
            'digits')


def table(ctx, dup=False):
    f = {n: ctx.real(n, 0.001, 1000) for n in ('a', 'b', 'c')}
    t = {'length': {'ua': f['a'], 'ub': f['b']}, 'time': {'uc': f['c']}}
    return f, t


def write_units(t, d):
    p = Path(d, 'settings')
    p.mkdir()
    txt = {c: {k: str(v) if not isinstance(v, (int, float)) else v
               for k, v in u.items()} for c, u in t.items()}
    (p / 'default_units.json').write_text(json.dumps(txt))
    return p / 'default_units.json'


@harness('table of 3 units in 2 categories with symbolic factors; float, list '
         'and array values of length 2; with and without a category',
         [{'kind': k, 'cat': c} for k in ('float', 'list', 'array')
          for c in (None, 'length')],
         must_reach=('converted', 'other category refused', 'unknown refused'))
def convert(ctx, kind, cat):
    from pelicun import base

    ctx.symnp(base)
    ctx.symfloat(base)
    f, t = table(ctx)
    v = [ctx.real(f'v{i}', -100, 100) for i in range(2)]
    with tempfile.TemporaryDirectory() as d:
        write_units(t, d)
        ctx.patch(base, 'pelicun_path', Path(d))
        if kind == 'float':
            got = [base.convert_units(v[0], 'ua', 'ub', cat)]
            want = v[:1]
        elif kind == 'list':
            got = base.convert_units(list(v), 'ua', 'ub', cat)
            ctx.check(isinstance(got, list), 'type kept')
            want = v
        else:
            x = arr(ctx, v)
            got = base.convert_units(x, 'ua', 'ub', cat)
            ctx.check(isinstance(got, np.ndarray), 'type kept')
            for i in range(2):
                ctx.eq(x[i], v[i], 'input untouched')
            want = v
        ctx.check(len(got) == len(want), 'size')
        for g, w in zip(got, want):
            ctx.eq(g * f['b'], w * f['a'], 'converted')
        # same unit: identity; there and back: identity
        ctx.eq(base.convert_units([v[0]], 'ua', 'ua', cat)[0], v[0], 'identity')
        back = base.convert_units(list(got), 'ub', 'ua', cat)
        for g, w in zip(back, want):
            ctx.eq(g, w, 'round trip')
        for a, b, c, label in (
            ('ua', 'uc', cat, 'other category refused'),
            ('uc', 'ua', cat, 'other category refused'),
            ('nope', 'ua', cat, 'unknown refused'),
            ('ua', 'nope', cat, 'unknown refused'),
            ('ua', 'ub', 'time', 'other category refused'),
            ('ua', 'ub', 'nope', 'unknown refused'),
        ):
            try:
                base.convert_units(list(v), a, b, c)
            except ValueError:
                ctx.check(True, label)
            else:
                ctx.fail(label)


@harness('a units file with symbolic factors; duplicates and malformed tables',
         must_reach=('flat table', 'refused'))
def units_file(ctx):
    from pelicun import base

    ctx.symnp(base)
    ctx.symfloat(base)
    f, t = table(ctx)
    with tempfile.TemporaryDirectory() as d:
        p = str(write_units(t, d))
        flat = base.parse_units(p)
        ctx.check(set(flat) == {'ua', 'ub', 'uc'}, 'flat table')
        for k in 'abc':
            ctx.eq(flat['u' + k], f[k], 'flat table')
        cat = base.parse_units(p, preserve_categories=True)
        ctx.check(set(cat) == {'length', 'time'}
                  and set(cat['length']) == {'ua', 'ub'}, 'category table')
        for k in 'ab':
            ctx.eq(cat['length']['u' + k], f[k], 'category table')
        a = make_assessment(ctx, {'UnitsFile': p})
        for k in 'abc':
            ctx.eq(a.calc_unit_scale_factor('2 u' + k), 2 * f[k], 'own units file')
            ctx.eq(a.scale_factor('u' + k), f[k], 'own units file')
        bad = {
            'dup1.json': '{"length": {"m": 1.0, "m": 2.0}}',
            'dup2.json': '{"length": {"m": 1.0}, "time": {"m": 2.0}}',
            'flat.json': '{"m": 1.0}',
            'text.json': '{"length": {"m": "abc"}}',
            'null.json': '{"length": {"m": null}}',
            'broken.json': '{"length": ',
        }
        for n, txt in bad.items():
            q = Path(d, n)
            q.write_text(txt)
            try:
                base.parse_units(str(q))
            except (ValueError, TypeError):
                ctx.check(True, 'refused')
            else:
                ctx.fail('refused', n)
        try:
            base.parse_units(str(Path(d, 'missing.json')))
        except FileNotFoundError:
            ctx.check(True, 'refused')
        else:
            ctx.fail('refused', 'missing')


@harness('symbolic unit factor; unit text with and without a count; unknown and '
         'missing units', must_reach=('scale factor', 'unknown unit refused'))
def assessment_factors(ctx):
    f = ctx.real('f', 0.001, 1000)
    a = make_assessment(ctx, units={'uu': f})
    ctx.eq(a.scale_factor('uu'), f, 'scale factor')
    ctx.eq(a.scale_factor(None), 1.0, 'no unit: 1')
    for txt, c in (('uu', 1.0), (' uu ', 1.0), ('1 uu', 1.0), ('12 uu', 12.0),
                   ('0.25 uu', 0.25), ('1e3 uu', 1000.0)):
        ctx.eq(a.calc_unit_scale_factor(txt), f * c, f'scale factor[{txt}]')
    for fn, txt in ((a.scale_factor, 'nope'), (a.calc_unit_scale_factor, 'nope'),
                    (a.calc_unit_scale_factor, '3 nope')):
        try:
            fn(txt)
        except (KeyError, ValueError):
            ctx.check(True, 'unknown unit refused')
        else:
            ctx.fail('unknown unit refused')


LB = 0.45359237
IN, FT, MI = 0.0254, 0.3048, 1609.344
LBF = LB * 9.80665
REF = {
    'time': dict(sec=1, minute=60, hour=3600, day=86400),
    'length': dict(m=1, mm=1e-3, cm=1e-2, km=1e3, ft=FT, mile=MI,
                   **{'in': IN, 'inch': IN}),
    'area': dict(m2=1, mm2=1e-6, cm2=1e-4, km2=1e6, in2=IN**2, inch2=IN**2,
                 ft2=FT**2, mile2=MI**2),
    'volume': dict(m3=1, in3=IN**3, inch3=IN**3, ft3=FT**3),
    'velocity': dict(mps=1, cmps=0.01, mph=MI / 3600, inps=IN, inchps=IN, ftps=FT),
    'acceleration': dict(mps2=1, inps2=IN, inchps2=IN, ftps2=FT, g=9.80665),
    'mass': dict(kg=1, ton=1000, lb=LB),
    'force': dict(N=1, kN=1e3, lbf=LBF, kip=1e3 * LBF, kips=1e3 * LBF),
    'line_force': dict(Npm=1, kNpm=1e3, lbpft=LBF / FT, kippft=1e3 * LBF / FT,
                       kipspft=1e3 * LBF / FT),
    'pressure': dict(Pa=1, kPa=1e3, MPa=1e6, GPa=1e9, psi=LBF / IN**2,
                     ksi=1e3 * LBF / IN**2, Mpsi=1e6 * LBF / IN**2),
}
MISC = dict(ea=1, EA=1, unitless=1, rad=1, USD_2011=1, USD=1, loss_ratio=1,
            worker_day=1, SF=FT**2, LF=FT, TN=1000, AP=1, CF=FT**3 / 60, KV=1000)


def near(ctx, a, b, label):
    if not ctx.symbolic:
        ctx.check(abs(a - b) <= 1e-5 * abs(b), label, f'{a} vs {b}')
        return
    d = a - b
    if isinstance(d, (int, float)):
        ctx.check(abs(d) <= 1e-5 * abs(b), label)
    else:
        ctx.check(abs(d) <= 1e-5 * abs(b), label)


@harness('every pair (unit, first unit of its kind) of the built-in table, one '
         'symbolic value', [{'kind': k} for k in REF],
         must_reach=('built-in factor',))
def builtin(ctx, kind):
    from pelicun import base

    ctx.symnp(base)
    v = ctx.real('v', 0.5, 2)
    ref = REF[kind]
    units = list(ref)
    for u in units:
        got = base.convert_units([v], u, units[0])[0]
        near(ctx, got, v * ref[u], f'built-in factor[{u}]')


@harness('the factors the assessment uses for the built-in units',
         must_reach=('built-in factor',))
def builtin_assessment(ctx):
    a = make_assessment(ctx)
    v = ctx.real('v', 0.5, 2)
    for u, f in {**{k: x for d in REF.values() for k, x in d.items()},
                 **MISC}.items():
        near(ctx, v * a.calc_unit_scale_factor(u), v * f, f'built-in factor[{u}]')
        near(ctx, v * a.scale_factor(u), v * f, f'built-in factor[{u}]')
