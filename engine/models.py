"""Real pelicun objects for the harnesses."""

from __future__ import annotations

import contextlib
import io

import numpy as np
import pandas as pd

from .dists import patch_uq
from .shim import obj_array


def modules():
    from pelicun import assessment, base, file_io, uq
    from pelicun.model import (
        asset_model, damage_model, demand_model, loss_model, pelicun_model)

    return dict(assessment=assessment, base=base, file_io=file_io, uq=uq,
                asset_model=asset_model, damage_model=damage_model,
                demand_model=demand_model, loss_model=loss_model,
                pelicun_model=pelicun_model)


def make_assessment(ctx, options=None, cls='Assessment', units=None, stories=None):
    """A real Assessment; pelicun modules get symbol-aware np/float."""
    m = modules()
    cfg = {'PrintLog': False, 'Verbose': False, 'LogFile': None}
    cfg.update(options or {})
    with contextlib.redirect_stdout(io.StringIO()):
        a = getattr(m['assessment'], cls)(cfg)
    ctx.symnp(*m.values())
    ctx.symfloat(m['assessment'], m['base'], m['pelicun_model'],
                 m['loss_model'], m['damage_model'], m['demand_model'],
                 m['asset_model'])
    patch_uq(ctx)
    if units:
        a.unit_conversion_factors = {**a.unit_conversion_factors, **units}
    if stories is not None:
        a.stories = stories
    return a


def arr(ctx, values):
    return obj_array(values) if ctx.symbolic else np.array(values, dtype=float)


def frame(ctx, data, index=None, columns=None):
    """DataFrame of numbers: object columns in symbolic mode, float otherwise."""
    return pd.DataFrame(data, index=index, columns=columns,
                        dtype=object if ctx.symbolic else float)


def mixed_frame(ctx, data, index=None, columns=None):
    """DataFrame whose columns hold numbers or text."""
    df = pd.DataFrame(data, index=index, columns=columns, dtype=object)
    return df if ctx.symbolic else df.infer_objects()


def params_table(ctx, rows):
    """rows: {component: {'LS1-Family': ..}} -> parameter DataFrame."""
    cols = []
    for r in rows.values():
        cols += [c for c in r if c not in cols]
    df = pd.DataFrame(
        [[r.get(c, np.nan) for c in cols] for r in rows.values()],
        index=list(rows), columns=cols, dtype=object)
    df.index.name = 'ID'
    return df


def demand_spec(dtype='Peak Floor Acceleration', unit='mps2', offset=0,
                directional=1, n='', **more):
    out = {f'Demand{n}-Type': dtype, f'Demand{n}-Offset': offset,
           f'Demand{n}-Directional': directional}
    if unit is not None:
        out[f'Demand{n}-Unit'] = unit
    out.update(more)
    return out


def set_assets(ctx, a, pgs, qty, blocks=None):
    """pgs: list of (cmp, loc, dir, uid); qty: n x len(pgs) values."""
    cols = pd.MultiIndex.from_tuples(pgs, names=['cmp', 'loc', 'dir', 'uid'])
    a.asset.cmp_sample = frame(ctx, qty, columns=cols)
    mp = pd.DataFrame({'Units': ['ea'] * len(pgs)}, index=cols)
    if blocks is not None:
        mp['Blocks'] = blocks
    a.asset.cmp_marginal_params = mp
    a.asset.cmp_units = pd.Series(
        {p[0]: 'ea' for p in pgs}, name='Units')
    return cols


def set_demands(ctx, a, edps, values):
    cols = pd.MultiIndex.from_tuples(edps, names=['type', 'loc', 'dir'])
    a.demand.sample = frame(ctx, values, columns=cols)
    return cols


def used_symbols(v):
    """Names of the symbolic inputs a value depends on."""
    import z3

    out, todo, seen = set(), [getattr(v, 't', None)], set()
    while todo:
        t = todo.pop()
        if t is None or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(t))
        todo.extend(t.children())
    return out


@contextlib.contextmanager
def write_table(rows):
    """rows: {id: {column: value}} -> path of a csv table with an ID column."""
    import tempfile
    from pathlib import Path

    cols = list(dict.fromkeys(k for r in rows.values() for k in r))
    df = pd.DataFrame([[r.get(c, np.nan) for c in cols] for r in rows.values()],
                      index=list(rows), columns=cols, dtype=object)
    df.index.name = 'ID'
    with tempfile.TemporaryDirectory() as d:
        p = str(Path(d, 'table.csv'))
        df.map(lambda v: v if not isinstance(v, float) or np.isnan(v)
               else repr(v)).to_csv(p)
        yield p


class SymInterp1d:
    """scipy.interpolate.interp1d (linear, no extrapolation) on symbols."""

    def __init__(self, x, y, kind='linear', **k):
        assert kind == 'linear' and not k, 'interp1d: only the linear kind is modelled'
        x, y = list(x), list(y)
        if len(x) != len(y):
            msg = 'x and y arrays must be equal in length along interpolation axis.'
            raise ValueError(msg)
        order = sorted(range(len(x)), key=lambda i: x[i])
        self.x, self.y = [x[i] for i in order], [y[i] for i in order]

    def __call__(self, v):
        shape = np.shape(v)
        out = np.empty(shape, dtype=object)
        v = np.asarray(v, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self._one(v[i])
        return out

    def _one(self, v):
        from .sym import is_nan

        if is_nan(v):
            return float('nan')
        x, y = self.x, self.y
        if bool(v < x[0]) or bool(v > x[-1]):
            msg = 'A value in x_new is outside the interpolation range.'
            raise ValueError(msg)
        for k in range(len(x) - 1):
            if k == len(x) - 2 or bool(v <= x[k + 1]):
                return y[k] + (y[k + 1] - y[k]) * (v - x[k]) / (x[k + 1] - x[k])
        return y[0]


def patch_interp1d(ctx):
    import pelicun.base as b

    if ctx.symbolic and hasattr(b, 'interp1d'):
        ctx.patch(b, 'interp1d', SymInterp1d)


class SymGrid:
    """scipy.interpolate.RegularGridInterpolator (linear, bounds checked)."""

    def __init__(self, points, values, **k):
        assert not k, 'RegularGridInterpolator: only the defaults are modelled'
        self.p = [[float(x) for x in ax] for ax in points]
        self.v = np.asarray(values, dtype=object)
        if len(self.p) > self.v.ndim:
            msg = 'There are more point arrays than dimensions of values'
            raise ValueError(msg)
        for ax, m in zip(self.p, self.v.shape):
            if any(b <= a for a, b in zip(ax, ax[1:])) or len(ax) != m:
                msg = 'The points must be strictly ascending and match the values'
                raise ValueError(msg)

    def __call__(self, xi):
        xi = np.asarray(xi, dtype=object)
        shape = xi.shape[:-1]
        if xi.shape[-1] != len(self.p):
            msg = 'The requested sample points have a wrong dimension'
            raise ValueError(msg)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            for ax, x in zip(self.p, xi[i]):
                if bool(x < ax[0]) or bool(x > ax[-1]):
                    msg = 'One of the requested xi is out of bounds'
                    raise ValueError(msg)
            out[i] = self._one(xi[i])
        return out

    def _one(self, x):
        import itertools

        lo, w = [], []
        for ax, v in zip(self.p, x):
            k = 0
            while k < len(ax) - 2 and bool(v > ax[k + 1]):
                k += 1
            lo.append(k)
            w.append((v - ax[k]) / (ax[k + 1] - ax[k]))
        s = 0
        for c in itertools.product((0, 1), repeat=len(w)):
            f = self.v[tuple(k + j for k, j in zip(lo, c))]
            for j, wi in zip(c, w):
                f = f * (wi if j else 1 - wi)
            s = s + f
        return s


def patch_grid(ctx):
    import pelicun.model.loss_model as m

    if ctx.symbolic and hasattr(m, 'RegularGridInterpolator'):
        ctx.patch(m, 'RegularGridInterpolator', SymGrid)
