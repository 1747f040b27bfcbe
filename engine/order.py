"""Sets in any order and generators by their seed: what differs between runs."""

from __future__ import annotations

import ast
import builtins
import inspect

import numpy as np

from .dists import Rng


def _mixed(x):
    """The order of text (alone or in tuples) depends on the hash seed."""
    return isinstance(x, str) or (
        isinstance(x, (tuple, frozenset)) and any(_mixed(y) for y in x))


def make_sets(ctx, state):
    """`set` and `frozenset` that are iterated in the order of the run."""

    def ordered(self, plain):
        items = list(plain(self))
        if len(items) < 2 or not any(_mixed(x) for x in items):
            return iter(items)
        items.sort(key=repr)
        if not state['permuted']:
            return iter(items)
        key = repr(items)
        memo = state['memo']
        if key not in memo:
            memo[key] = ctx.perm(f'set{len(memo)}', len(items)) \
                if len(items) <= state['max'] \
                else [range(len(items)), range(len(items) - 1, -1, -1)][
                    ctx.flag(f'set{len(memo)}')]
        return iter([items[i] for i in memo[key]])

    class AnySet(builtins.set):
        __hash__ = None

        def __iter__(self):
            return ordered(self, builtins.set.__iter__)

        def pop(self):
            x = next(iter(self))
            self.remove(x)
            return x

    class AnyFrozenSet(builtins.frozenset):
        def __iter__(self):
            return ordered(self, builtins.frozenset.__iter__)

    for cls, base in ((AnySet, builtins.set), (AnyFrozenSet, builtins.frozenset)):
        for op in ('union', 'intersection', 'difference', 'symmetric_difference',
                   'copy', '__and__', '__or__', '__sub__', '__xor__', '__rand__',
                   '__ror__', '__rsub__', '__rxor__'):
            def f(self, *o, _f=getattr(base, op), _c=cls):
                r = _f(self, *o)
                return r if r is NotImplemented else _c(r)
            setattr(cls, op, f)
        cls.__name__ = base.__name__
    return AnySet, AnyFrozenSet


class _Sets(ast.NodeTransformer):
    """Displays and comprehensions of sets become calls of `set`."""

    def visit_Compare(self, node):
        # membership does not depend on the order
        node.left = self.visit(node.left)
        node.comparators = [
            c if isinstance(c, ast.Set) and isinstance(o, (ast.In, ast.NotIn))
            else self.visit(c) for o, c in zip(node.ops, node.comparators)]
        return node

    def _call(self, node, arg):
        name = ast.copy_location(ast.Name('set', ast.Load()), node)
        return ast.copy_location(ast.Call(name, [ast.copy_location(arg, node)], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, ast.ListComp(node.elt, node.generators))


_DONE = set()


def _codes(code, out):
    for c in code.co_consts:
        if inspect.iscode(c):
            out.setdefault((c.co_qualname, c.co_firstlineno), c)
            _codes(c, out)
    return out


def _functions(mod):
    seen = set()
    todo = list(vars(mod).values())
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            todo += [o.fget, o.fset, o.fdel]
        elif inspect.isfunction(o):
            if o.__module__ == mod.__name__:
                yield o
            if hasattr(o, '__wrapped__'):
                todo.append(o.__wrapped__)
        elif inspect.isclass(o) and o.__module__ == mod.__name__:
            todo += list(vars(o).values())


def set_calls(mod):
    """Recompile the functions of a module with every set made by `set(..)`."""
    if mod.__name__ in _DONE:
        return
    _DONE.add(mod.__name__)
    src = inspect.getsource(mod)
    tree = ast.fix_missing_locations(_Sets().visit(ast.parse(src)))
    flags = 0
    import __future__
    for f in ('annotations',):
        if f in vars(mod):
            flags |= getattr(__future__, f).compiler_flag
    codes = _codes(compile(tree, mod.__file__, 'exec', flags, dont_inherit=True), {})
    for f in _functions(mod):
        new = codes.get((f.__code__.co_qualname, f.__code__.co_firstlineno))
        if new is not None and new.co_freevars == f.__code__.co_freevars:
            f.__code__ = new


class Runs:
    """Two runs with the same seed: same draws, sets in another order."""

    def __init__(self, ctx, mods, most=2):
        self.ctx = ctx
        self.state = {'permuted': False, 'memo': {}, 'max': most}
        self.streams = {}
        self.n = 0
        s, fs = make_sets(ctx, self.state)
        for m in mods:
            set_calls(m)
            ctx.patch(m, 'set', s)
            ctx.patch(m, 'frozenset', fs)
        ctx.patch(np.random, 'default_rng', self.generator)
        # the global generator is not governed by the seed
        self.free = Rng(ctx, 'global')
        for k in ('random', 'uniform', 'permutation', 'choice', 'normal'):
            ctx.patch(np.random, k, getattr(self.free, k))
        ctx.patch(np.random, 'rand', lambda *n: self.free.random(n or None))
        ctx.patch(np.random, 'randint', self.free.integers)

    def again(self):
        self.state['permuted'] = True

    def generator(self, seed=None, *_):
        if isinstance(seed, Rng):
            return seed
        self.n += 1
        if seed is None:
            return Rng(self.ctx, f'unseeded{self.n}_')
        key = repr(seed)
        first = self.streams.get(key)
        r = Rng(self.ctx, f'seed{key}_', replay=first)
        if first is None:
            self.streams[key] = r
        else:
            # later runs may draw more than the first one
            r.memo = first.memo
        return r
