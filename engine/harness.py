"""Registry of harnesses (one check module = one property)."""

from __future__ import annotations

REGISTRY = {}
META = {'assumptions': [
    'floats are modelled as exact reals (rounding, overflow and denormals are '
    'outside the claim); every counterexample is replayed with float64 on the '
    'unpatched code before it is reported',
    'symbolic runs use object-dtype arrays: pandas/numpy code paths that exist '
    'only for float64 blocks are exercised by the replays only',
]}


class H:
    def __init__(self, fn, bounds, params, thorough_params, time_limit, max_paths,
                 must_reach, tier, weight, replays):
        self.fn, self.bounds = fn, bounds
        self.params, self.thorough_params = params, thorough_params
        self.time_limit, self.max_paths = time_limit, max_paths
        self.must_reach, self.tier, self.weight = must_reach, tier, weight
        self.replays = replays

    def param_list(self, tier):
        out = list(self.params or [{}])
        if tier == 'thorough' and self.thorough_params:
            out += list(self.thorough_params)
        return out


def harness(bounds, params=None, thorough=None, time_limit=200.0, max_paths=6000,
            must_reach=(), tier='quick', weight=1, replays=2):
    def deco(fn):
        REGISTRY[fn.__name__] = H(fn, bounds, params, thorough, time_limit,
                                  max_paths, must_reach, tier, weight, replays)
        return fn

    return deco


def assume_note(*notes):
    META['assumptions'].extend(n for n in notes if n not in META['assumptions'])
