"""Comparison of the observations two simulated jobs logged."""
import math


def split_ops(obs):
    return [(l, v) for l, v in obs if l != 'op']


def same_lists(a, b):
    return len(a) == len(b) and all((x == y) or (isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y)) for x, y in zip(a, b))


def close_list(a, b, rtol, atol=0.0, scale=None):
    """vectors agree to rtol of their overall size"""
    if len(a) != len(b):
        return False, 'length %d against %d' % (len(a), len(b))
    na = [x for x in a if isinstance(x, float)]
    if scale is None:
        scale = max([abs(x) for x in na if math.isfinite(x)] + [abs(x) for x in b if isinstance(x, float) and math.isfinite(x)] + [0.0])
    worst = 0.0
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, float) != isinstance(y, float):
            return False, 'item %d: %r against %r' % (i, x, y)
        if not isinstance(x, float):
            if x != y:
                return False, 'item %d: %r against %r' % (i, x, y)
            continue
        if math.isnan(x) or math.isnan(y):
            if math.isnan(x) and math.isnan(y):
                continue
            return False, 'item %d: %r against %r' % (i, x, y)
        if math.isinf(x) or math.isinf(y):
            if x == y:
                continue
            return False, 'item %d: %r against %r' % (i, x, y)
        d = abs(x - y)
        if d > rtol * scale + atol:
            return False, 'item %d: %.12g against %.12g' % (i, x, y)
        worst = max(worst, d / (scale or 1))
    return True, worst
