"""build_q_log on a grid of bounds and counts; fast_power on every short array
over an alphabet of values and every exponent of a list, in every type."""
import itertools
import math

import numpy as np

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'grids: 12 x 12 bounds x n = 0..12, 13 x 13 bounds from 1e-300 to '
             '1e150 x n = 0..7, 5 non-positive bounds in '
             'each position; powers: every array of 1..3 entries over 6 '
             'values, shapes (n,), (n,1), (1,n), 56 exponents in up to 4 types',
    'thorough': 'n = 0..40, 20 x 20 bounds; arrays of up to 4 entries over 8 '
                'values, exponents -13..13 by eighths',
}
RULE = ('a state is the pair (array, exponent) or (bounds, n); non-trivial: '
        'at least one entry')
VALUES = [2.0, np.nan, 0.0, 0.375, -1.5, 1.0, 7.25, 1e-3]
ENDS = [0.01, 0.05, 0.1, 0.25, 0.5, 1, 1.5, 2.0, 3, 5.0, 10, 20.0, 0.02, 0.3,
        0.7, 0.9, 4, 6.5, 8, 15.0]


def cases(tier):
    quick = tier == 'quick'
    ends = ENDS[:12] if quick else ENDS
    for a in ends:
        yield dict(t='grid', a=a, ends=ends, top=12 if quick else 40)
    far = [1e-300, 1e-20, 1e-14, 3e-13, 1e-11, 1e-9, 1e-6, 1, 1e3, 1e6, 1e9,
           1e15, 1e150]
    for a in far:
        yield dict(t='grid', a=a, ends=far, top=7 if quick else 20)
    for bad in (0, -1, -0.5, 0.0, -20):
        yield dict(t='bad', bad=bad, ends=ends)
    qs = sorted({k / 4 for k in range(-20, 21)} | set(range(-12, 13))) \
        if quick else [k / 8 for k in range(-104, 105)]
    values = 6 if quick else 8
    for q in qs:
        yield dict(t='power', q=q, n=3 if quick else 4, values=values)


def check(case, ctx):
    globals()[case['t']](case, ctx)


def grid(case, ctx):
    from pymultifracs.utils import build_q_log
    a = case['a']
    for b in case['ends']:
        for n in range(case['top'] + 1):
            got = np.asarray(build_q_log(a, b, n))
            ctx.trace()
            pos = [] if n == 0 else [float(a)] if n == 1 else [
                math.exp(math.log(a) + i / (n - 1)
                         * (math.log(b) - math.log(a))) for i in range(n)]
            full = sorted([s * v for v in pos for s in (1, -1)]
                          + [-2., -1., 0., 1., 2.])
            if not ctx.true('grid:increasing', got.ndim == 1
                            and (np.diff(got) > 0).all(), f'{got}'):
                continue
            # the same set, up to rounding: each wanted value is there, and
            # nothing else
            ctx.true('grid:complete', all(
                np.isclose(got, v, rtol=1e-9, atol=0).any()
                for v in full), f'({a}, {b}, {n}): {got}, expected {full}')
            ctx.true('grid:only', all(
                np.isclose(full, v, rtol=1e-9, atol=0).any()
                for v in got), f'({a}, {b}, {n}): {got}, expected {full}')
            ctx.true('grid:symmetric', np.array_equal(got, -got[::-1]),
                     f'{got}')
            ctx.true('grid:exact', all((got == v).sum() == 1
                                       for v in (-2, -1, 0, 1, 2)), f'{got}')
            ctx.state('grid', a, b, n)
            ctx.outcome('grid', got)


def bad(case, ctx):
    from pymultifracs.utils import build_q_log
    b = case['bad']
    for e in case['ends'] + [b, -3]:
        for n in (0, 1, 5):
            for args in ((b, e, n), (e, b, n)):
                ctx.raises('grid:refused', ValueError,
                           lambda: build_q_log(*args))
                ctx.trace()
                ctx.state('bad', args)


def model(a, q):
    if math.isnan(a):
        return math.nan
    if q == 0:
        return 1.0
    if a == 0:
        return 0.0 if q > 0 else math.inf
    if a < 0 and q != int(q):
        return math.nan
    return math.pow(a, q)


def power(case, ctx):
    from pymultifracs.utils import fast_power
    q = case['q']
    forms = [q if isinstance(q, float) else float(q), np.float64(q),
             np.float32(q)]
    if q == int(q):
        forms += [int(q), np.int64(q)]
    for n in range(1, case['n'] + 1):
        for vals in itertools.product(VALUES[:case['values']], repeat=n):
            want = np.array([model(v, float(q)) for v in vals])
            for shape in ((n,), (n, 1), (1, n)):
                a = np.array(vals).reshape(shape)
                a0 = a.copy()
                for f in forms:
                    with np.errstate(all='ignore'):
                        got = fast_power(a, f)
                    ctx.trace()
                    # the sign of an infinite power of zero is that of zero
                    ctx.close('power', got, want.reshape(shape), rtol=1e-9,
                              atol=0)
                ctx.true('power:input', a.tobytes() == a0.tobytes(),
                         'the array given was changed')
            ctx.state('power', q, repr(vals))
            ctx.outcome('power', want)
