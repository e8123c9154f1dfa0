"""Shapes, refusals, reproducibility and use of the random generator of every
synthesis function on a grid of parameters, valid and invalid."""
import itertools
import math

import numpy as np

from .. import engine
from . import c26

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'fgn, fbm, mrw, mrw_cumul: 12 lengths x 4 shapes x 11 values of H '
             '(valid, limits, invalid) x 3 methods (one unknown) x 5 integral '
             'scales (one too long) x noise given or drawn; every ordered '
             'pair of 8 calls under the same generator state',
    'thorough': '40 lengths; every ordered triple of calls',
}
RULE = ('a state is the function and its parameters (sequence of calls); '
        'non-trivial: drawn noise, several realisations')
HS = [-0.5, -1e-6, 0, 0.01, 0.3, 0.5, 0.8, 0.99, 1, 1.0001, 2]


def cases(tier):
    ns = [2, 3, 4, 5, 8, 17, 32, 64, 100, 300, 1025, 5000] if tier == \
        'quick' else [*range(2, 40), 64, 100, 300, 513, 1025, 5000, 70001]
    for n in ns:
        for f in ('fgn', 'fbm', 'mrw', 'mrw_cumul'):
            yield dict(t='grid', n=n, f=f)
    names = list(calls(0))
    for a in names:
        if tier == 'quick':
            yield dict(t='history', first=[a], depth=2)
        else:
            for b in names:
                yield dict(t='history', first=[a, b], depth=3)
    for f in ('fgn', 'fbm', 'mrw', 'mrw_cumul'):
        for method in ('cme', 'chol'):
            yield dict(t='independent', f=f, method=method)


def check(case, ctx):
    globals()[case['t']](case, ctx)


def grid(case, ctx):
    from pymultifracs import simul
    n, name = case['n'], case['f']
    f = getattr(simul, name)
    walk = name.startswith('mrw')
    scales = [1, 2, n / 2, n, n + 1] if walk else [None]
    shapes = [n, (n, 1), (n, 2), (n, 3)]
    for shape, H, method, L, sigma in itertools.product(
            shapes if n <= 100 else shapes[::3],
            HS if n <= 100 else [-0.5, 0.3, 0.8], (None, 'cme', 'chol', 'nope'),
            scales, (1, 0.5)):
        if method == 'chol' and n > 300:
            continue
        # shape of the arguments
        if name == 'mrw':
            args = (shape, H, 0.3, L)
        elif name == 'mrw_cumul':
            args = (shape, H + 0.09, -0.09, L)
        else:
            args = (shape, H)
        kw = dict(sigma=sigma)
        if method:
            kw['method'] = method
        real_H = H if name != 'mrw_cumul' else (H + 0.09) - 0.09
        bad = not 0 <= real_H <= 1 or method == 'nope' or \
            (L is not None and L > n)
        ctx.state(name, repr(shape), H, method, L, sigma)
        if bad:
            if abs(real_H) < 1e-12 or abs(real_H - 1) < 1e-12:
                if method != 'nope' and not (L is not None and L > n):
                    ctx.skipped += 1        # at the limit by rounding
                    continue
            ctx.raises('invalid', ValueError, lambda: f(*args, **kw))
            continue
        if method == 'chol' and (H in (0, 1) or abs(real_H - H) > 0
                                 and H in (0, 1) or (walk and L <= 1)):
            ctx.skipped += 1                # the covariance is singular
            continue
        np.random.seed(3)
        x = f(*args, **kw)
        ctx.trace()
        R = 1 if isinstance(shape, int) else shape[1]
        ctx.equal('shape', np.shape(x),
                  (n,) if isinstance(shape, int) else shape)
        ctx.true('finite', np.all(np.isfinite(x)), f'{args} {kw}')
        np.random.seed(3)
        again = f(*args, **kw)
        ctx.true('reproducible', np.array_equal(x, again), f'{args} {kw}')
        if 0 < H < 1:
            cols = np.reshape(x, (n, R))
            for a, b in itertools.combinations(range(R), 2):
                ctx.true('realisations', not np.allclose(
                    np.abs(cols[:, a]), np.abs(cols[:, b])),
                    f'{a} and {b} are the same')
        ctx.outcome(x)
        # noise given: no other is drawn, and it decides
        m = method or 'cme'
        z = c26.mix(n, m, R)
        z2 = c26.mix(n, m, R + 1)[:, 1:] if walk else None
        z0 = (z, z2) if walk else z
        before = [np.array(z), np.array(z2)]
        s = state()
        a = f(*args, z0=z0, **kw)
        ctx.true('draws nothing', s == state(), f'{args} {kw}')
        np.random.seed(77)
        b = f(*args, z0=z0, **kw)
        ctx.true('decided by the noise', np.array_equal(a, b),
                 f'{args} {kw}')
        ctx.equal('shape', np.shape(a),
                  (n,) if isinstance(shape, int) else shape)
        ctx.true('noise unchanged', np.array_equal(before[0], z)
                 and (z2 is None or np.array_equal(before[1], z2)))
        if walk:
            # only one of the two is given
            for part in ((z, None), (None, z2)):
                np.random.seed(5)
                a = f(*args, z0=part, **kw)
                np.random.seed(5)
                b = f(*args, z0=part, **kw)
                ctx.true('one noise given', np.array_equal(a, b)
                         and np.all(np.isfinite(a)), f'{args} {kw}')
                ctx.trace()


def state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:]


def calls(_):
    from pymultifracs import simul
    return {
        'fgn': lambda: simul.fgn(16, 0.7),
        'fgn2': lambda: simul.fgn((16, 2), 0.7, 2, 1, 'chol'),
        'fbm': lambda: simul.fbm((9, 2), 0.3),
        'mrw': lambda: simul.mrw((16, 2), 0.7, 0.2, 8),
        'mrw1': lambda: simul.mrw(16, 0.7, 0.2, 8, method='chol'),
        'cumul': lambda: simul.mrw_cumul(16, 0.7, -0.05, 8, sigma=2),
        'bad': lambda: simul.fgn(16, 1.5),
        'bad2': lambda: simul.mrw(16, 0.5, 0.1, 100),
    }


def attempt(f):
    try:
        return f()
    except ValueError:
        return 'refused'


def history(case, ctx):
    """A call depends on the generator state only, not on earlier calls"""
    fs = calls(0)
    alone = {}
    for k, f in fs.items():
        np.random.seed(11)
        alone[k] = attempt(f)
    for tail in itertools.product(fs, repeat=case['depth']
                                  - len(case['first'])):
        seq = [*case['first'], *tail]
        kept = []
        for k in seq:
            np.random.seed(11)
            got = attempt(fs[k])
            ctx.trace()
            ctx.true('history', np.array_equal(got, alone[k]), f'{seq}: {k}')
            for x, c in kept:
                ctx.true('earlier', np.array_equal(x, c), f'{seq}: {k}')
            if not isinstance(got, str):
                kept.append((got, got.copy()))
        # without setting the state again, the noise is new
        np.random.seed(11)
        a = attempt(fs[seq[0]])
        b = attempt(fs[seq[0]])
        if not isinstance(a, str):
            ctx.true('new noise', not np.allclose(a, b), f'{seq[0]}')
        else:
            ctx.equal('refused', b, a)
        ctx.state('history', seq)
    ctx.outcome('history', case['first'])


def independent(case, ctx):
    """No realisation, nor its reversal, is (nearly) a copy of another one"""
    from pymultifracs import simul
    n, R = 1024, 5
    f = getattr(simul, case['f'])
    args = {'fgn': ((n, R), 0.5), 'fbm': ((n, R), 0.5),
            'mrw': ((n, R), 0.5, 0.1, 64),
            'mrw_cumul': ((n, R), 0.51, -0.01, 64)}[case['f']]
    for seed in (0, 1, 2):
        np.random.seed(seed)
        x = f(*args, method=case['method'])
        ctx.trace()
        if case['f'] != 'fgn':
            x = np.diff(np.concatenate([np.zeros((1, R)), x]), axis=0)
        x = x / np.linalg.norm(x, axis=0)
        for a, b in itertools.combinations(range(R), 2):
            for y in (x[:, b], x[::-1, b]):
                c = np.abs(np.fft.ifft(np.fft.fft(x[:, a])
                                       * np.conj(np.fft.fft(y)))).max()
                ctx.true('independent', c < 0.35,
                         f'{a} and {b}: correlation {c}')
            # volatility too
            c = abs(np.corrcoef(np.abs(x[:, a]), np.abs(x[:, b]))[0, 1])
            ctx.true('independent volatility', c < 0.4, f'{a}, {b}: {c}')
        # of the two halves of the time, none is the copy of the other
        ctx.state('independent', case['f'], case['method'], seed)
        ctx.outcome(x[:4])
