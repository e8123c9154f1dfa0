"""Comparisons of the estimators with the reference, for any quantity whose
values are given (scale -> (n_j, nrep), missing = nan)."""
import numpy as np

from . import ref


def _size(values):
    m = 1.0
    for v in values.values():
        a = np.abs(v[~np.isnan(v)])
        a = a[a > 0]
        if len(a):
            m = max(m, np.abs(np.log(a)).max())
    return m


def structure(ctx, key, sf, values, q, j1, j2, weighted, gamint=0.0,
              formalism=None, tol=1e-8):
    js = sorted(values)
    lg = 1.5 * _size(values)
    ctx.equal(key + ':j', [int(v) for v in sf.j], js)
    want_log = np.array([ref.stack(ref.logS(values, e), js) for e in q])
    want_val = np.array([ref.stack(ref.S(values, e), js) for e in q])
    fits = np.array([ref.fit(ref.logS(values, e), values, j1, j2, weighted)
                     for e in q])
    at = tol * lg * (1 + np.abs(np.asarray(q, dtype=float)).max())
    ctx.close(key + ':values', sf.values, want_val, rtol=max(tol, 1e-7))
    ctx.close(key + ':logvalues', sf.logvalues, want_log, rtol=tol, atol=at)
    ctx.close(key + ':zeta', sf.zeta, fits[:, 0], rtol=tol, atol=at)
    ctx.close(key + ':intercept', sf.intercept, fits[:, 1], rtol=tol,
              atol=10 * at)
    two = [i for i, e in enumerate(q) if e == 2]
    if two:
        if ctx.true(key + ':H', sf.H is not None, 'H is None'):
            ctx.close(key + ':H', sf.H, fits[two[0], 0] / 2 - gamint,
                      rtol=tol, atol=at)
        ctx.close(key + ':get_intercept', sf.get_intercept(),
                  fits[two[0], 1], rtol=tol, atol=10 * at)
    else:
        ctx.equal(key + ':H', sf.H, None)
        ctx.equal(key + ':get_intercept', sf.get_intercept(), None)
    counts(ctx, key, sf, values)
    if formalism:
        ctx.equal(key + ':formalism', sf.formalism, formalism)


def counts(ctx, key, obj, values):
    n = ref.counts(values)
    for j in values:
        ctx.true(key + ':nj', np.array_equal(obj.nj[j], n[j]),
                 f'counts at scale {j}')


def cumulants(ctx, key, cm, values, n_cumul, j1, j2, weighted, tol=1e-8):
    js = sorted(values)
    size = _size(values)
    C = ref.cumulants(values, n_cumul)
    ctx.equal(key + ':m', [int(v) for v in cm.m], list(range(1, n_cumul + 1)))
    ctx.equal(key + ':j', [int(v) for v in cm.j], js)
    R = values[js[0]].shape[1]
    ctx.equal(key + ':shape', tuple(cm.values.shape), (n_cumul, len(js), R))
    ctx.equal(key + ':lshape', tuple(cm.log_cumulants.shape), (n_cumul, R))
    for m in range(1, n_cumul + 1):
        series = {j: C[j][m - 1] for j in js}
        slope, icpt = ref.fit(series, values, j1, j2, weighted)
        # the estimator goes through raw moments
        at = 1e-12 * (2 * (1 + size)) ** m + 1e-11
        ctx.close(key + f':C{m}', cm.values[m - 1], ref.stack(series, js),
                  rtol=tol, atol=at)
        ctx.close(key + f':c{m}', cm.log_cumulants[m - 1],
                  slope * ref.LOG2E, rtol=tol, atol=4 * at)
        ctx.close(key + f':slope{m}', cm.slope[m - 1], slope, rtol=tol,
                  atol=4 * at)
        ctx.close(key + f':intercept{m}', cm.intercept[m - 1], icpt, rtol=tol,
                  atol=20 * at)
        if m <= 9:
            ctx.close(key + f':attr c{m}', np.ravel(getattr(cm, f'c{m}')),
                      slope * ref.LOG2E, rtol=tol, atol=4 * at)
            ctx.close(key + f':attr C{m}',
                      np.reshape(getattr(cm, f'C{m}'), (len(js), R)),
                      ref.stack(series, js), rtol=tol, atol=at)
        if m == 2:
            ctx.close(key + ':M', np.ravel(cm.M), -slope * ref.LOG2E,
                      rtol=tol, atol=4 * at)
    counts(ctx, key, cm, values)


def spectrum(ctx, key, sp, values, q, j1, j2, weighted, tol=1e-8):
    js = sorted(values)
    at = tol * _size(values) * (1 + np.abs(np.asarray(q, float)).max())
    for i, e in enumerate(q):
        U, V = ref.spectrum(values, e)
        ctx.close(key + ':U', np.asarray(sp.U)[:, i], ref.stack(U, js),
                  rtol=tol, atol=at)
        ctx.close(key + ':V', np.asarray(sp.V)[:, i], ref.stack(V, js),
                  rtol=tol, atol=at)
        ctx.close(key + ':Dq', sp.Dq[i],
                  1 + ref.fit(U, values, j1, j2, weighted)[0], rtol=tol,
                  atol=4 * at)
        ctx.close(key + ':hq', sp.hq[i],
                  ref.fit(V, values, j1, j2, weighted)[0], rtol=tol,
                  atol=4 * at)
    ctx.equal(key + ':len', (len(sp.Dq), len(sp.hq)), (len(q), len(q)))
    counts(ctx, key, sp, values)


# -- quantities of unusual size ---------------------------------------------

def _wave(n, j, r):
    """n values without zeros, different at each scale and realisation"""
    k = np.arange(n)
    return (np.cos(0.7 * k * (j + 1) + r) + 1.5 + 0.3 * np.sin(k * k * 0.11)) \
        * (-1.) ** (k // 2) * 1.2 ** (j * (1 + 0.2 * r))


LARGE = ['scales12', 'scales25', 'exponents', 'repeated', 'realisations',
         'long', 'powers', 'one']


def large(name):
    """values, q, ranges: many scales, exponents, realisations, values"""
    q = np.array([2., 1., 0., -1., 0.5, 3.])
    R, J, sizes = 2, 4, lambda j: 9 - j
    if name.startswith('scales'):
        J = int(name[6:])
        sizes = lambda j: 3 + (7 * j) % 5               # noqa: E731
    elif name == 'exponents':
        q = np.concatenate([np.linspace(-4, 4, 129), np.arange(-5, 6)])
    elif name == 'repeated':
        q = np.array([2., 0., 2., -1., -1., 0., 2., 1., 1.])
    elif name == 'realisations':
        R = 70
    elif name == 'long':
        J, sizes = 5, lambda j: 140001 >> j             # noqa: E731
    elif name == 'powers':
        J, sizes = 9, lambda j: [                       # noqa: E731
            1 << 16, 1 << 15, 4097, 4096, 4095, 1025, 1024, 1023, 257][j - 1]
    elif name == 'one':
        J, sizes = 3, lambda j: 1                       # noqa: E731
    values = {j: np.stack([_wave(sizes(j), j, r) for r in range(R)], axis=1)
              for j in range(1, J + 1)}
    if name != 'one':
        for j in values:
            values[j][j % len(values[j]), j % R] = np.nan
    ranges = [(1, J), (2, J), (1, J - 1)]
    if J > 9:
        ranges = [(a, b) for a in range(1, J) for b in range(a + 1, J + 1)
                  if J < 13 or a in (1, 9, 10, 11) or b in (10, 11, 20)]
    return values, q, ranges


def zeros():
    """Quantities with values that are exactly zero, not all of them"""
    for pat in range(1, 15):
        z = np.array([pat >> k & 1 for k in range(4)], bool)
        values = {j: np.array([[1.5, 0.5], [-.75, 2.], [2., -1.],
                               [-1., 0.25]]) * 0.8 ** j for j in (1, 2, 3)}
        for j in (1, 2, 3):
            if pat % 3 + 1 >= j:
                values[j][np.roll(z, j), 0] = 0.
            if pat & 1:
                values[j][0, 1] = np.nan
        yield pat, values
