"""Covariance of the synthesised noises: the whole linear map from the Gaussian
noise is obtained by feeding every unit vector, for every small length."""
import itertools

import numpy as np

from .. import engine

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every length 2..40, 64, 100, both methods, 13 values of H, 3 '
             'standard deviations, 4 steps: every unit vector of the noise; '
             'for 5 lengths every ordered pair of 26 parameters, and of '
             'covariances that agree over the first lags; 15 lengths up to '
             '10001: covariances of 11 times with all, from every unit vector',
    'thorough': 'every length 2..100, 127, 128, 200, 256',
}
RULE = ('a state is the length, H, sigma, step and method; transitions are '
        'entries of the covariance matrix; non-trivial: H is not 1/2')
HS = [0.5, 0.1, 0.3, 0.7, 0.9, 0.02, 0.98, 0.25, 0.6, 0.45, 0.8, 0.01, 0.99]


def cases(tier):
    big = tier != 'quick'
    ns = [*range(2, 41), 64, 100] if not big else \
        [*range(2, 101), 127, 128, 200, 256]
    for n in ns:
        for H in HS:
            for method in ('cme', 'chol'):
                yield dict(n=n, H=H, method=method)
    for n in (127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 1025):
        for H in (0.7, 0.2) if n < 500 else (0.8,):
            for method in ('cme', 'chol'):
                yield dict(t='long', n=n, H=H, method=method)
    for n in (2048, 2500, 4097, 10001) if not big else (
            2048, 2500, 4097, 5000, 8192, 10001, 16384, 20011):
        yield dict(t='long', n=n, H=0.7 if n % 2 else 0.3, method='cme')
    for n in (2, 3, 5, 16, 20) if not big else (2, 3, 5, 16, 20, 64, 100):
        for method in ('cme', 'chol'):
            yield dict(t='sequence', n=n, method=method)
            yield dict(t='any', n=n, method=method)


def cov(n, H, sigma, dt):
    k = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :]).astype(float)
    h = 2 * H
    return sigma ** 2 * dt ** h / 2 * ((k + 1) ** h + np.abs(k - 1) ** h
                                       - 2 * k ** h)


def basis(n, method):
    """Every unit vector of the noise, as realisations"""
    if method == 'chol':
        return np.eye(n)
    m = 2 * n - 2
    return np.concatenate([np.eye(m), 1j * np.eye(m)], axis=1)


def coords(z, method):
    return z if method == 'chol' else np.concatenate([z.real, z.imag])


def mix(n, method, R):
    rows = n if method == 'chol' else 2 * (2 * n - 2)
    c = np.cos(np.arange(rows * R).reshape(rows, R) * 1.7 + 0.3) * 2
    return c if method == 'chol' else c[:rows // 2] + 1j * c[rows // 2:]


def sequence(case, ctx):
    """Every ordered pair of parameters, one after the other"""
    from pymultifracs.simul import fgn
    n, method = case['n'], case['method']
    z = mix(n, method, 2)
    par = [(n, H, s, dt) for H in (0.7, 0.7 + 1e-7, 0.7001, 0.3)
           for s in (1, 2.5) for dt in (None, 1, 1 / n)]
    par += [(n + 1, 0.7, 1, None), (n + 1, 0.7, 1, 1 / n)]

    def run(m, H, s, dt):
        zz = z if m == n else mix(m, method, 2)
        return fgn((m, 2), H, sigma=s, dt=dt, method=method, z0=zz)

    alone = [first(run, *p) for p in par]
    for i, j in itertools.product(range(len(par)), repeat=2):
        run(*par[i])
        ctx.close('after another', run(*par[j]), alone[j], rtol=1e-9,
                  atol=1e-12)
        ctx.trace()
        ctx.state('sequence', n, method, i, j)
    ctx.outcome(alone[0])


def long(case, ctx):
    """Covariances of some times with all the others, from every unit vector
    of the noise"""
    from pymultifracs.simul import fbm, fgn
    n, H, method = case['n'], case['H'], case['method']
    kw = dict(sigma=1.5, dt=0.5, method=method)
    m = n if method == 'chol' else 2 * n - 2
    sel = sorted({0, 1, 2, 15, 16, 64, 100, n // 3, n // 2, n - 2, n - 1})
    acc = np.zeros((len(sel), n))
    mean = np.zeros((n, 3))
    y = mix(n, method, 3)
    for unit in (1,) if method == 'chol' else (1, 1j):
        for a in range(0, m, 256):
            b = min(m, a + 256)
            z = np.zeros((m, b - a), dtype=complex if method == 'cme'
                         else float)
            z[np.arange(a, b), np.arange(b - a)] = unit
            A = fgn((n, b - a), H, z0=z, **kw)
            ctx.trace(b - a)
            acc += A[sel] @ A.T
            part = y[a:b].real if unit == 1 else y[a:b].imag
            mean += A @ part
    k = np.arange(n)
    h = 2 * H
    d = np.abs(np.array(sel)[:, None] - k[None, :]).astype(float)
    want = 1.5 ** 2 * 0.5 ** h / 2 * ((d + 1) ** h + np.abs(d - 1) ** h
                                      - 2 * d ** h)
    ctx.close('covariance', acc, want, rtol=1e-6, atol=1e-8 * want[0, 0])
    ctx.close('linear', fgn((n, 3), H, z0=y, **kw), mean, atol=1e-9 * n)
    ctx.close('fbm', fbm((n, 3), H, z0=y, **kw), np.cumsum(mean, axis=0),
              atol=1e-9 * n * n)
    ctx.step(acc.size)
    ctx.state('long', n, H, method)
    ctx.outcome(np.round(want[0, :9], 9))


def first(fun, *args):
    """In a process without history"""
    ok, v = engine.in_new_process(fun, *args)
    if not ok:
        raise RuntimeError(v)
    return v


def any_cov(case, ctx):
    """Every ordered pair of covariances that agree over the first lags"""
    from pymultifracs.simul.pzutils import gaussian_chol, gaussian_cme
    n, method = case['n'], case['method']
    f = gaussian_cme if method == 'cme' else gaussian_chol
    k = np.arange(n)
    covs = [1.0 * (k == 0)]
    # white noise plus one lag, each lag; and other variances
    for lag in range(1, n):
        for c in (0.4, -0.3):
            covs.append((k == 0) + c * (k == lag))
    covs += [2 * c for c in covs[:3]] + [c + 1e-3 * (k == 0)
                                         for c in covs[1:4]]
    z = mix(n, method, 2)
    B = basis(n, method)
    alone = []
    for c in covs:
        A = first(f, c, n, B.shape[1], B)
        ctx.close('covariance', A @ A.T, c[abs(k[:, None] - k[None, :])],
                  rtol=1e-7, atol=1e-9)
        alone.append(A @ coords(z, method))
    for i, j in itertools.product(range(len(covs)), repeat=2):
        if max(i, j) > 8 and i not in (0, 1, j - 1, j + 1, j + 2, j - 2):
            continue
        for q in (i, j):
            c = covs[q].copy()
            got = f(c, n, 2, z.copy())
            ctx.close('any covariance', got, alone[q], rtol=1e-9, atol=1e-9)
            ctx.true('covariance unchanged', np.array_equal(c, covs[q]))
        ctx.trace()
        ctx.state('any', n, method, i, j)
    ctx.outcome(alone[0])


def check(case, ctx):
    if 't' in case:
        return dict(sequence=sequence, any=any_cov, long=long)[case['t']](case, ctx)
    from pymultifracs.simul import fbm, fgn
    n, H, method = case['n'], case['H'], case['method']
    z = basis(n, method)
    for sigma, dt in itertools.product((1, 2.5, 0.1), (None, 1, 0.25, 3)):
        kw = dict(sigma=sigma, dt=dt, method=method)
        step = dt or 1 / n
        z0 = z.copy()
        A = fgn((n, z.shape[1]), H, z0=z, **kw)
        ctx.trace()
        ctx.true('noise unchanged', np.array_equal(z, z0))
        ctx.equal('shape', A.shape, (n, z.shape[1]))
        ctx.true('real', np.isrealobj(A))
        want = cov(n, H, sigma, step)
        ctx.close('covariance', A @ A.T, want, rtol=1e-7,
                  atol=1e-9 * want[0, 0])
        ctx.step(n * n)
        # linear: any other noise
        y = mix(n, method, 3)
        at = 1e-10 * sigma * step ** H * n
        ctx.close('linear', fgn((n, 3), H, z0=y, **kw),
                  A @ coords(y, method), atol=at)
        ctx.close('fbm', fbm((n, 3), H, z0=y, **kw),
                  np.cumsum(A @ coords(y, method), axis=0), atol=at * n)
        if sigma == 1 and dt is None:
            one = fgn(n, H, method=method, z0=y[:, :1])
            ctx.equal('1d', one.shape, (n,))
            ctx.close('1d', one, A @ coords(y, method)[:, 0], atol=at)
            ctx.close('default', fgn((n, 3), H, method=method, z0=y),
                      A @ coords(y, method), atol=at)
        ctx.state(n, H, method, sigma, dt)
        ctx.outcome(np.round(want / want[0, 0], 9))
    if method == 'cme':
        y = mix(n, method, 2)
        ctx.close('default method', fgn((n, 2), H, z0=y),
                  fgn((n, 2), H, method='cme', z0=y), atol=1e-12)
