"""Multifractal random walk: the log-volatility is recovered from the walk for
every unit vector of its noise, for every small length and integral scale."""
import itertools
import math

import numpy as np

from . import c26

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every length 3..24 and 48, every integer integral scale up to '
             'it (and non-integer ones), 4 (H, lam, sigma) (13 for two '
             'lengths), both methods: '
             'every unit vector of the noise of the volatility; mrw_cumul on '
             '6 (c1, c2); 5 lengths up to 512',
    'thorough': 'every length 3..48, 64, 100',
}
RULE = ('a state is the length, the integral scale and the parameters; '
        'transitions are entries of covariance matrices; non-trivial: lam > 0 '
        'and more than one lag below the integral scale')
PAR = [(0.5, 0.3, 1), (0.8, 0.1, 2), (0.3, 0.7, 0.5), (0.65, 0.2, 1)]
# weak and strong intermittency, extreme regularity
MORE = [(0.5, 0.09, 1), (0.5, 0.05, 1), (0.7, 0.01, 1), (0.7, 1e-3, 1),
        (0.6, 1.0, 1), (0.99, 0.3, 1), (0.01, 0.3, 1), (0.5, 0.3, 1e3),
        (0.5, 0.3, 1e-3)]


def cases(tier):
    big = tier != 'quick'
    for n in ([*range(3, 25), 48] if not big else [*range(3, 49), 64, 100]):
        scales = list(range(1, n + 1)) if n <= 48 else [2, 7, 20, n]
        for L in scales + [n - 0.5, n / 2 + 0.25]:
            for method in ('cme', 'chol'):
                yield dict(n=n, L=L, method=method)
    for n in (100, 129, 256, 300, 512):
        for L in (5, n // 2, n):
            for method in ('cme', 'chol'):
                if method == 'cme' or n < 300:
                    yield dict(n=n, L=L, method=method, par=2)


def cov_w(n, L, lam):
    k = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :]) + 1.0
    return lam ** 2 * np.maximum(np.log(L / k), 0)


def check(case, ctx):
    from pymultifracs.simul import fbm, fgn, mrw, mrw_cumul
    n, L, method = case['n'], case['L'], case['method']
    zw = c26.basis(n, method)
    m = zw.shape[1]
    ze = c26.mix(n, method, 1)
    E = np.tile(ze, (1, m))
    for H, lam, sigma in PAR[:case.get('par')] + (MORE if n in (6, 24) else []):
        if method == 'chol' and L <= 1:
            ctx.skipped += 1               # singular covariance
            continue
        kw = dict(sigma=sigma, method=method)
        args = ((n, m), H, lam, L)
        X = mrw(*args, z0=(E, zw), **kw)
        ctx.trace()
        ctx.equal('shape', X.shape, (n, m))
        e = fgn((n, m), H, sigma, method=method, z0=E)
        inc = np.diff(np.concatenate([np.zeros((1, m)), X]), axis=0)
        ok = np.abs(e[:, 0]) > 1e-3 * np.abs(e).max()
        ratio = inc[ok] / e[ok]
        if not ctx.true('sign', np.all(ratio > 0),
                        'increments do not have the sign of the noise'):
            continue
        w = np.log(ratio)
        shift = -lam ** 2 / 2 * math.log(L)
        centred = w - shift
        P = np.eye(n) - 1.0 / n
        C = (P @ cov_w(n, L, lam) @ P)[np.ix_(ok, ok)]
        ctx.close('covariance of w', centred @ centred.T, C, rtol=1e-6,
                  atol=1e-7 * lam ** 2 * (1 + math.log(L)))
        ctx.step(n * n)
        if ok.all():
            ctx.close('mean of w', w.mean(axis=0), np.full(m, shift),
                      atol=1e-8)
        # each realisation on its own, any noise
        yw, ye = c26.mix(n, method, 3), c26.mix(n, method, 4)[:, 1:]
        got = mrw((n, 3), H, lam, L, z0=(ye, yw), **kw)
        for r in range(3):
            one = mrw((n, 1), H, lam, L, z0=(ye[:, r:r + 1], yw[:, r:r + 1]),
                      **kw)
            ctx.close('alone', one[:, 0], got[:, r], atol=1e-9 * sigma)
            s = mrw(n, H, lam, L, z0=(ye[:, r:r + 1], yw[:, r:r + 1]), **kw)
            ctx.equal('1d', s.shape, (n,))
            ctx.close('1d', s, got[:, r], atol=1e-9 * sigma)
        # the map to w is linear: its value on another noise
        if ok.all():
            A = centred
            e3 = fgn((n, 3), H, sigma, method=method, z0=ye)
            want = np.cumsum(e3 * np.exp(A @ c26.coords(yw, method) + shift),
                             axis=0)
            ctx.close('value', got, want, rtol=1e-6,
                      atol=1e-6 * np.abs(want).max())
        if method == 'cme':
            ctx.close('lam=0', mrw((n, 3), H, 0, L, z0=(ye, yw), **kw),
                      fbm((n, 3), H, sigma, method=method, z0=ye),
                      atol=1e-9 * sigma)
        ctx.state(n, L, method, H, lam, sigma)
        ctx.outcome(np.round(C, 8))
    for c1, c2 in ((0.7, -0.05), (0.5, -0.1), (0.9, -0.3), (0.6, -0.01),
                   (0.4, -0.2), (1.0, -0.5)):
        if method == 'chol' and L <= 1:
            continue
        yw, ye = c26.mix(n, method, 2), c26.mix(n, method, 3)[:, 1:]
        for kw in (dict(sigma=2, method=method, z0=(ye, yw)),
                   dict(z0=(ye, yw), method=method)):
            a = mrw_cumul((n, 2), c1, c2, L, **kw)
            b = mrw((n, 2), c1 + c2, math.sqrt(-c2), L, **kw)
            ctx.trace()
            ctx.close('mrw_cumul', a, b, rtol=1e-9, atol=1e-12)
        ctx.state('cumul', n, L, method, c1, c2)
