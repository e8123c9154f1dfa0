"""Skewed random walks: the convolution with every unit vector of noise, and
the noise recovered from the walks themselves."""
import itertools

import numpy as np

from .c33 import Stream

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'convolution: every half length 1..32, 48, 64 x 5 (K0, alpha) x 4 '
             '(dt, beta): every unit vector; impulses in 7 lengths up to 4100; '
             'skewed_mrw: 10 lengths x 3 '
             'numbers of realisations x 6 parameters x 2 generator states; '
             'volatility: 6 lengths x 4 steps x 4 scales, the response to '
             'every draw',
    'thorough': 'half lengths 1..96',
}
RULE = ('a state is the length and the kernel parameters; transitions are '
        'entries of the kernel matrix; non-trivial: more than one lag')
KER = [(1, 1), (0.3, 0.5), (2, 2), (-1, 1.5), (0.1, 0)]
STEP = [(1, 1), (0.5, 1), (0.5, 2), (2, 0.5)]


def cases(tier):
    for n in ([*range(1, 33), 48, 64] if tier == 'quick' else range(1, 97)):
        yield dict(t='conv', n=n)
    for n in (100, 257, 513, 1000, 1025, 2049, 4100):
        yield dict(t='long', n=n)
    for n in (4, 5, 8, 16, 33, 64) if tier == 'quick' else (
            *range(4, 20), 33, 64, 100):
        for dt in (1, 0.5, 2, 0.3):
            for L in (1, 2, 3, 3.5):
                if L / dt <= n and L >= dt:
                    yield dict(t='volatility', n=n, dt=dt, L=L)
    for n, R, k in itertools.product((4, 5, 8, 9, 16, 25, 32, 40, 128,
                                      300), (None, 1, 3),
                                     range(6)):
        yield dict(t='walk', n=n, R=R, k=k)


def kernel(n, K0, alpha, beta, dt):
    """(n, 2n): from the noise of both halves to the second"""
    A = np.zeros((n, 2 * n))
    for t in range(n):
        for lag in range(1, n + 1):
            A[t, n + t - lag] = K0 / (lag ** alpha * dt ** beta)
    return A


def check(case, ctx):
    globals()[case['t']](case, ctx)


def volatility(case, ctx):
    """Without skewness: the increments over those with lam = 0 are exp(w),
    w affine in the draws"""
    from pymultifracs.simul.mrw import skewed_mrw
    n, dt, L = case['n'], case['dt'], case['L']
    k = np.arange(n)
    for lam in (0.2, 0.7):
        c = lam ** 2 * np.log(np.maximum(L / ((k + 1) * dt), 1))
        if np.real(np.fft.fft(np.concatenate([c, c[-2:0:-1]]))).min() < 1e-12:
            ctx.skipped += 1
            continue

        def w(at=None, eps=0.0):
            out = []
            for la in (lam, 0.0):
                with Stream(at, eps) as s:
                    x = skewed_mrw((n, 1), 0.6, la, L, K0=0, dt=dt)[:, 0]
                out.append(np.diff(np.concatenate([[0.0], x])))
            ctx.trace(2)
            return np.log(out[0] / out[1]), s.n
        base, draws = w()
        A = np.array([(w(i, 0.5)[0] - base) / 0.5 for i in range(draws)]).T
        P = np.eye(n) - 1.0 / n
        C = np.array([[c[abs(i - j)] for j in range(n)] for i in range(n)])
        ctx.close('volatility covariance', A @ A.T, P @ C @ P, rtol=1e-6,
                  atol=1e-7)
        ctx.close('volatility mean', base.mean(), -lam ** 2 * np.log(L / dt),
                  rtol=1e-6, atol=1e-7)
        ctx.step(A.size)
        ctx.state('volatility', n, dt, L, lam)
        ctx.outcome(np.round(A @ A.T, 6))


def conv(case, ctx):
    from pymultifracs.simul.mrw import skewness_convolution, \
        skewness_convolution_dumb
    n = case['n']
    for (K0, alpha), (dt, beta) in itertools.product(KER, STEP):
        want = kernel(n, K0, alpha, beta, dt)
        e = np.eye(2 * n)
        A = skewness_convolution(e, K0, alpha, beta, dt)
        ctx.trace()
        ctx.true('pure', np.array_equal(e, np.eye(2 * n)))
        at = 1e-10 * np.abs(want).max()
        ctx.close('kernel', A, want, atol=at)
        ctx.step(A.size)
        # causal: nothing from the same time or later
        ctx.close('causal', np.triu(A[:, n:]), np.zeros((n, n)), atol=at)
        y = np.cos(np.arange(2 * n * 3).reshape(2 * n, 3) * 1.3 + 1)
        ctx.close('linear', skewness_convolution(y, K0, alpha, beta, dt),
                  want @ y, atol=at * n)
        y[:n] = 0
        ctx.close('direct', skewness_convolution(y, K0, alpha, beta, dt),
                  skewness_convolution_dumb(y[n:], K0, alpha, beta, dt),
                  atol=at * n)
        D = skewness_convolution_dumb(np.eye(n), K0, alpha, beta, dt)
        ctx.close('direct kernel', D, want[:, n:], atol=at)
        if (dt, beta) == (1, 1):
            ctx.close('default', skewness_convolution(y, K0, alpha),
                      want @ y, atol=at * n)
        ctx.state(n, K0, alpha, dt, beta)
        ctx.outcome(A)


def long(case, ctx):
    """Long memory: impulses at the ends and about powers of two"""
    from pymultifracs.simul.mrw import skewness_convolution
    n = case['n']
    at = sorted({p for k in range(13) for p in (
        2 ** k - 1, 2 ** k, n - 2 ** k, n + 2 ** k, 2 * n - 2 ** k,
        2 * n - 1) if 0 <= p < 2 * n} | {0, n - 1, n})
    e = np.zeros((2 * n, len(at)))
    e[at, range(len(at))] = 1.0
    lag = np.arange(n, 2 * n)[:, None] - np.array(at)[None, :]
    for (K0, alpha), (dt, beta) in itertools.product(KER, STEP):
        got = skewness_convolution(e, K0, alpha, beta, dt)
        want = np.where((lag >= 1) & (lag <= n),
                        K0 / np.maximum(lag, 1.0) ** alpha / dt ** beta, 0)
        ctx.trace()
        ctx.close('long', got, want, atol=1e-10 * np.abs(want).max())
        ctx.step(want.size)
        ctx.state('long', n, K0, alpha, dt, beta)
    ctx.outcome(n)


def walk(case, ctx):
    from pymultifracs.simul.mrw import skewed_mrw
    n, R = case['n'], case['R']
    H, lam, L, sigma, dt = [(0.5, 0.2, 4, 1, 1), (0.7, 0.1, 2, 2, 1),
                            (0.3, 0.4, 4, 1, 1), (0.5, 0.0, 3, 1, 1),
                            (0.8, 0.3, 1, 0.5, 0.5), (0.6, 0.2, 4, 3, 2)
                            ][case['k']]
    shape = n if R is None else (n, R)
    cols = R or 1

    def increments(x):
        ctx.equal('shape', x.shape, (n,) if R is None else (n, R))
        x = x.reshape(n, cols)
        return np.diff(np.concatenate([np.zeros((1, cols)), x]), axis=0)

    for seed in (1, 2):
        def run(K0, alpha=1, beta=1, mirror=False):
            np.random.seed(seed)
            r = skewed_mrw(shape, H, lam, L, K0=K0, alpha=alpha, sigma=sigma,
                           dt=dt, beta=beta, do_mirror=mirror)
            ctx.trace()
            return [increments(v) for v in r] if mirror else increments(r)

        base = run(0)
        if not ctx.true('finite', np.all(np.isfinite(base))):
            continue
        scale = sigma * max(dt ** H, 1e-3)
        ok = np.abs(base) > 1e-4 * scale
        k0 = 0.02 / scale        # small: the increments stay comparable

        def past(alpha, beta=1):
            """sum of K0 / (lag^alpha dt^beta) e, from the walks"""
            p = np.full(base.shape, np.nan)
            a = run(k0, alpha, beta)
            p[ok] = np.log(base[ok] / a[ok])
            return p / k0
        # the noise, from the nearest lag and from equal lags
        near = past(60.0) * dt               # e(t - 1)
        total = past(0) * dt                # sum over the n last
        e = np.full((2 * n, cols), np.nan)
        e[n - 1:2 * n - 1] = near
        for t in range(n - 1):
            e[t] = e[t + n] - (total[t + 1] - total[t])
        for alpha, beta in ((1, 1), (0.5, 2), (2, 0)):
            got = past(alpha, beta)
            A = kernel(n, 1, alpha, beta, dt)
            want = A @ np.nan_to_num(e)
            usable = ~np.isnan(got) & ((A != 0) @ np.isnan(e) == 0)
            ctx.true('usable', usable.all() or not ok.all())
            ctx.close('past', np.where(usable, got, 0),
                      np.where(usable, want, 0), rtol=1e-4,
                      atol=1e-4 * scale)
        # the mirror
        a, b = run(k0, 1, 1, True)
        ctx.close('first of both', a, run(k0, 1, 1), rtol=1e-12, atol=0)
        ctx.close('mirror', -a * b, base ** 2, rtol=1e-6,
                  atol=1e-8 * scale ** 2)
        a0, b0 = run(0, 1, 1, True)
        ctx.close('mirror without skewness', b0, -a0, rtol=1e-9, atol=1e-12)
        # the volatility has sample mean -lam^2 log(L / dt): the same draws
        # with lam = 0 leave the noise alone
        np.random.seed(seed)
        alone = increments(skewed_mrw(shape, H, 0.0, L, K0=0, sigma=sigma,
                                      dt=dt))
        with np.errstate(all='ignore'):
            w = np.log(base / alone)
        if ok.all() and np.isfinite(w).all():
            ctx.close('volatility mean', w.mean(axis=0),
                      np.full(cols, -lam ** 2 * np.log(L / dt)), rtol=1e-6,
                      atol=1e-7)
        if (sigma, dt) == (1, 1):
            np.random.seed(seed)
            ctx.close('defaults', increments(skewed_mrw(shape, H, lam, L)),
                      run(1, 1, 1), rtol=1e-10, atol=1e-12)
        if lam == 0:
            # then the walk without skewness is the noise
            ctx.close('noise', np.where(np.isnan(e[n:]), 0, base)[:-1],
                      np.where(np.isnan(e[n:]), 0, e[n:])[:-1], rtol=1e-4,
                      atol=1e-4 * scale)
        ctx.state(n, R, case['k'], seed)
        ctx.outcome(base)
    for bad in (dict(H=-0.1), dict(H=1.1), dict(L=n * dt + dt)):
        p = dict(H=H, lam=lam, L=L, dt=dt)
        p.update(bad)
        ctx.raises('invalid', ValueError, lambda: skewed_mrw(shape, **p))
