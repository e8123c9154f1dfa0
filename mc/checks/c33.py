"""2-D MRW: fractional integral of every plane wave and unit impulse; the
covariance of the volatility from its response to every draw of the generator.
"""
import itertools

import numpy as np

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'fractional integral: N = 2..10 even (and 4 up to 64) x 6 orders, every unit '
             'impulse and every plane wave, 3 realisations; volatility: N = '
             '2, 4, 6 x every L in quarters up to N/2 x 2 lam: the response '
             'to every single draw, and of 2, 3 or 5 realisations '
             'together; walks: sizes 1..9 x 3 shapes x 5 '
             'parameters',
    'thorough': 'N up to 24, volatility up to N = 10',
}
RULE = ('a state is the size and parameters; transitions are entries of the '
        'maps; non-trivial: more than one frequency')
ORDERS = [1.0, 0.0, 0.5, 1.7, 2.0, -1.0]


def cases(tier):
    top = 10 if tier == 'quick' else 24
    for N in range(2, top + 1, 2):
        for a in ORDERS:
            yield dict(t='integral', N=N, alpha=a)
    for N in (16, 32, 34, 64):
        for a in (0.0, 0.7, 1.5):
            yield dict(t='integral', N=N, alpha=a, some=True)
    for N, k in ((8, 16), (8, 5), (16, 20), (16, 32), (20, 40)):
        yield dict(t='volatility', N=N, L=k / 4, lam=0.5)
    for N in (2, 4, 6) if tier == 'quick' else (2, 4, 6, 8, 10):
        for k in range(1, 2 * N + 1):
            for lam in (0.3, 1.0):
                yield dict(t='volatility', N=N, L=k / 4, lam=lam)
    # several realisations: independent of each other
    for N, R in [(2, 2), (2, 3), (2, 5), (4, 2), (4, 3)] + [(6, 2)] * (
            tier != 'quick'):
        for k in range(1, 2 * N + 1):
            yield dict(t='volatility', N=N, L=k / 4, lam=0.6, R=R)
    for N in (*range(1, 10), 33, 64, 127):
        for R in (None, 1, 3):
            yield dict(t='walk', N=N, R=R)


def check(case, ctx):
    globals()[case['t']](case, ctx)


def freqs(N):
    k = np.where(np.arange(N) < N / 2, np.arange(N), np.arange(N) - N)
    return k


def multiplier(N, alpha):
    k = freqs(N)
    d = np.sqrt(k[:, None] ** 2. + k[None, :] ** 2.)
    d[0, 0] = 1.0
    return d ** -alpha


def integral(case, ctx):
    from pymultifracs.simul.mrw import fract_int_2d
    N, alpha = case['N'], case['alpha']
    M = multiplier(N, alpha)
    u = np.arange(N)
    some = sorted({0, 1, 2, N // 2, N // 2 + 1, N - 1}) if case.get(
        'some') else range(N)
    for k1, k2 in itertools.product(some, repeat=2):
        ph = 2 * np.pi * (k1 * u[:, None] + k2 * u[None, :]) / N
        x = np.stack([np.cos(ph), 3 * np.cos(ph + 0.7), np.zeros((N, N))], -1)
        x0 = x.copy()
        y = fract_int_2d(x, alpha)
        ctx.trace()
        ctx.close('wave', y, x0 * M[k1, k2], rtol=1e-9, atol=1e-9)
        ctx.true('pure', np.array_equal(x, x0))
        ctx.state(N, alpha, k1, k2)
    if case.get('some'):
        e = np.zeros((N, N, 3))
        for r, (i, j) in enumerate([(0, 0), (N // 2, 1), (N - 1, N - 3)]):
            e[i, j, r] = 1
        y = fract_int_2d(e, alpha)
        kern = np.real(np.fft.ifft2(M))
        for r, (i, j) in enumerate([(0, 0), (N // 2, 1), (N - 1, N - 3)]):
            ctx.close('impulse', y[..., r],
                      np.roll(np.roll(kern, i, 0), j, 1), atol=1e-9)
        ctx.outcome(kern)
        return
    E = np.eye(N * N).reshape(N, N, N * N)
    Y = fract_int_2d(E, alpha)
    ctx.trace()
    kern = np.real(np.fft.ifft2(M))
    for i, j in itertools.product(range(N), repeat=2):
        ctx.close('impulse', Y[..., i * N + j],
                  np.roll(np.roll(kern, i, 0), j, 1), rtol=1e-9, atol=1e-9)
    ctx.step(E.size)
    ctx.outcome(kern)


class Stream:
    """numpy.random.randn and its like, from a given stream of values"""
    NAMES = ('randn', 'standard_normal', 'normal')

    def __init__(self, at=None, eps=0.0):
        self.n = 0
        self.at, self.eps = at, eps

    def draw(self, shape):
        m = int(np.prod(shape))
        i = np.arange(self.n, self.n + m)
        self.n += m
        v = 1.3 + np.cos(i * 1.7) * 0.6 + (i % 5) * 0.1
        if self.at is not None:
            v[i == self.at] += self.eps
        return v.reshape(shape)

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in self.NAMES}
        np.random.randn = lambda *s: self.draw(s)
        np.random.standard_normal = lambda size=None: self.draw(
            (size,) if isinstance(size, int) else size or ())
        np.random.normal = lambda loc=0., scale=1., size=None: \
            loc + scale * self.draw((size,) if isinstance(size, int)
                                    else size or ())
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(np.random, k, f)


def volatility(case, ctx):
    """X / (X with lam = 0) is exp(w), w linear in the stream of draws"""
    from pymultifracs.simul.mrw import mrw2D
    N, L, lam = case['N'], case['L'], case['lam']
    R = case.get('R', 1)

    def flat(a):
        """realisations first"""
        return np.moveaxis(a, -1, 0).ravel()

    def w(at=None, eps=0.0):
        with Stream(at, eps) as s:
            a = mrw2D((N, R), 0.6, lam, L)[1]
        with Stream(at, eps):
            b = mrw2D((N, R), 0.6, 0.0, L)[1]
        ctx.trace(2)
        return flat(np.log(a / b)), s.n, flat(b)
    base, draws, noise = w()
    ctx.true('draws', draws >= 2 * N * N * R, f'{draws} draws')
    cols, white = [], []
    for i in range(draws):
        c, _, b = w(i, 0.5)
        cols.append((c - base) / 0.5)
        white.append((b - noise) / 0.5)
    # white noise: independent, of variance 1
    B = np.array(white).T
    A = np.array(cols).T
    ctx.close('white', B @ B.T, np.eye(N * N * R), atol=1e-9)
    ctx.close('independent', B @ A.T, np.zeros((N * N * R,) * 2), atol=1e-9)
    cov = A @ A.T
    k = freqs(N)
    d = np.sqrt(k[:, None] ** 2. + k[None, :] ** 2.)
    c = lam ** 2 * np.log(np.maximum(L / (1 + d), 1))
    m = N * N
    ctx.close('realisations', np.where(np.kron(np.eye(R), np.ones((m, m))),
                                       0, cov), np.zeros_like(cov), atol=1e-9)
    if np.real(np.fft.fft2(c)).min() < -1e-12:
        ctx.skipped += 1
        return
    want = np.array([[c[(i - p) % N, (j - q) % N]
                      for p in range(N) for q in range(N)]
                     for i in range(N) for j in range(N)])
    ctx.close('covariance', cov, np.kron(np.eye(R), want), rtol=1e-7,
              atol=1e-8)
    ctx.close('offset', base, A @ Stream().draw((draws,)),
              rtol=1e-6, atol=1e-7)
    ctx.step(A.size)
    ctx.state(N, L, lam, R)
    ctx.outcome(np.round(cov, 6))


def walk(case, ctx):
    from pymultifracs.simul.mrw import fract_int_2d, mrw2D
    N, R = case['N'], case['R']
    M = N + N % 2
    for H, lam, L in ((0.5, 0.2, 1), (0.8, 0.0, 2), (0.1, 0.5, M / 2),
                      (0.3, 0.1, M), (1.0, 0.3, 0.5)):
        np.random.seed(N)
        B, X = mrw2D(N if R is None else (N, R), H, lam, L)
        ctx.trace()
        ctx.equal('shape', (B.shape, X.shape), ((M, M, R or 1),) * 2)
        ctx.true('finite', np.isfinite(B).all() and np.isfinite(X).all())
        ctx.close('integral', B, fract_int_2d(X.copy(), H + 1), rtol=1e-9,
                  atol=1e-12)
        np.random.seed(N)
        again = mrw2D(N if R is None else (N, R), H, lam, L)
        ctx.true('reproducible', np.array_equal(again[1], X))
        if R == 3:
            ctx.true('realisations differ', not np.allclose(
                X[..., 0], X[..., 1]) and not np.allclose(X[..., 1],
                                                          X[..., 2]))
        np.random.seed(N)
        X0 = mrw2D(N if R is None else (N, R), H, 0.0, L)[1]
        with np.errstate(all='ignore'):
            ctx.true('signs', (X0 * X >= 0).all(),
                     'the volatility is not positive')
        ctx.state(N, R, H, lam, L)
        ctx.outcome(X.shape, H)
