"""The bivariate Legendre surface on every combination of log-cumulants of a
grid and every support and resolution, against the quadratic form and its
variational definition."""
import itertools

import numpy as np

from .. import bi, lib

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every combination of c10, c01 (3 values), c20, c02 (3 values), '
             'c11 (5 values) with negative definite matrix x 4 supports x 4 '
             'resolutions, and 100 and 129; 6 other pairs (c20, c02), definite '
             'or not',
    'thorough': 'the same with 5 x 5 x 4 x 4 x 7 values, 8 supports and 6 '
                'resolutions',
}
RULE = ('a state is the log-cumulants, the support and the resolution; '
        'non-trivial: c11 is not zero and c10 differs from c01')
SUPPORT = [(0, 1.5), (0.5, 0.9), (-1, 2), (0.25, 0.25 + 1 / 8),
           (-0.5, 0.5), (0, 1), (1, 0), (2, 3)]
RES = [5, 1, 2, 12, 30, 7]


def cases(tier):
    big = tier != 'quick'
    c1 = (0.3, 0.8, -0.2, 0.5, 1.2)[:5 if big else 3]
    c2 = (-0.05, -0.2, -0.6, -0.01)[:4 if big else 3]
    # any invertible matrix; weak log-cumulants
    for c20, c02 in ((0.2, 0.3), (-0.1, 0.2), (0.05, -0.3), (-1e-3, -2e-3),
                     (-1e-4, -0.1), (-2., -3.)):
        yield dict(c=[0.7, 0.4, c20, c02], big=big)
    for c10, c01, c20, c02 in itertools.product(c1, c1, c2, c2):
        yield dict(c=[c10, c01, c20, c02], big=big)


def check(case, ctx):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    c10, c01, c20, c02 = case['c']
    definite = min(-c20, -c02) > 0
    g = np.sqrt(abs(c20 * c02))
    fr = (0, 0.5, -0.5, 0.9, -0.9, 0.2, -0.7)[:7 if case['big'] else 5]
    for f in fr:
        c11 = f * g
        v1, v2 = bi.prescribed(c10, c01, c20, c11, c02)
        fo = 'wavelet leader'
        cm = BiCumulants(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                         n_cumul=2, j1=1, j2=4, weighted=False)
        before = np.array(cm.log_cumulants)
        K = np.array([[c20, c11], [c11, c02]])
        Ki = np.linalg.inv(K)
        c = np.array([c10, c01])
        for sup, res in [*itertools.product(
                SUPPORT[:8 if case['big'] else 4],
                RES[:6 if case['big'] else 4]),
                *([((0, 1.5), 100), ((-.2, 1.), 129)] if f == 0.5 else [])]:
            h, L = cm.compute_legendre(sup, res)
            ctx.trace()
            want_h = np.linspace(sup[0], sup[1], res)
            ctx.close('support', h, want_h, atol=1e-12)
            d = np.stack(np.meshgrid(want_h, want_h, indexing='ij'), -1) - c
            want = 1 + 0.5 * np.einsum('abi,ij,abj->ab', d, Ki, d)
            ctx.close('surface', L, want, rtol=1e-6, atol=1e-6 + 1e-9 * abs(
                want).max())
            if not definite:
                ctx.state(case['c'], f, sup, res)
                continue
            ctx.true('maximum', np.nanmax(L) <= 1 + 1e-9, f'{np.nanmax(L)}')
            if res <= 5:
                # min over q of 1 + q.h - zeta(q), zeta = c.q + q'Kq/2,
                # explored on a grid of q around the stationary point
                for i, j in itertools.product(range(res), repeat=2):
                    q0 = Ki @ d[i, j]
                    val = [1 + q @ d[i, j] - 0.5 * q @ K @ q
                           for q in (q0 + e for e in STEPS)]
                    ctx.true('variational', abs(min(val) - want[i, j]) < 1e-9
                             and val[0] == min(val))
            ctx.state(case['c'], f, sup, res)
            ctx.outcome(L)
        h, L = cm.compute_legendre(resolution=4)
        ctx.close('default support', h, np.linspace(0, 1.5, 4), atol=1e-12)
        ctx.equal('default resolution', np.shape(cm.compute_legendre()[1]),
                  (100, 100))
        h, L = cm.compute_legendre((c10, c10 + 1), 2)
        ctx.true('pure', np.array_equal(before, cm.log_cumulants))
        # the maximum, at h = c
        m = cm.compute_legendre((c10, c01), 2)[1]
        ctx.close('peak', m[0, 1], 1.0, rtol=1e-7)


STEPS = [np.zeros(2)] + [np.array(e) for e in itertools.product(
    (-1., -.1, 0, .1, 1.), repeat=2) if any(e)]
