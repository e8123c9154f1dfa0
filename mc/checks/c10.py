"""Regressions: every ordinate and every weight of a small alphabet at every
scale, through every estimator, against exact integer least squares."""
import itertools

import numpy as np

from .. import engine, lib, ref

LEVEL = 'model_checking'
Y = [0, 1, -2, 5]
N = [1, 2, 5]
BOUNDS = {
    'quick': 'all y in {0,1,-2,5}^J x all counts in {1,2,5}^J, J = 3 (and J = '
             '4 with 3 ordinates and 2 counts), every [j1,j2] inside, '
             'weighted or not, as realisations of one quantity, for '
             'structure function, cumulants, spectrum, hmin, Hurst and (J = '
             '3, one by one) the bivariate estimators; every pair of vectors of '
             'counts as 2 realisations; every range of 7, 9 and 12 scales and '
             'ranges of 24; counts up to 131073; two-valued scales for '
             'D(q)',
    'thorough': 'J = 4 with 4 ordinates and 3 counts, J = 5 with 3 and 2',
}
RULE = ('a state is (ordinates, counts, range, weighting); non-trivial: the '
        'points are not on a line, so the weights matter')
CHUNK = 1


def cases(tier):
    spaces = [(3, Y, N), (4, Y[:3], N[:2])]
    if tier == 'thorough':
        spaces += [(4, Y, N), (5, Y[:3], [1, 4])]
    for J, ys, ns in spaces:
        for j1 in range(1, J):
            for j2 in range(j1 + 1, J + 1):
                for weighted in (True, False):
                    yield dict(t='uni', J=J, ys=ys, ns=ns, j1=j1, j2=j2,
                               weighted=weighted)
    for j1, j2 in [(1, 3), (2, 3), (1, 2)]:
        for weighted in (True, False):
            for n in itertools.product(N, repeat=3):
                yield dict(t='bi', n=n, j1=j1, j2=j2, weighted=weighted)
            yield dict(t='two', j1=j1, j2=j2, weighted=weighted)
    # two realisations: every pair of vectors of counts
    for j1, j2 in [(1, 3), (2, 3)] if tier == 'quick' else [
            (1, 3), (2, 3), (1, 2)]:
        for weighted in (True, False):
            for n in itertools.product(N, repeat=3):
                yield dict(t='pair', J=3, n=n, j1=j1, j2=j2,
                           weighted=weighted)
    # many scales, all ranges; large counts
    for J in (7, 9, 12, 24):
        for j1 in range(1, J):
            if J < 24 or j1 in (1, 2, 8, 9, 10, 15, 20):
                for weighted in (True, False):
                    yield dict(t='many', J=J, j1=j1, weighted=weighted)
    for k in range(3):
        for weighted in (True, False):
            yield dict(t='large counts', k=k, weighted=weighted)
    # weights with a common factor, far outside the alphabet
    for f in (1, 10, 1000):
        yield dict(t='factor', f=f)


def exact(xs, ys, ws):
    """ys, ws: (J, R) integers. Slope and intercept"""
    xs = np.asarray(xs, dtype=object)[:, None]
    ys, ws = ys.astype(object), ws.astype(object)
    W, X, XX = ws.sum(0), (ws * xs).sum(0), (ws * xs * xs).sum(0)
    Yv, XY = (ws * ys).sum(0), (ws * xs * ys).sum(0)
    den = W * XX - X * X
    a = (W * XY - X * Yv) / den
    b = (XX * Yv - X * XY) / den
    return a.astype(float), b.astype(float)


def grid(J, ys, ns):
    """y, n: (J, R), every combination"""
    y = np.array(list(itertools.product(ys, repeat=J))).T
    n = np.array(list(itertools.product(ns, repeat=J))).T
    R = y.shape[1] * n.shape[1]
    return (np.repeat(y, n.shape[1], axis=1).reshape(J, R),
            np.tile(n, (1, y.shape[1])))


def constant(y, n):
    """Quantity whose values at scale j are all 2^y, n of them"""
    top = n.max()
    values = {}
    for j in range(1, len(y) + 1):
        v = np.where(np.arange(top)[:, None] < n[j - 1][None],
                     2.0 ** y[j - 1], np.nan)
        # the sign and the place of the missing values carry no weight
        v[::2] *= -1
        values[j] = np.roll(v, j, axis=0)
    return values


def uni(ctx, case, y, n):
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.estimation import compute_hurst, estimate_hmin
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.structurefunction import StructureFunction
    values = constant(y, n)
    j1, j2, w = case['j1'], case['j2'], case['weighted']
    xs = range(j1, j2 + 1)
    yy = y[j1 - 1:j2]
    ww = n[j1 - 1:j2] if w else np.ones_like(yy)
    a, b = exact(xs, yy, ww)
    m = lib.mrq(values)
    tol = dict(rtol=1e-9, atol=1e-9)
    q = np.array([1., -2., 0., 2.])
    sf = StructureFunction(mrq=m, q=q, j1=j1, j2=j2, weighted=w)
    for i, e in enumerate(q):
        ctx.close('zeta', sf.zeta[i], e * a, **tol)
        ctx.close('zeta intercept', sf.intercept[i], e * b, **tol)
    cm = Cumulants(mrq=m, n_cumul=2, j1=j1, j2=j2, weighted=w)
    ctx.close('c1', cm.log_cumulants[0], a, **tol)
    ctx.close('c1 slope', cm.slope[0], a * np.log(2), **tol)
    ctx.close('c1 intercept', cm.intercept[0], b * np.log(2), **tol)
    ctx.close('c2', cm.log_cumulants[1], 0 * a, **tol)
    sp = MultifractalSpectrum(mrq=m, j1=j1, j2=j2, weighted=w, q=q)
    for i, e in enumerate(q):
        ctx.close('hq', sp.hq[i], a, **tol)
        ctx.close('Dq', sp.Dq[i], np.ones(len(a)), **tol)
    h, icpt, yv = estimate_hmin(m, j1, j2, w, warn=False, return_y=True)
    ctx.close('hmin', h, a, **tol)
    ctx.close('hmin intercept', icpt, b, **tol)
    ctx.close('hmin y', yv, yy, **tol)
    hu, st, _ = compute_hurst(m, j1, j2, w)
    ctx.close('hurst', hu, a, **tol)
    ctx.close('hurst intercept', st.intercept[0], 2 * b, **tol)
    ctx.trace(y.shape[1])
    ctx.step(y.shape[1] * 12)
    for r in range(y.shape[1]):
        ctx.state(j1, j2, w, tuple(y[:, r]), tuple(n[:, r]))
    ctx.outcome(a, b)


def check(case, ctx):
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.mfspectrum import MultifractalSpectrum
    if case['t'] == 'pair':
        for k, n2 in enumerate(itertools.product(N, repeat=case['J'])):
            y = [Y[k % 4], Y[(k // 4) % 4], Y[(k + 1) % 4]]
            for y2 in (y, [5, y[0], -2]):
                uni(ctx, case, np.array([y, y2]).T,
                    np.array([case['n'], n2]).T)
        return
    if case['t'] == 'many':
        J = case['J']
        for j2 in range(case['j1'] + 1, J + 1):
            k = np.arange(J)
            y = np.array([k * 2 - 3, k * k % 7 - 3, -k // 2 + 1, 1 * (k == J // 2),
                          1 * (k == case['j1'] - 1) - 1 * (k == j2 - 1)]).T
            n = np.array([1 + k * 5 % 7, J + 1 - k, 1 + (k == j2 - 1) * 8,
                          1 + k % 2, 1 + k]).T
            uni(ctx, dict(case, j2=j2), y, n)
        return
    if case['t'] == 'large counts':
        y = np.array([[0, 1, 5], [1, -2, 0], [-2, 5, 1], [5, 0, 0]])
        n = np.array([[(70000, 300, 65536), (257, 40000, 1), (256, 2, 65535),
                       (1, 32768, 5)],
                      [(128, 127, 129), (1000, 1, 32767), (3, 100, 100),
                       (100000, 100000, 2)],
                      [(131073, 65537, 60000), (66000, 32769, 30000),
                       (33000, 16385, 15000), (17000, 8193, 7500)]][case['k']])
        for j1, j2 in ((1, 4), (1, 3), (2, 4)):
            uni(ctx, dict(case, j1=j1, j2=j2), y, n)
        return
    if case['t'] in ('uni', 'factor'):
        if case['t'] == 'factor':
            y, n = grid(3, Y, [1, 3])
            n = n * case['f']
            y, n = y[:, ::5], n[:, ::5]
            case = dict(J=3, j1=1, j2=3, weighted=True)
        else:
            y, n = grid(case['J'], case['ys'], case['ns'])
        uni(ctx, case, y, n)
        return
    j1, j2, w = case['j1'], case['j2'], case['weighted']
    if case['t'] == 'two':
        # half the values at 1, half at 2^y: D(q) and h(q) have slopes
        combos = list(itertools.product(Y, Y, Y))
        y = np.array(combos).T
        n = np.array([[2] * len(combos), [4] * len(combos),
                      [10] * len(combos)])
        values = {}
        for j in (1, 2, 3):
            v = np.full((10, len(combos)), np.nan)
            v[:n[j - 1, 0]:2] = 1.0
            v[1:n[j - 1, 0]:2] = 2.0 ** y[j - 1]
            values[j] = v
        q = np.array([1., -1., 0.])
        sp = MultifractalSpectrum(mrq=lib.mrq(values), j1=j1, j2=j2,
                                  weighted=w, q=q)
        cm = Cumulants(mrq=lib.mrq(values), n_cumul=3, j1=j1, j2=j2,
                       weighted=w)
        xs = range(j1, j2 + 1)
        ww = n[j1 - 1:j2] if w else np.ones_like(n[j1 - 1:j2])
        for i, e in enumerate(q):
            p = 2.0 ** (e * y) / (1 + 2.0 ** (e * y))
            U = 1 + p * np.log2(p) + (1 - p) * np.log2(1 - p)
            V = p * y
            for name, series, got in (('Dq', U, sp.Dq[i] - 1),
                                      ('hq', V, sp.hq[i])):
                want = [ref.regress(xs, series[j1 - 1:j2, r], ww[:, r])[0]
                        for r in range(len(combos))]
                ctx.close('two ' + name, got, want, rtol=1e-9, atol=1e-9)
        ly = y * np.log(2)
        for k, series in ((1, ly / 2), (2, ly ** 2 / 4), (3, 0 * ly)):
            got = cm.log_cumulants[k - 1] * np.log(2)
            fit = np.array([ref.regress(xs, series[j1 - 1:j2, r], ww[:, r])
                            for r in range(len(combos))])
            ctx.close(f'two c{k}', got, fit[:, 0], rtol=1e-9, atol=1e-9)
            ctx.close(f'two c{k} intercept', cm.intercept[k - 1], fit[:, 1],
                      rtol=1e-9, atol=1e-9)
        ctx.trace(len(combos))
        ctx.state('two', j1, j2, w)
        ctx.outcome(sp.Dq)
        return
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import \
        BiStructureFunction
    n = np.array(case['n'])[:, None]
    q1 = q2 = np.array([0., 1., 2.])
    xs = range(j1, j2 + 1)
    ww = n[j1 - 1:j2] if w else np.ones_like(n[j1 - 1:j2])
    for y in itertools.product(Y, repeat=3):
        y1 = np.array(y)[:, None]
        y2 = np.roll(y1, 1) + 1
        m1, m2 = (lib.mrq(constant(v, n), 'wavelet coef') for v in (y1, y2))
        sf = BiStructureFunction(mrq1=m1, mrq2=m2, j1=j1, j2=j2, q1=q1, q2=q2,
                                 weighted=w)
        cm = BiCumulants(mrq1=m1, mrq2=m2, n_cumul=2, j1=j1, j2=j2,
                         weighted=w)
        (a1, b1), (a2, b2) = (exact(xs, v[j1 - 1:j2], ww) for v in (y1, y2))
        ctx.close('bi zeta', sf.zeta, np.add.outer(q1 * a1, q2 * a2),
                  rtol=1e-9, atol=1e-9)
        ctx.close('bi intercept', sf.intercept,
                  np.add.outer(q1 * b1, q2 * b2), rtol=1e-9, atol=1e-9)
        ctx.close('c10', cm.c10, a1, rtol=1e-9, atol=1e-9)
        ctx.close('c01', cm.c01, a2, rtol=1e-9, atol=1e-9)
        ctx.close('bi cum intercept', [cm.intercept[1, 0],
                                       cm.intercept[0, 1]],
                  np.ravel([b1, b2]) * np.log(2), rtol=1e-9, atol=1e-9)
        ctx.close('bi cum slope', [cm.slope[1, 0], cm.slope[0, 1]],
                  np.ravel([a1, a2]) * np.log(2), rtol=1e-9, atol=1e-9)
        ctx.trace()
        ctx.state('bi', j1, j2, w, case['n'], y)
        ctx.outcome(a1, a2)
