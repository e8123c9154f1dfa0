"""Reference model of the bivariate estimators (one realisation each), from
the definitions, and quantities with prescribed log-cumulants."""
import itertools
import math

import numpy as np

from . import lib, ref


def joint(v1, v2):
    """scale -> (x, y) at the positions that are not missing"""
    out = {}
    for j in v1:
        x, y = np.asarray(v1[j])[:, 0], np.asarray(v2[j])[:, 0]
        ok = ~(np.isnan(x) | np.isnan(y))
        out[j] = x[ok], y[ok]
    return out


def fit(series, v1, j1, j2, weighted):
    xs = list(range(j1, j2 + 1))
    n = ref.counts(v1)
    return ref.regress(xs, [series[j] for j in xs],
                       [n[j][0] if weighted else 1.0 for j in xs])


def logS(v1, v2, q1, q2):
    return {j: math.log2((ref.power(x, q1) * ref.power(y, q2)).mean())
            for j, (x, y) in joint(v1, v2).items()}


def coherence(v1, v2):
    return {j: (x * y).mean() / math.sqrt((x * x).mean() * (y * y).mean())
            for j, (x, y) in joint(v1, v2).items()}


def cumulants(v1, v2, n_cumul):
    """(m1, m2) -> scale -> value, for the orders that are defined"""
    out = {}
    for j, (x, y) in joint(v1, v2).items():
        lx, ly = np.log(np.abs(x)), np.log(np.abs(y))
        cx, cy = ref.cumulants_of(lx, n_cumul), ref.cumulants_of(ly, n_cumul)
        for m in range(1, n_cumul + 1):
            out.setdefault((m, 0), {})[j] = cx[m - 1]
            out.setdefault((0, m), {})[j] = cy[m - 1]
        out.setdefault((1, 1), {})[j] = ((lx - lx.mean())
                                         * (ly - ly.mean())).mean()
    return out


RELATIONS = {
    'other': lambda x, y: y,
    'same': lambda x, y: x,
    'minus': lambda x, y: -x,
    'scaled': lambda x, y: 3 * x,
    'flipped': lambda x, y: x[::-1],
}
AMPLITUDES = [(1e30, 1e30), (1e-30, 1e-30), (1e60, 1e-60), (1e-12, 1e9)]


def related():
    """Pairs of quantities in every combination of relations, scale by scale;
    and of very different amplitudes"""
    x = np.array([[1.], [-3.], [.5], [2.5], [1.25], [-.75]])
    y = np.array([[2.], [.25], [-1.5], [.9], [1.1], [-4.]])
    v1 = {j: x[:8 - j] * 1.3 ** j for j in (1, 2, 3)}
    for names in itertools.product(RELATIONS, repeat=3):
        yield names, v1, {
            j: RELATIONS[k](v1[j], y[:8 - j] / 1.2 ** j)
            for j, k in zip((1, 2, 3), names)}
    v2 = {j: y[:8 - j] / 1.2 ** j for j in (1, 2, 3)}
    for a, b in AMPLITUDES:
        yield ((a, b), {j: v1[j] * a for j in v1}, {j: v2[j] * b for j in v2})


LARGE = ['scales12', 'scales25', 'exponents', 'long', 'powers', 'zeros']


def large(name):
    """Pairs of quantities of unusual size: (v1, v2, q1, q2, ranges)"""
    from . import oracle
    q1 = np.array([0., 1., 2., -1.])
    q2 = np.array([1., 2., 0.5, 0.])
    if name == 'zeros':
        for pat, values in oracle.zeros():
            q = np.array([0., 1., 2., 0.5])
            yield (pat, {j: v[:, :1] for j, v in values.items()},
                   {j: np.abs(np.where(np.isnan(v), 1., v))[:, 1:]
                    for j, v in values.items()}, q, q[::-1], [(1, 3)])
        return
    values, _, spans = oracle.large(name)
    if name == 'exponents':
        q1, q2 = np.linspace(-4, 4, 65), np.arange(-3., 4.)
    for j, v in values.items():
        v[np.isnan(v).any(axis=1)] = np.nan
    if len(spans) > 3:
        spans = spans[::5]
    yield (name, {j: v[:, :1] for j, v in values.items()},
           {j: v[:, 1:] for j, v in values.items()}, q1, q2, spans)


def size(*vs):
    m = 1.0
    for v in vs:
        for a in v.values():
            b = np.abs(a[~np.isnan(a)])
            b = b[b > 0]
            if len(b):
                m = max(m, np.abs(np.log(b)).max())
    return m


def check_structure(ctx, key, sf, v1, v2, q1, q2, j1, j2, weighted, tol=1e-8):
    js = sorted(v1)
    ctx.equal(key + ':j', [int(v) for v in sf.j], js)
    ctx.equal(key + ':shape', (np.shape(sf.logvalues), np.shape(sf.zeta),
                               np.shape(sf.intercept)),
              ((len(q1), len(q2), len(js)),) + ((len(q1), len(q2)),) * 2)
    lg = 1.5 * size(v1, v2)
    S = np.zeros((len(q1), len(q2), len(js)))
    z = np.zeros((2, len(q1), len(q2)))
    for a, b in itertools.product(range(len(q1)), range(len(q2))):
        s = logS(v1, v2, q1[a], q2[b])
        S[a, b] = [s[j] for j in js]
        z[:, a, b] = fit(s, v1, j1, j2, weighted)
    at = tol * lg * (1 + np.abs(np.asarray(q1, float)).max()
                     + np.abs(np.asarray(q2, float)).max())
    ctx.close(key + ':logvalues', sf.logvalues, S, rtol=tol, atol=at)
    ctx.close(key + ':zeta', sf.zeta, z[0], rtol=tol, atol=at)
    ctx.close(key + ':intercept', sf.intercept, z[1], rtol=tol, atol=10 * at)
    if not {0, 1, 2} <= set(map(float, q1)) & set(map(float, q2)):
        ctx.equal(key + ':coherence', sf.coherence, None)
        return
    co = coherence(v1, v2)
    ctx.close(key + ':coherence', sf.coherence, [co[j] for j in js],
              rtol=1e-8, atol=1e-9)
    ctx.true(key + ':coherence range',
             np.all(np.abs(sf.coherence) <= 1 + 1e-9), f'{sf.coherence}')


def check_cumulants(ctx, key, cm, v1, v2, n_cumul, j1, j2, weighted,
                    leaders, tol=1e-8):
    js = sorted(v1)
    sz = size(v1, v2)
    C = cumulants(v1, v2, n_cumul)
    ctx.equal(key + ':j', [int(v) for v in cm.j], js)
    ctx.equal(key + ':m', [int(v) for v in cm.m], list(range(n_cumul + 1)))
    ctx.equal(key + ':shape', (np.shape(cm.values), np.shape(cm.log_cumulants)),
              ((n_cumul + 1, n_cumul + 1, len(js)),
               (n_cumul + 1, n_cumul + 1)))
    c = {}
    for (a, b), s in C.items():
        at = 1e-12 * (2 * (1 + sz)) ** max(a + b, 1) + 1e-11
        slope, icpt = fit(s, v1, j1, j2, weighted)
        want = [s[j] for j in js]
        ctx.close(f'{key}:C{a}{b}', cm.values[a, b], want, rtol=tol, atol=at)
        c[a, b] = slope * ref.LOG2E
        ctx.close(f'{key}:c{a}{b}', cm.log_cumulants[a, b], c[a, b], rtol=tol,
                  atol=4 * at)
        ctx.close(f'{key}:slope{a}{b}', cm.slope[a, b], slope, rtol=tol,
                  atol=4 * at)
        ctx.close(f'{key}:intercept{a}{b}', cm.intercept[a, b], icpt,
                  rtol=tol, atol=20 * at)
        ctx.close(f'{key}:attr c{a}{b}', np.ravel(getattr(cm, f'c{a}{b}')),
                  [c[a, b]], rtol=tol, atol=4 * at)
        ctx.close(f'{key}:attr C{a}{b}', np.ravel(getattr(cm, f'C{a}{b}')),
                  want, rtol=tol, atol=at)
    if not leaders or n_cumul < 2:
        ctx.equal(key + ':RHO_MF', cm.RHO_MF, None)
        ctx.equal(key + ':rho_mf', cm.rho_mf, None)
        return
    want = []
    for j in js:
        v = C[2, 0][j] * C[0, 2][j]
        if min(C[2, 0][j], C[0, 2][j]) < 1e-9 * sz * sz:
            want.append(None)                     # constant: 0 / 0
        else:
            want.append(C[1, 1][j] / math.sqrt(v))
    got = np.asarray(cm.RHO_MF, dtype=float)
    ctx.equal(key + ':RHO shape', got.shape, (len(js),))
    for g, w in zip(got, want):
        if w is None:
            ctx.skipped += 1
            continue
        ctx.close(key + ':RHO_MF', g, w, rtol=1e-6, atol=1e-7)
        ctx.true(key + ':RHO range', abs(g) <= 1 + 1e-7, f'{g}')
    v = c[2, 0] * c[0, 2]
    if v > 1e-8:
        ctx.close(key + ':rho_mf', np.ravel(cm.rho_mf),
                  [-c[1, 1] / math.sqrt(v)], rtol=1e-6,
                  atol=1e-6 / math.sqrt(v))
    elif v < -1e-8:
        ctx.true(key + ':rho_mf', np.all(np.isnan(cm.rho_mf)),
                 f'{cm.rho_mf} for c20 c02 = {v}')


def prescribed(c10, c01, c20, c11, c02, js=(1, 2, 3, 4)):
    """Two quantities whose log-cumulants up to order 2 are exactly these"""
    top = max(js)
    ln2 = math.log(2)
    v1, v2 = {}, {}
    for j in js:
        # covariance: a positive matrix minus the decrease over the scales
        base = 1.0 + ln2 * top * (abs(c20) + abs(c02) + abs(c11))
        a = base + ln2 * j * c20
        d = base + ln2 * j * c02
        b = 0.1 * base + ln2 * j * c11
        l11 = math.sqrt(a)
        l21 = b / l11
        l22 = math.sqrt(d - l21 ** 2)
        e = np.array(list(itertools.product((1., -1.), repeat=2)))
        e = np.tile(e, (1 + top - j, 1))
        lx = 0.3 + ln2 * j * c10 + l11 * e[:, 0]
        ly = -0.2 + ln2 * j * c01 + l21 * e[:, 0] + l22 * e[:, 1]
        v1[j], v2[j] = np.exp(lx)[:, None], np.exp(ly)[:, None]
    return v1, v2
