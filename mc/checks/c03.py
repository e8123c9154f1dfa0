"""Borders and missing samples: a NaN at every position of the signal (and
every pair of positions), every border width; numbers of coefficients."""
import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
WAVES = ['db3', 'db1', 'db2', 'db4', 'sym4', 'coif1', 'bior2.2']
BOUNDS = {
    'quick': 'every single position, every run of 2..5 and a grid of pairs of '
             'missing samples in signals of 64 to 150 samples, 7 wavelets, '
             'three formalisms; configurations within 2 changes with 6 '
             'missing patterns; five long signals (5000 to 131075 samples) with 3 '
             'patterns',
    'thorough': 'every single position and every pair of positions, '
                'configurations within 3 changes',
}
RULE = ('a state is the set of missing coefficients at a scale; non-trivial: '
        'some coefficients of the scale are missing and some are not')

PATTERNS = ['none', 'mid', 'first', 'last', 'two', 'onecol', 'run']


def cases(tier):
    quick = tier == 'quick'
    for n in ([80, 97] if quick else [64, 80, 97, 128]):
        for w in WAVES:
            if ref.max_level(n, w) < 1:
                continue
            for p in ['none', 'inf', '2', '0.5']:
                yield dict(t='every', n=n, wt=w, p=p, width=1)
                for width in (2, 3, 5):
                    yield dict(t='every', n=n, wt=w, p=p, width=width)
    for d in range(2, 70, 5 if quick else 1):
        for w in ['db3', 'db1'] if quick else WAVES:
            yield dict(t='pairs', n=150, wt=w, p='inf', d=d)
    # long signals
    for n, w, p in [(2 ** 13 + 1, 'db3', 'none'), (2 ** 16 + 1, 'db2', 'none'),
                    (2 ** 17 + 3, 'db3', 'none'), (5000, 'db3', 'inf'),
                    (2 ** 14 + 5, 'db2', '2')]:
        for pat in ('two', 'first', 'run'):
            c = next(iter(lib.space(0)))
            yield dict(t='config', **{**c, 'n': n, 'wt': w, 'p': p, 'j2': 14,
                                      'pat': pat})
    for c in lib.space(2 if quick else 3, drop=['layout', 'dim'],
                       pat=PATTERNS):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def support(miss, wt_name, levels):
    """Missing positions, from the supports alone"""
    import pywt
    L = len(pywt.Wavelet(wt_name).dec_hi)
    s = (L - 1) // 2
    out = []
    a = list(miss)
    for _ in range(levels):
        n = len(a)
        m = []
        for i in range(n):
            if i < L - 1 or i > n - L:
                m.append(True)
            else:
                m.append(any(a[i + s - t] for t in range(L)))
        a = m[1::2]
        out.append(np.array(a))
    return out


def one(ctx, case, x, key):
    t = lib.wt(case, x)
    want = lib.ref_wt(case, x)
    got = lib.vals(t.wt_coefs)
    ctx.trace()
    ctx.equal(key + ':scales', sorted(got), sorted(want.coefs))
    miss = {r: support(np.isnan(x[:, r]), case['wt'], want.levels)
            for r in range(x.shape[1])}
    for j in want.coefs:
        if j not in got:
            continue
        s = np.nanmax(np.abs(want.coefs[j]), initial=0)
        m = np.stack([miss[r][j - 1] for r in range(x.shape[1])], axis=1)
        ctx.true(key + ':missing', np.array_equal(np.isnan(got[j]), m),
                 f'missing coefficients at scale {j} are not those whose '
                 f'support is missing: {np.isnan(got[j]).sum()} / {m.sum()}')
        ctx.close(key + ':coefs', got[j], want.coefs[j], atol=1e-11 * s)
        ctx.true(key + ':nj', np.array_equal(t.wt_coefs.nj[j],
                                             (~m).sum(axis=0)), 'nj of coefs')
        ctx.state(j, m)
        ctx.outcome(got[j])
    if want.leaders is not None:
        ld = lib.vals(t.wt_leaders)
        ctx.equal(key + ':lscales', sorted(ld), sorted(want.leaders))
        for j in want.leaders:
            if j not in ld:
                continue
            n = (~np.isnan(want.leaders[j])).sum(axis=0)
            ctx.true(key + ':lmissing',
                     np.array_equal(np.isnan(ld[j]),
                                    np.isnan(want.leaders[j])),
                     f'missing leaders at scale {j}')
            ctx.true(key + ':lnj', np.array_equal(t.wt_leaders.nj[j], n),
                     'nj of leaders')
            ctx.close(key + ':leaders', ld[j], want.leaders[j])
    return t, want


def estimates(ctx, case, t, want):
    """Missing values enter no estimate"""
    from pymultifracs.mfa import mf_analysis
    if t.j2_eff < case['j1'] + 1:
        return
    q = np.array([2.0, 0.0, -1.0])
    d = mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, case['j1'],
                    case['weighted'], 2, q)
    for part, values in (('dwt', want.coefs), ('lwt', want.leaders)):
        if values is None:
            continue
        e = getattr(d, part)
        a = (case['j1'], t.j2_eff, case['weighted'])
        for k, qq in enumerate(q):
            ctx.close(part + ':zeta', e.structure.zeta[k],
                      ref.zeta(values, qq, *a), rtol=1e-6, atol=1e-7)
            ctx.close(part + ':logvalues', e.structure.logvalues[k],
                      ref.stack(ref.logS(values, qq), sorted(values)),
                      rtol=1e-6, atol=1e-7)
        for j in values:
            ctx.true(part + ':enj', np.array_equal(e.structure.nj[j],
                                                   ref.counts(values)[j]))
        ctx.close(part + ':hmin', e.hmin, ref.hmin(values, *a)[0][0],
                  rtol=1e-6, atol=1e-7)
        cm = ref.cumulants(values, 2)
        ctx.close(part + ':C', e.cumulants.values[1],
                  ref.stack({j: cm[j][1] for j in cm}, sorted(cm)),
                  rtol=1e-6, atol=1e-7)


def check(case, ctx):
    if case['t'] == 'config':
        x = lib.signal(case)
        n = case['n']
        for pos in {'none': [], 'mid': [n // 2], 'first': [0],
                    'last': [n - 1], 'two': [n // 3, n // 3 + 40],
                    'onecol': [n // 2 + 3],
                    'run': range(n // 4, n // 4 + 7)}[case['pat']]:
            x[pos, :1 if case['pat'] == 'onecol' else None] = np.nan
        t, want = one(ctx, case, x, 'config')
        estimates(ctx, case, t, want)
        return
    c = dict(case, j1=1, j2=10, gamint=0.0, norm=1, weighted=True)
    n = case['n']
    width = case.get('width', 1)
    # one realisation for each position, analysed one by one for leaders (a
    # realisation may end the transform for all)
    base = sig.make('walk', n, 5)
    xs = []
    if case['t'] == 'every':
        for i in range(n - width + 1):
            y = base.copy()
            y[i:i + width] = np.nan
            xs.append(y)
    else:
        for i in range(0, n - case['d'], 3):
            y = base.copy()
            y[[i, i + case['d']]] = np.nan
            xs.append(y)
    for y in xs:
        one(ctx, c, y[:, None], case['t'])
    one(ctx, c, np.stack(xs, axis=1)[:, ::7], case['t'] + '-batch')
