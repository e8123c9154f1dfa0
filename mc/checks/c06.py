"""Scale range: every signal length, wavelet and requested j2 of the bound,
and missing samples that end the range early."""
import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
WAVES = ['db1', 'db2', 'db3', 'db4', 'db6', 'db8', 'sym4', 'coif1']
BOUNDS = {
    'quick': 'every length from filter length to 160 and 16 lengths up to '
             '2100 x 8 wavelets x 3 formalisms x 12 values of j2 (None, '
             'fractional, numpy types); decomposition_level for every length '
             'up to 3000 and powers of two +-1 up to 2^20; 4 lengths up to '
             '2^18; every block of '
             'missing samples of 1 of 2 realisations that starts at a '
             'multiple of 8',
    'thorough': 'every length up to 700, blocks at every position',
}
RULE = ('a state is (length, wavelet, formalism, j2) with the range reached; '
        'non-trivial: j2 or the number of values, not only the length, '
        'decides the range')
J2 = [10, None, 1, 2, 3, 2.5, 4, 5, 6, 3.99, 'i8', 'f8']


def j2_of(v):
    return {'i8': np.int64(3), 'f8': np.float64(2.0)}.get(v, v)


def cases(tier):
    top = 160 if tier == 'quick' else 700
    for w in WAVES:
        yield dict(t='level', wt=w)
    for w in WAVES:
        import pywt
        L = len(pywt.Wavelet(w).dec_hi)
        more = [255, 256, 257, 400, 511, 512, 513, 700, 1000, 1023, 1024,
                1025, 1500, 2047, 2048, 2100]
        for n in list(range(L + 1, top + 1)) + [m for m in more if m > top]:
            yield dict(t='length', wt=w, n=n)
    for n in (2 ** 16 + 5, 2 ** 17 + 5, 2 ** 17 + 300, 2 ** 18 + 10):
        yield dict(t='long', wt='db1', n=n)
    for w in ['db1', 'db3']:
        for p in ['none', 'inf', '2']:
            for size in [20, 60, 120]:
                for start in range(0, 200 - size,
                                   8 if tier == 'quick' else 1):
                    yield dict(t='gap', wt=w, p=p, size=size, start=start)


def judge(ctx, key, t, w, want, n, wt, j2):
    coefs = sorted(lib.vals(t.wt_coefs))
    ctx.trace()
    ctx.equal(key + ':coefs', coefs, sorted(want.coefs))
    ctx.equal(key + ':contiguous', coefs, list(range(1, len(coefs) + 1)))
    deep = len(coefs)
    for j in coefs:
        nn = (~np.isnan(t.wt_coefs.values[j])).sum(axis=0)
        ctx.true(key + ':3 values', nn.min() >= 3, f'scale {j}: {nn}')
    if want.leaders is not None:
        ld = sorted(lib.vals(t.wt_leaders))
        ctx.equal(key + ':leaders', ld, sorted(want.leaders))
        for j in ld:
            nn = (~np.isnan(t.wt_leaders.values[j])).sum(axis=0)
            ctx.true(key + ':3 leaders', nn.min() >= 3, f'scale {j}: {nn}')
        deep = len(ld)
    else:
        ctx.equal(key + ':no leaders', t.wt_leaders, None)
    ctx.equal(key + ':j2_eff', t.j2_eff, want.j2_eff)
    ctx.true(key + ':int', isinstance(t.j2_eff, (int, np.integer)),
             f'{type(t.j2_eff)}')
    ctx.true(key + ':j2', t.j2_eff <= deep and (j2 is None or t.j2_eff <= j2))
    warned = bool(lib.user(w))
    if t.eta_p is None or (np.asarray(t.eta_p) > 0).all():
        # (otherwise there is a warning about eta_p)
        ctx.equal(key + ':warning', warned,
                  j2 is not None and j2 > want.levels)
    ctx.state(n, wt, t.j2_eff, deep, want.levels)
    ctx.outcome(t.j2_eff, deep, warned)


def check(case, ctx):
    from pymultifracs.wavelet import wavelet_analysis, decomposition_level
    import pywt
    wt = case['wt']
    if case['t'] == 'level':
        L = len(pywt.Wavelet(wt).dec_hi)
        ns = list(range(L + 1, 3001)) + \
            [2 ** k + d for k in range(12, 21) for d in (-1, 0, 1)]
        for n in ns:
            # largest k with 2^k (L + 1) <= n, in integers
            k = (n // (L + 1)).bit_length() - 1
            got = decomposition_level(n, wt)
            ctx.equal('decomposition_level', got, k)
            ctx.state(n, L)
            ctx.outcome(got)
        ctx.trace()
        return
    if case['t'] == 'gap':
        x = sig.batch('walk', 200, 2, 4)
        x[case['start']:case['start'] + case['size'], 1] = np.nan
        p = sig.p_of(case['p'])
        want = ref.transform(x, None if p is None else np.inf, wt, 1, 10)
        if p is not None and np.isfinite(p) and want.j2_eff < 2:
            ctx.skipped += 1
            return
        t, w = lib.caught(wavelet_analysis, x, p, wt, 1, 10)
        judge(ctx, 'gap', t, w, want, 200, wt, 10)
        return
    n = case['n']
    if case['t'] == 'long':
        x = sig.make('walk', n, 4)[:, None]
        x[n // 3:n // 3 + 20] = np.nan
        for p in (None, np.inf):
            t, w = lib.caught(wavelet_analysis, x, p, wt, 1, 4)
            for m in (t.wt_coefs, t.wt_leaders):
                if m is None:
                    continue
                for j, v in m.values.items():
                    ctx.equal('long:counts', int(m.nj[j][0]),
                              int(np.isfinite(v).sum()))
                ctx.equal('long:range',
                          [int(k) for k in np.ravel(m.get_nj_interv(1, 4))],
                          [int(np.isfinite(m.values[j]).sum())
                           for j in range(1, 5)])
            ctx.equal('long:scales', len(t.wt_coefs.values),
                      len(ref.transform(x[:, 0] * 0 + 1, None, wt, 1,
                                        None).coefs))
            ctx.equal('long:j2_eff', t.j2_eff, 4)
            ctx.trace()
            ctx.state(n, p)
        return
    x = sig.make('smooth', n, 4)[:, None]
    for p in (None, np.inf, 2):
        base = ref.transform(x, None if p is None else np.inf, wt, 1, None)
        for j2 in J2:
            j2 = j2_of(j2)
            eff = int(min(base.deepest, j2)) if j2 is not None \
                else base.deepest
            if p == 2 and eff < 2:
                continue           # no fit of eta_p on a single scale
            t, w = lib.caught(wavelet_analysis, x, p, wt, 1, j2)
            base.j2_eff = eff
            judge(ctx, 'length', t, w, base, n, wt, j2)
