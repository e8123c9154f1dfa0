"""Coefficients are the normalised pyramid transform: decided on every impulse
(a basis), every pair of impulses, and the configurations that differ from the
defaults in at most k parameters."""
import numpy as np

from .. import engine, lib, ref

LEVEL = 'model_checking'
WAVES = ['db1', 'db2', 'db3', 'db4', 'db5', 'db6', 'db8', 'db10', 'sym2',
         'sym3', 'sym5', 'sym8', 'coif1', 'coif2', 'bior2.2', 'rbio2.2',
         'haar', 'dmey']
BOUNDS = {
    'quick': 'all unit impulses and all pairs of impulses of 1 and -3 for 18 '
             'wavelets x 4 lengths, with and without leaders; all '
             'configurations (12 parameters) within 2 changes of the default; '
             'eight long signals (4096 to 262147 samples)',
    'thorough': 'as quick with 10 lengths; configurations within 3 changes',
}
RULE = ('a state is (scale, configuration) with the coefficients reached; '
        'non-trivial: at least one coefficient that is neither 0 nor missing')


def cases(tier):
    lens = [64, 97, 127, 200] if tier == 'quick' else \
        [33, 48, 64, 65, 97, 127, 128, 200, 255, 301]
    for n in lens:
        for w in WAVES:
            for p in ['none', 'inf', '2']:
                if ref.max_level(n, w) < 1 + (p == '2'):
                    continue
                yield dict(t='impulse', n=n, wt=w, p=p)
    for n in ([64] if tier == 'quick' else [64, 97]):
        for w in ['db1', 'db3', 'sym5']:
            for d in range(1, n if tier == 'thorough' else 24):
                yield dict(t='pair', n=n, wt=w, d=d)
    for n, w, p in [(5000, 'db3', 'none'), (4096, 'db3', 'inf'),
                    (16384, 'db3', 'none'), (40001, 'db2', 'none'),
                    (2 ** 16 + 1, 'db3', 'none'), (2 ** 17 + 100, 'db2',
                                                   'none'),
                    (10 ** 5 + 1, 'sym8', 'none'),
                    (2 ** 18 + 3, 'db1', 'none')] + [
                        (2 ** 20 + 5, 'db3', 'none')] * (tier != 'quick'):
        c = next(iter(lib.space(0)))
        yield dict(t='config', **{**c, 'n': n, 'wt': w, 'p': p, 'j2': 20})
    for c in lib.space(2 if tier == 'quick' else 3):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def compare(ctx, key, got, want):
    ctx.equal(key + ':scales', sorted(got), sorted(want))
    for j in want:
        if j in got:
            scale = np.nanmax(np.abs(want[j]), initial=1e-30)
            ctx.close(f'{key}:coef', got[j], want[j], rtol=1e-8,
                      atol=1e-11 * scale)
            ctx.outcome(j, got[j])


def check(case, ctx):
    from pymultifracs.wavelet import wavelet_analysis
    import pywt
    ctx.trace()
    if case['t'] == 'config':
        x = lib.signal(case)
        got = lib.vals(lib.wt(case, x).wt_coefs)
        want = ref.transform(x, p_exp=None if case['p'] == 'none' else np.inf,
                             **{k: v for k, v in lib.wt_args(case).items()
                                if k != 'p_exp'}).coefs
        compare(ctx, 'config', got, want)
        for j in want:
            ctx.state(j, sorted(case.items()))
        return
    n, w = case['n'], case['wt']
    if case['t'] == 'impulse':
        x = np.eye(n)
        p = {'none': None, 'inf': np.inf, '2': 2}[case['p']]
        got = lib.vals(wavelet_analysis(x, p_exp=p, wt_name=w).wt_coefs)
    else:
        i = np.arange(n - case['d'])
        x = np.zeros((n, len(i)))
        x[i, i] = 1.0
        x[i + case['d'], i] = -3.0
        got = lib.vals(wavelet_analysis(x, wt_name=w).wt_coefs)
    # the impulse response, directly: column k of the operator at each scale
    levels = ref.max_level(n, w)
    cols = [ref.coefs_1(x[:, r], w, levels) for r in range(x.shape[1])]
    L = len(pywt.Wavelet(w).dec_hi)
    want = {}
    for j in range(1, levels + 1):
        c = np.stack([col[j - 1] for col in cols], axis=1)
        ok = (~np.isnan(c)).sum(axis=0).min()
        if ok < 3:
            break
        want[j] = c
        if case.get('p', 'none') != 'none' and c.shape[0] - 2 < 3:
            break
    if case.get('p', 'none') != 'none':
        want = {j: v for j, v in want.items() if j in got}
        ctx.true('impulse:some', 1 in got, 'no coefficients')
    compare(ctx, case['t'], got, want)
    for j in want:
        ctx.state(j, n, w, L)
