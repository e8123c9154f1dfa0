"""Leaders are suprema over 3 lambda: every impulse position (which leaders an
impulse reaches), and configurations, against the definition."""
import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
WAVES = ['db1', 'db2', 'db3', 'db5', 'sym4', 'coif1', 'bior2.2']
BOUNDS = {
    'quick': 'a spike of 1e3 and one of 1e9 at every position of a signal, 7 '
             'wavelets x 3 lengths; every pair of adjacent-scale lengths '
             '(signal lengths 40..160); configurations within 2 changes',
    'thorough': 'as quick with 8 lengths, signal lengths 20..700, '
                'configurations within 3 changes',
}
RULE = ('a state is (length of the scale, scale, leaders); non-trivial: the '
        'leader exceeds the coefficients of its own scale somewhere')


def cases(tier):
    quick = tier == 'quick'
    for n in [64, 97, 150] if quick else [48, 64, 65, 97, 127, 150, 201, 260]:
        for w in WAVES:
            if ref.max_level(n, w) < 1:
                continue
            for amp in [1e3, 1e9]:
                yield dict(t='spike', n=n, wt=w, amp=amp)
    for n in range(40, 161) if quick else range(20, 701):
        for w in ['db1', 'db3'] if quick else WAVES[:5]:
            if ref.max_level(n, w) >= 1:
                yield dict(t='length', n=n, wt=w)
    for n in [3000, 8192]:
        c = next(iter(lib.space(0)))
        yield dict(t='config', **{**c, 'n': n, 'p': 'inf', 'j2': 14})
    for c in lib.space(2 if quick else 3, p=['inf']):
        yield dict(t='config', **c)


def compare(ctx, t, want, key):
    ctx.trace()
    got, coefs = lib.vals(t.wt_leaders), lib.vals(t.wt_coefs)
    ctx.equal(key + ':scales', sorted(got), sorted(want.leaders))
    ctx.equal(key + ':formalism', t.wt_leaders.formalism, 'wavelet leader')
    ctx.equal(key + ':eta_p', t.eta_p, None)
    for j in want.leaders:
        if j not in got:
            continue
        ctx.close(key + ':leaders', got[j], want.leaders[j], rtol=1e-8)
        ctx.equal(key + ':length', len(got[j]), len(coefs[j]) - 2)
        # a leader is never smaller than a coefficient it covers
        for d in (0, 1, 2):
            c = np.abs(coefs[j][d:len(coefs[j]) - 2 + d])
            bad = (c > got[j] * (1 + 1e-12)) & ~np.isnan(got[j])
            ctx.true(key + ':covers', not bad.any(), 'coefficient above its '
                     'leader')
        ctx.state(j, len(got[j]), got[j])
        ctx.outcome(got[j])


def check(case, ctx):
    from pymultifracs.wavelet import wavelet_analysis
    if case['t'] == 'config':
        x = lib.signal(case)
        compare(ctx, lib.wt(case, x), lib.ref_wt(case, x), 'config')
        return
    n, w = case['n'], case['wt']
    base = sig.make('multi', n, 9)
    if case['t'] == 'length':
        x = base[:, None]
    else:
        x = base[:, None] + case['amp'] * np.eye(n)
    compare(ctx, wavelet_analysis(x, p_exp=np.inf, wt_name=w),
            ref.transform(x, np.inf, w), case['t'])
