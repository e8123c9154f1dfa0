"""The spectral slope: every band over a set of frequencies, every small PSD
over an alphabet, both logarithms; and the analysis of signals."""
import itertools

import numpy as np

from .. import lib, ref, sig

LEVEL = 'model_checking'
F = [0.0, 0.0625, 0.1, 0.25, 0.6, 1.0, 2.0]
ALPHA = [0.25, 1.0, 5.0, 1000.0]
BOUNDS = {
    'quick': 'every band with ends on, below and above each of 7 frequencies '
             '(zero included), increasing and decreasing order, PSD in one '
             'and two dimensions, 2 logarithms; every PSD of 4 values from 4; '
             'power laws with 7 exponents and 3 constants; fractal_analysis '
             'on 5 kinds of signals x 7 lengths up to 70000 x 4 wavelets x 6 '
             'bands; PSDs of 5 lengths up to 70001',
    'thorough': 'PSDs of 6 values; lengths 64..300 step 12',
}
RULE = ('a state is the frequencies, the PSD and the band; non-trivial: some '
        'frequency is outside the band')
LOGS = {'log2': np.log2, 'log': np.log}


def cases(tier):
    quick = tier == 'quick'
    edges = [-0.5] + [v for f in F for v in (f, f + 0.03)]
    for lo in edges:
        yield dict(t='band', lo=lo, edges=edges)
    size = 4 if quick else 6
    for first in itertools.product(ALPHA, repeat=1 if quick else 2):
        yield dict(t='psd', first=list(first), size=size)
    for s in (-3.0, -2.0, -1.5, -1.0, 0.0, 0.5, 2.0):
        for C in (1e-3, 1.0, 40.0):
            yield dict(t='law', s=s, C=C)
    for n in (50, 257, 1025, 5000, 70001):
        yield dict(t='long', n=n)
    for n in (64, 128, 200, 300, 1000, 5000, 70000) if quick else range(64, 301, 12):
        for kind in ('walk', 'noise', 'multi', 'diff', 'big'):
            yield dict(t='signal', n=n, kind=kind)


def expected(freq, psd, band, log):
    keep = [(f, p) for f, p in zip(freq, np.ravel(psd))
            if band[0] <= f <= band[1] and f != 0]
    if len({f for f, _ in keep}) < 2:
        return None
    x = [LOGS[log](f) for f, _ in keep]
    y = [LOGS[log](p) for _, p in keep]
    s, c = ref.regress(x, y, np.ones(len(x)))
    return s, c, x


def compare(ctx, key, got, want, tol=1e-8):
    s, c, x = want
    ctx.equal(key + ':fields', list(got._fields), ['beta', 'log_C', 'freq'])
    ctx.close(key + ':beta', np.ravel(got.beta), [s], rtol=tol, atol=tol)
    ctx.close(key + ':log_C', np.ravel(got.log_C), [c], rtol=tol,
              atol=tol * 10)
    ctx.close(key + ':freq', np.ravel(got.freq), x, rtol=1e-12, atol=1e-12)


def both(ctx, key, freq, psd, band):
    from pymultifracs.fractal_analysis import estimate_beta
    n = 0
    for log, dim, kind in itertools.product(LOGS, (1, 2), (tuple, list)):
        want = expected(freq, psd, band, log)
        if want is None:
            continue
        f = np.array(freq)
        p = np.array(psd, dtype=float)
        p = p if dim == 1 else p[:, None]
        f0, p0 = f.copy(), p.copy()
        got = estimate_beta(f, p, kind(band), log)
        ctx.trace()
        compare(ctx, key, got, want)
        ctx.true(key + ':pure', np.array_equal(f, f0)
                 and np.array_equal(p, p0))
        ctx.outcome(np.ravel(got.beta), np.ravel(got.log_C))
        n += 1
    if n:
        ctx.state(key, list(freq), list(psd), list(band))


def long(case, ctx):
    """PSDs of many frequencies, and of extreme amplitudes"""
    n = case['n']
    f = np.arange(n) * 2.0 / n
    i = np.arange(n)
    for amp in (1.0, 1e-200, 1e200):
        p = amp * (1.5 + np.cos(i * 0.7)) * (i + 1.) ** -1.3
        for a, b in ((0, n - 1), (1, n - 1), (3, n // 2), (n // 3, n - 2),
                     (n - 12, n - 2)):
            both(ctx, 'long', f, p, (f[a], f[b]))
            both(ctx, 'long', f[::-1], p[::-1], (f[a], f[b]))


def check(case, ctx):
    globals()[case['t']](case, ctx)


PSD0 = [7.0, 30.0, 9.0, 4.0, 2.5, 0.5, 0.75]


def band(case, ctx):
    for hi in case['edges']:
        if hi < case['lo']:
            continue
        for fr, ps in ((F, PSD0), (F[::-1], PSD0[::-1]), (F[1:], PSD0[1:]),
                       (F[1:][::-1], PSD0[1:][::-1])):
            both(ctx, 'band', fr, ps, (case['lo'], hi))
            # what is outside has no influence
            far = [p if case['lo'] <= f <= hi else p * 1e6
                   for f, p in zip(fr, ps)]
            both(ctx, 'band', fr, far, (case['lo'], hi))


def psd(case, ctx):
    fr = F[1:1 + case['size']]
    k = case['size'] - len(case['first'])
    for rest in itertools.product(ALPHA, repeat=k):
        p = [*case['first'], *rest]
        both(ctx, 'psd', fr, p, (0.01, 2))
        both(ctx, 'psd', fr, p, (0.08, 0.6))


def law(case, ctx):
    from pymultifracs.fractal_analysis import estimate_beta
    f = np.array(F[1:])
    p = case['C'] * f ** case['s']
    for lo, hi in ((0.01, 2), (0.1, 0.6), (0.07, 1.0)):
        for out in (1.0, 100.0, 1e-5):
            q = np.where((f >= lo) & (f <= hi), p, p * out)
            for log in LOGS:
                for v in (q, q[:, None]):
                    got = estimate_beta(f, v, (lo, hi), log)
                    ctx.trace()
                    ctx.close('law:beta', np.ravel(got.beta), [case['s']],
                              atol=1e-9)
                    ctx.close('law:C', np.ravel(got.log_C),
                              [LOGS[log](case['C'])], atol=1e-9)
                ctx.state('law', case['s'], case['C'], lo, hi, out, log)


def signal(case, ctx):
    from pymultifracs.fractal_analysis import estimate_beta, fractal_analysis
    from pymultifracs.psd import wavelet_estimation
    from pymultifracs.signal import Signal
    x = sig.make(case['kind'], case['n'], 2)
    for m, fs, b, log in itertools.product(
            (1, 2, 3, 4), (1.0, 2.0),
            ((0.01, 2), (0.05, 0.4), (0.09375, 0.375), (0, 1), (0.02, 0.2)),
            LOGS):
        t = ref.transform(x, None, f'db{m}', 1, None, 0.5, 1)
        f = [0.75 * fs / 2 ** j for j in sorted(t.coefs)]
        p = [np.nanmean(t.coefs[j] ** 2) for j in sorted(t.coefs)]
        want = expected(f, p, b, log)
        if want is None:
            ctx.skipped += 1
            continue
        compare(ctx, 'signal', fractal_analysis(x, fs, m, b, log), want, 1e-7)
        compare(ctx, 'Signal', Signal(x, fs, log).fractal_analysis(m, b),
                want, 1e-7)
        if b == (0.01, 2):
            compare(ctx, 'default', fractal_analysis(x, fs, m, log=log), want,
                    1e-7)
        got = wavelet_estimation(x, fs, m)
        compare(ctx, 'estimate', estimate_beta(*got, b, log), want, 1e-7)
        ctx.trace(3)
        ctx.state('signal', case['n'], case['kind'], m, fs, b, log)
        ctx.outcome(want[0])
