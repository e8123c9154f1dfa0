"""Welch PSD for every small length, transform length and segment length,
against averaged periodograms computed by explicit sums."""
import itertools
import math

import numpy as np

from .. import lib, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every signal length 4..40 (step 3) and 64, 100 x every n_fft in '
             '2..20, 32, 64, 128 x every segment length of {None, 2..12, 16, '
             '32, 64, 100}; 3 kinds of signals (constant and trend included), '
             '3 sampling frequencies; defaults for signals of up to 70001; 9 '
             'layouts and amplitudes',
    'thorough': 'every signal length 4..64, n_fft 2..40, segments 2..40',
}
RULE = ('a state is the three lengths and the signal; non-trivial: at least '
        'two segments')


def cases(tier):
    big = tier != 'quick'
    ns = [*range(4, 41, 3), 64, 100] if not big else [*range(4, 65), 100, 128]
    for n in ns:
        for k in ('noise', 'walk', 'trend', 'int'):
            yield dict(t='grid', n=n, kind=k, big=big)
    for n in (50, 1000, 4096, 5000, 8192, 70001):
        yield dict(t='default', n=n)
    for k in ('strided', 'reversed', 'readonly', 'int', 'offset', 'big',
              'tiny', 'zeros', 'column'):
        yield dict(t='kinds', n=3000, k=k)


def signal(kind, n):
    if kind == 'trend':
        return 3.0 + 0.1 * np.arange(n)
    if kind == 'int':
        return np.round(sig.make('noise', n, 2) * 20).astype(int)
    return sig.make(kind, n, 1)


def welch(x, n_fft, seg):
    """Values for k = 0 .. n_fft // 2"""
    x = np.asarray(x, dtype=float)
    n = len(x)
    seg = n_fft if seg is None else seg
    n_fft = max(n_fft, seg)
    seg = min(seg, n)
    t = np.arange(seg)
    w = 0.54 - 0.46 * np.cos(2 * np.pi * t / seg)
    if seg == 1:
        w = np.ones(1)
    step = seg - seg // 2
    k = np.arange(n_fft // 2 + 1)
    E = None if n_fft > 2048 else np.exp(
        -2j * np.pi * np.outer(k, t) / n_fft)
    acc, count = np.zeros(len(k)), 0
    start = 0
    while start + seg <= n:
        y = w * x[start:start + seg]
        acc += np.abs(np.fft.rfft(y, n_fft) if E is None else E @ y) ** 2
        count += 1
        start += step
    p = acc / count / (2 * np.pi * (w ** 2).sum())
    two = np.ones(len(k)) * 2
    two[0] = 1
    if n_fft % 2 == 0:
        two[-1] = 1
    return n_fft, k, 4 * two * p, count


def check(case, ctx):
    from pymultifracs.psd import welch_estimation
    from pymultifracs.signal import Signal
    n = case['n']
    if case['t'] == 'default':
        x = sig.make('walk', n, 1)
        for fs, args in itertools.product((1.0, 8.0), (
                (), (4096, None), (1024, None), (1024, 512), (512, 1024),
                (65536, 300), (8192, None), (3, 1), (1, 2), (100, 5000))):
            nf, k, want, _ = welch(x, *(args or (4096, None)))
            for got in (welch_estimation(x, fs, *args),
                        Signal(x, fs).estimate_welch_psd(*args)):
                ctx.trace()
                ctx.close('default:freq', got.freq, k * fs / nf, rtol=1e-12)
                ctx.close('default:psd', got.psd, want, rtol=1e-7,
                          atol=1e-9 * want.max())
            ctx.state('default', n, fs, args)
            ctx.outcome(got.psd[:5])
        return
    if case['t'] == 'kinds':
        x = {'offset': lambda: sig.make('noise', n, 1) + 1e6,
             'big': lambda: sig.make('noise', n, 1) * 1e150,
             'tiny': lambda: sig.make('noise', n, 1) * 1e-150,
             'zeros': lambda: sig.make('noise', n, 1) * (
                 np.arange(n) % 700 < 100),
             'column': lambda: sig.batch('walk', n, 3, 1)[:, 1]}.get(
                 case['k'], lambda: sig.layout(
                     sig.make('walk', n, 1), case['k']))()
        y = x.copy()
        for args in ((64, None), (1024, None), (256, 100), (100, 33),
                     (7, 5), (4096, None)):
            nf, k, want, _ = welch(x, *args)
            for got in (welch_estimation(x, 2, *args),
                        Signal(x, 2).estimate_welch_psd(*args)):
                ctx.trace()
                ctx.close('kinds:freq', got.freq, k * 2 / nf, rtol=1e-12)
                ctx.close('kinds:psd', got.psd, want, rtol=1e-7,
                          atol=1e-9 * want.max())
            ctx.state(case['k'], args)
            ctx.outcome(got.psd[:5])
        ctx.true('pure', np.array_equal(x, y))
        return
    big = case['big']
    nffts = [*range(2, 21), 32, 64, 128] if not big else \
        [*range(2, 41), 64, 128]
    segs = [None, *range(2, 13), 16, 32, 64, 100] if not big else \
        [None, *range(2, 41), 64, 100, 128]
    x = signal(case['kind'], n)
    y = x.copy()
    for i, (nf, seg) in enumerate(itertools.product(nffts, segs)):
        fs = (1.0, 2.5, 100.0)[i % 3]
        got = welch_estimation(x, fs, nf, seg)
        ctx.trace()
        nfft, k, want, count = welch(x, nf, seg)
        ctx.close('freq', got.freq, k * fs / nfft, rtol=1e-12, atol=1e-13)
        ctx.close('psd', got.psd, want, rtol=1e-7,
                  atol=1e-9 * (1 + np.abs(want).max()))
        ctx.state(n, case['kind'], nf, seg)
        if count > 1:
            ctx.outcome(got.psd)
    ctx.true('pure', np.array_equal(x, y))
