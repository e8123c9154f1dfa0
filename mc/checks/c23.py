"""Wavelet PSD on every length, wavelet and sampling frequency of a grid, and
the conversions between scales and frequencies on every band of a grid."""
import itertools
import math

import numpy as np

from .. import lib, ref, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'PSD: 14 lengths (18 up to 40001) x 6 numbers of moments x 4 sampling frequencies '
             'x 4 kinds of signals (one with missing values, one integer, two '
             'realisations); every scale -3..20 as integer, float and array; '
             'every band with ends on and between the frequencies of scales '
             '-2..9, or within 2^-2 to 2^-36 of them; 7 sampling '
             'frequencies',
    'thorough': 'every length 16..300; scales -3..30',
}
RULE = ('a state is the signal, wavelet and sampling frequency (or the band); '
        'non-trivial: at least two scales')
FS = [1.0, 2.0, 100.0, 0.3]
KINDS = ['walk', 'nan', 'int', 'reps']


def cases(tier):
    ns = [8, 16, 31, 32, 33, 50, 64, 90, 127, 128, 150, 255, 256, 400]
    if tier != 'quick':
        ns = list(range(16, 301))
    for n in ns:
        for m in (1, 2, 3, 4, 5, 6):
            yield dict(t='psd', n=n, m=m)
    for n, m in ((4097, 1), (5000, 2), (40001, 3), (8192, 6)):
        yield dict(t='psd', n=n, m=m)
    for fs in (1.0, 2.0, 4.0, 100.0, 0.3, 256, 1000):
        for lo in range(24):
            yield dict(t='band', fs=fs, lo=lo)
        for j in range(-2, 10):
            yield dict(t='near', fs=fs, j=j)
        yield dict(t='scale', fs=fs, top=20 if tier == 'quick' else 30)


def check(case, ctx):
    globals()[case['t']](case, ctx)


def make(kind, n):
    x = sig.make('walk', n, 3)
    if kind == 'nan':
        x[n // 3] = np.nan
    if kind == 'int':
        x = np.round(x * 100).astype(int)
    if kind == 'reps':
        x = sig.batch('walk+noise', n, 2, 3)
    return x


def psd(case, ctx):
    from pymultifracs.psd import wavelet_estimation
    from pymultifracs.signal import Signal
    n, m = case['n'], case['m']
    name = f'db{m}'
    if ref.max_level(n, name) < 1:
        ctx.skipped += 1
        return
    for kind, fs in itertools.product(KINDS, FS):
        x = make(kind, n)
        t = ref.transform(x, None, name, 1, None, 0.5, 1)
        if not t.coefs:
            ctx.skipped += 1
            continue
        want = np.array([[(c ** 2).mean() for c in ref.columns(t.coefs[j])]
                         for j in sorted(t.coefs)])
        f = np.array([0.75 * fs / 2 ** j for j in sorted(t.coefs)])
        got = [wavelet_estimation(x, fs, m)]
        got.append(Signal(x, fs).estimate_wavelet_psd(m))
        if m == 2:
            got.append(Signal(x, fs).estimate_wavelet_psd())
        for g in got:
            ctx.trace()
            ctx.close('freq', g.freq, f, rtol=1e-12)
            ctx.close('psd', g.psd, want, rtol=1e-8,
                      atol=1e-12 * float(np.nanmax(np.abs(x))) ** 2)
            ctx.equal('tuple', list(g._fields), ['freq', 'psd'])
        ctx.state(n, m, kind, fs)
        ctx.outcome(got[0].psd)


def scale(case, ctx):
    from pymultifracs.utils import freq2scale, scale2freq
    fs = case['fs']
    js = list(range(-3, case['top'] + 1))
    for j in js:
        f = 0.75 * fs * 2.0 ** -j
        for s in (j, float(j), np.int64(j), np.float64(j), np.int32(j)):
            ctx.close('scale2freq', scale2freq(s, fs), f, rtol=1e-12)
        ctx.close('freq2scale', freq2scale(f, fs), j, atol=1e-10)
        ctx.close('inverse', freq2scale(scale2freq(j, fs), fs), j, atol=1e-10)
        for d in (0.25, 0.5, 0.9):
            f = 0.75 * fs * 2.0 ** -(j + d)
            ctx.close('scale2freq', scale2freq(j + d, fs), f, rtol=1e-12)
            ctx.close('inverse', freq2scale(f, fs), j + d, atol=1e-10)
        ctx.state(fs, j)
    for a in (np.array(js), np.array(js, dtype=float), np.array(js)[:, None]):
        b = a.copy()
        got = scale2freq(a, fs)
        ctx.trace()
        ctx.close('array', got, 0.75 * fs * 2.0 ** -a.astype(float),
                  rtol=1e-12)
        ctx.close('array inverse', freq2scale(got, fs), a, atol=1e-10)
        ctx.true('pure', np.array_equal(a, b))
        ctx.outcome(got)


def near(case, ctx):
    """An end just above or below the frequency of scale j"""
    from pymultifracs.utils import fband2scale
    fs, j = case['fs'], case['j']
    f = 0.75 * fs * 2.0 ** -j
    for k, sign in itertools.product(range(2, 37), (1, -1)):
        e = f * (1 + sign * 2.0 ** -k)
        for w in (1.2, 1.9, 2.3, 7.7, 100.3):
            # the other end is not near a frequency
            for b in ((e, e * w), (e / w, e)):
                x = [0.75 * fs / v for v in b]
                if min(abs(math.log2(v) - round(math.log2(v))) for v in x) \
                        < 1e-11:
                    continue
                want = (math.ceil(math.log2(x[1])),
                        math.floor(math.log2(x[0])))
                got = fband2scale(b, fs)
                ctx.trace()
                ctx.equal('near', tuple(got), want)
                ctx.state(fs, b)
                ctx.outcome(want)


def band(case, ctx):
    """Ends: at the frequency of a scale, or strictly between two"""
    from pymultifracs.utils import fband2scale
    fs = case['fs']
    exact = fs in (1.0, 2.0, 4.0, 100.0, 256, 1000)
    pos = []
    for j in range(-2, 10):
        pos += [(float(j), exact), (j + 0.4, True)]
    hi_scale, ok1 = pos[case['lo']]
    if not ok1:
        ctx.skipped += 1
        return
    lo_freq = 0.75 * fs * 2.0 ** -hi_scale
    for s, ok in pos:
        if not ok or s > hi_scale:
            continue
        hi_freq = 0.75 * fs * 2.0 ** -s
        inside = [j for j in range(-5, 14)
                  if lo_freq <= 0.75 * fs * 2.0 ** -j <= hi_freq]
        for b in ((lo_freq, hi_freq), [lo_freq, hi_freq],
                  np.array([lo_freq, hi_freq])):
            got = fband2scale(b, fs)
            ctx.trace()
            if inside:
                ctx.equal('band', tuple(got), (min(inside), max(inside)))
            else:
                ctx.true('empty band', got[0] > got[1], f'{got}')
            ctx.true('integers', all(isinstance(v, (int, np.integer))
                                     for v in got), f'{got!r}')
        ctx.state(fs, hi_scale, s)
        ctx.outcome(tuple(got))
