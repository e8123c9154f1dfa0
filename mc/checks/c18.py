"""What a Signal refuses before its transform exists, after every sequence of
other calls; and the difference of PSDs over a grid of pairs of signals."""
import copy
import itertools

import numpy as np

from .. import engine, lib, sig
from . import c17

LEVEL = 'model_checking'
CHUNK = 1
BOUNDS = {
    'quick': 'every sequence of up to 3 of 11 calls that make no transform, '
             'then each of the 3 refused calls, then a transform and the '
             'calls again; every pair of 16 PSDs with 3 log choices',
    'thorough': 'sequences of up to 4; every pair of 36 PSDs',
}
RULE = ('a state is the history of calls (or the pair of PSDs); non-trivial: '
        'something else was computed before')

BEFORE = ['P1', 'Pbad', 'E1', 'Ebad', 'B0', 'plot_psd1', 'plot_fractal',
          'Wbad', 'diff', 'hmin', 'M1']
ASK = ['hurst', 'hmin', 'M0', 'M1', 'M7']
CASE = dict(kind='walk', n=150)


def cases(tier):
    for first in BEFORE:
        yield dict(t='guard', first=first, depth=3 if tier == 'quick' else 4)
    yield dict(t='guard', first=None, depth=0)
    yield dict(t='values')
    big = tier != 'quick'
    ends = [dict(n=n, fs=fs, m=m, kind=k)
            for n in ((128, 300) if not big else (100, 128, 300))
            for fs in (1.0, 2.0, 4.0, 3.0)[:4 if big else 3]
            for m in (1, 2, 3)[:3 if big else 2]
            for k in ('walk',)] + [
        dict(n=200, fs=1.0, m=2, kind='multi'),
        dict(n=128, fs=16.0, m=1, kind='diff'),
        dict(n=200, fs=1.0, m=1, kind='walk', j2=3),
        dict(n=200, fs=0.5, m=1, kind='noise', scale=True)]
    for a, b in itertools.product(range(len(ends)), repeat=2):
        for log in ('none', 'log2', 'ln'):
            yield dict(t='diff', a=ends[a], b=ends[b], k=int(a != b),
                       log=log)


LOG = {'none': None, 'log2': (np.log2, np.exp2), 'ln': (np.log, np.exp)}


def check(case, ctx):
    globals()[case['t']](case, ctx)


def guard(case, ctx):
    import matplotlib.pyplot as plt
    fresh = c17.Fresh(c17.World(CASE))
    seqs = [()]
    if case['first']:
        seqs = [(case['first'], *s) for d in range(case['depth'])
                for s in itertools.product(BEFORE, repeat=d)]
    other = None
    for seq in seqs:
        w = c17.World(CASE)
        for op in seq:
            if op == 'diff':
                if other is None:
                    other = c17.World(dict(kind='noise', n=150))
                    other.signal.estimate_wavelet_psd(2)
                if w.signal.wt_psd is not None:
                    w.signal.psd_difference(other.signal)
                continue
            c17.step(ctx, w, fresh, op, None, seq, c17.slots(w))
        for op in ASK:
            now = c17.slots(w)
            c17.step(ctx, w, fresh, op, None, seq, now)
        ctx.true('no transform', w.signal.wt_transform is None,
                 f'{seq}: a transform appeared')
        wt, _, now = c17.step(ctx, w, fresh, 'W1', None, seq, c17.slots(w))
        for op in ASK:
            wt, _, now = c17.step(ctx, w, fresh, op, wt, (*seq, 'W1'), now)
        ctx.trace()
        ctx.state('guard', seq)
        ctx.outcome(tuple(now.values()))
    plt.close('all')


def psd_signal(p, k):
    from pymultifracs.signal import Signal
    x = sig.make(p['kind'], p['n'], k)
    if p.get('scale'):
        x = x * 1e4
    s = Signal(x, p['fs'])
    s.estimate_wavelet_psd(p['m'], p.get('j2'))
    return s


def difference(f1, p1, f2, p2, log):
    """Frequency -> difference, for the frequencies both have"""
    d1, d2 = dict(zip(f1, p1)), dict(zip(f2, p2))
    common = sorted(set(d1) & set(d2))
    if log is None:
        return common, [d1[f] - d2[f] for f in common]
    raw = [log[0](d1[f]) - log[0](d2[f]) for f in common]
    return common, [log[1](v - min(raw) + 0.1) for v in raw]


def one(ctx, key, a, b, log):
    from pymultifracs.signal import Signal
    common, want = difference(a.wt_psd.freq, a.wt_psd.psd, b.wt_psd.freq,
                              b.wt_psd.psd, log)
    if not common and log is not None:
        ctx.skipped += 1
        return
    before = [engine.digest(lib.flat(copy.copy(s))) for s in (a, b)]
    got = a.psd_difference(b, log)
    ctx.trace()
    after = [engine.digest(lib.flat(s)) for s in (a, b)]
    ctx.true(key + ':pure', before == after, 'a signal was changed')
    ctx.true(key + ':type', isinstance(got, Signal))
    ctx.close(key + ':freq', got.wt_psd.freq, common, rtol=1e-14, atol=0)
    want = np.reshape(want, (len(common), *np.shape(a.wt_psd.psd)[1:]))
    ctx.close(key + ':psd', got.wt_psd.psd, want, rtol=1e-10, atol=1e-12)
    ctx.equal(key + ':fs', got.fs, a.fs)
    for m in ('hurst', 'hmin'):
        ctx.raises(key + ':' + m, AttributeError, getattr(got, m))
    ctx.raises(key + ':mf', AttributeError, lambda: got.mf_analysis([2], 2))
    ctx.outcome(key, len(common), np.asarray(got.wt_psd.psd))


def diff(case, ctx):
    a = psd_signal(case['a'], 1)
    b = psd_signal(case['b'], 1 + case['k'])
    one(ctx, 'diff', a, b, LOG[case['log']])
    ctx.state(case['a'], case['b'], case['log'])


def values(case, ctx):
    """PSDs given by their values: every subset of 4 frequencies on each side,
    in increasing or decreasing order"""
    from pymultifracs.psd import PSD
    from pymultifracs.signal import Signal
    F = np.array([0.1, 0.25, 0.75, 1.5])
    P = np.array([3., 1., 8., 0.5]), np.array([2., 5., 0.25, 1.])
    sub = [c for r in (1, 2, 3, 4) for c in itertools.combinations(range(4),
                                                                   r)]
    for ia, ib in itertools.product(sub, repeat=2):
        for oa, ob in itertools.product((1, -1), repeat=2):
            ia_, ib_ = list(ia)[::oa], list(ib)[::ob]
            for log in LOG:
                a = Signal(None, 1.0, wt_psd=PSD(F[ia_], P[0][ia_]))
                b = Signal(None, 2.0, wt_psd=PSD(F[ib_], P[1][ib_]))
                one(ctx, 'values', a, b, LOG[log])
                ctx.state('values', ia_, ib_, log)
