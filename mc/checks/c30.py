"""Figures: every list of exponents, number of cumulants and layout of a grid
is drawn off-screen and the drawn points, lines and labels are compared with
the estimates."""
import copy
import itertools
import re

import numpy as np

from .. import bi, engine, lib, ref, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'structure functions: every subset of 6 exponents (pairs and all in 2 orders) x '
             '3 numbers of rows x q = 0 shown or not; cumulants: 1..9 x 4 '
             'numbers of rows; spectrum, scaling function, hmin, PSDs, slopes '
             'and bivariate figures on 4 quantities with every choice of '
             'options; averages over 1..3 subjects',
    'thorough': 'every ordered list of up to 4 of 6 exponents x 7 numbers of '
                'rows; more quantities',
}
RULE = ('a state is the figure drawn and its options; non-trivial: more than '
        'one panel or line')
CHUNK = 1
POOL = [2., -1., 0., 0.5, 3., -2.5]


def cases(tier):
    big = tier != 'quick'
    if big:
        lists = [p for k in range(1, 5)
                 for p in itertools.permutations(POOL, k)]
    else:
        lists = []
        for k in range(1, 7):
            for c in itertools.combinations(POOL, k):
                lists += [c[::-1]] + ([c] if k in (2, 6) else [])
    size = 6 if not big else 20
    for i in range(0, len(lists), size):
        yield dict(t='structure', qs=lists[i:i + size], big=big)
    for n in range(1, 10):
        yield dict(t='cumulants', n=n, big=big)
    for k in range(4 if not big else 12):
        for t in ('single', 'psds', 'bivariate', 'legendre'):
            yield dict(t=t, k=k)
    yield dict(t='averages')


def plt_():
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def quantity(k):
    """(formalism, values, j1, j2), one realisation"""
    x = sig.make(['walk', 'multi', 'diff', 'noise'][k % 4], 200 + k, k)
    t = ref.transform(x, None if k % 2 else np.inf, 'db2' if k < 2 else 'db1',
                      1, 10)
    v = t.leaders if t.leaders else t.coefs
    top = max(v)
    return ('wavelet leader' if t.leaders else 'wavelet coef', v,
            1 + (k % 3 == 1), top - (k % 3 == 2))


def lines(ax):
    return [(np.asarray(ln.get_xdata(), dtype=float).ravel(),
             np.asarray(ln.get_ydata(), dtype=float).ravel())
            for ln in ax.lines]


def texts(ax):
    out = [ax.get_ylabel(), ax.get_xlabel(), ax.get_title()]
    if ax.get_legend():
        out += [t.get_text() for t in ax.get_legend().get_texts()]
    return out


def numbers(strings):
    return [float(m) for s in strings
            for m in re.findall(r'[-+]?\d+\.\d+|[-+]?\d+',
                                s.replace('−', '-').replace('float64', ''))]


def legend(ax):
    return [t.get_text() for t in ax.get_legend().get_texts()] \
        if ax.get_legend() else []


def points(ctx, key, ax, x, y):
    """A line of the panel is exactly these points"""
    x, y = np.ravel(x), np.ravel(y)
    for a, b in lines(ax):
        if a.shape == x.shape and np.allclose(a, x, atol=1e-9) and \
                np.allclose(b, y, rtol=1e-9, atol=1e-9, equal_nan=True):
            return ctx.true(key, True)
    return ctx.true(key, False, f'no line through {x}, {y}: {lines(ax)}'[:600])


def fitted(ctx, key, ax, slope, icpt, j1, j2):
    """A line of the panel follows the fit over [j1, j2] only"""
    slope, icpt = float(np.ravel(slope)[0]), float(np.ravel(icpt)[0])
    for a, b in lines(ax):
        if a.size and np.isclose(a.min(), j1) and np.isclose(a.max(), j2) and \
                np.allclose(b, slope * a + icpt, rtol=1e-9, atol=1e-9):
            return ctx.true(key, True)
    return ctx.true(key, False,
                    f'no line {slope} j + {icpt} over [{j1}, {j2}]: '
                    f'{lines(ax)}'[:600])


def labelled(ctx, key, strings, value, digits):
    v = float(np.ravel(value)[0])
    ok = any(abs(n - v) <= 0.51 * 10.0 ** -digits for n in numbers(strings))
    return ctx.true(key, ok, f'{v} is not in {strings}')


def check(case, ctx):
    globals()[case['t']](case, ctx)
    plt_()


def unchanged(ctx, key, obj, before):
    ctx.true(key, engine.digest(lib.flat(obj)) == before,
             'the estimates were changed')


def structure(case, ctx):
    from pymultifracs.structurefunction import StructureFunction
    for i, qs in enumerate(case['qs']):
        fo, v, j1, j2 = quantity(i % 4)
        js = sorted(v)
        sf = StructureFunction(mrq=lib.mrq(v, fo), q=np.array(qs), j1=j1,
                               j2=j2, weighted=True)
        before = engine.digest(lib.flat(sf))
        rows = (4, 1, 3) if not case['big'] else range(1, 8)
        for nrow, ignore in itertools.product(rows, (True, False)):
            plt = plt_()
            kw = {} if (nrow, ignore) == (4, True) else dict(
                nrow=nrow, ignore_q0=ignore)
            sf.plot(figsize=(4, 4), **kw)
            ctx.trace()
            shown = [q for q in qs if not (q == 0 and ignore)]
            axes = plt.gcf().axes
            ctx.equal('sf:panels', len(axes), len(shown))
            if len(axes) != len(shown):
                continue
            # whichever the order of the panels, each exponent has its own
            got = []
            for ax in axes:
                n = numbers([ax.get_ylabel()])
                got.append(n[-1] if n else None)
            ctx.true('sf:exponents', sorted(got, key=str)
                     == sorted(shown, key=str), f'{got} for {shown}')
            for ax, q in zip(axes, got):
                if q not in qs:
                    continue
                s = ref.logS(v, q)
                z, c = ref.fit(s, v, j1, j2, True)
                points(ctx, 'sf:points', ax, js, [s[j][0] for j in js])
                fitted(ctx, 'sf:line', ax, z, c, j1, j2)
                labelled(ctx, 'sf:label', legend(ax), z, 5)
            pos = {tuple(np.round(ax.get_position().bounds, 4))
                   for ax in axes}
            ctx.equal('sf:overlap', len(pos), len(axes))
            ctx.state('sf', qs, nrow, ignore)
        unchanged(ctx, 'sf:pure', sf, before)
        ctx.outcome(sf.zeta)
        if len(qs) > 1:
            plt = plt_()
            sf.plot_scaling()
            ctx.trace()
            z = [ref.fit(ref.logS(v, q), v, j1, j2, True)[0][0] for q in qs]
            points(ctx, 'scaling', plt.gcf().axes[0], qs, z)
            ctx.equal('scaling:panels', len(plt.gcf().axes), 1)
            unchanged(ctx, 'scaling:pure', sf, before)


def cumulants(case, ctx):
    from pymultifracs.cumulants import Cumulants
    n = case['n']
    for k in range(4 if not case['big'] else 12):
        fo, v, j1, j2 = quantity(k)
        js = sorted(v)
        cm = Cumulants(mrq=lib.mrq(v, fo), n_cumul=n, j1=j1, j2=j2,
                       weighted=False)
        before = engine.digest(lib.flat(cm))
        C = ref.cumulants(v, n)
        for nrow in (3, 1, 2, 4) if not case['big'] else (3, 1, 2, 4, 5, 9):
            plt = plt_()
            cm.plot(**({} if nrow == 3 else dict(nrow=nrow)))
            ctx.trace()
            axes = plt.gcf().axes
            ctx.equal('cm:panels', len(axes), n)
            if len(axes) != n:
                continue
            got = [int(numbers([ax.get_ylabel()])[-1]) for ax in axes]
            ctx.equal('cm:orders', sorted(got), list(range(1, n + 1)))
            for ax, m in zip(axes, got):
                s = {j: C[j][m - 1] for j in js}
                z, c = ref.fit(s, v, j1, j2, False)
                # high orders: as estimated
                points(ctx, 'cm:points', ax, js,
                       [s[j][0] for j in js] if m < 4 else cm.values[m - 1])
                fitted(ctx, 'cm:line', ax, *((z, c) if m < 4 else (
                    cm.slope[m - 1], cm.intercept[m - 1])), j1, j2)
                labelled(ctx, 'cm:label', legend(ax),
                         z * ref.LOG2E if m < 4 else cm.log_cumulants[m - 1],
                         5)
            ctx.state('cm', k, n, nrow)
        unchanged(ctx, 'cm:pure', cm, before)
        ctx.outcome(cm.values)


def single(case, ctx):
    """Spectrum and hmin"""
    from pymultifracs.estimation import plot_hmin
    from pymultifracs.mfspectrum import MultifractalSpectrum
    fo, v, j1, j2 = quantity(case['k'])
    for qs in ([2.], [0.], [-1., 0., 1., 2.], [3., 1., 0.5, -2., 0.]):
        sp = MultifractalSpectrum(mrq=lib.mrq(v, fo), q=np.array(qs), j1=j1,
                                  j2=j2, weighted=True)
        before = engine.digest(lib.flat(sp))
        D, h = [], []
        for q in qs:
            U, V = ref.spectrum(v, q)
            D.append(1 + ref.fit(U, v, j1, j2, True)[0][0])
            h.append(ref.fit(V, v, j1, j2, True)[0][0])
        for own in (False, True):
            plt = plt_()
            if own:
                fig, axs = plt.subplots(1, 2)
                sp.plot(ax=axs[1], fmt='r--')
                ctx.equal('spectrum:other', len(axs[0].lines), 0)
                ax = axs[1]
            else:
                sp.plot()
                ax = plt.gca()
            ctx.trace()
            points(ctx, 'spectrum', ax, h, D)
            ctx.state('spectrum', case['k'], qs, own)
        unchanged(ctx, 'spectrum:pure', sp, before)
        ctx.outcome(h, D)
    for w in (True, False):
        m = lib.mrq(v, fo)
        before = engine.digest(lib.flat(m))
        plt = plt_()
        plot_hmin(m, j1, j2, w, warn=False)
        ctx.trace()
        (s, c), sup = ref.hmin(v, j1, j2, w)
        ax = plt.gcf().axes[0]
        ctx.equal('hmin:panels', len(plt.gcf().axes), 1)
        js = list(range(j1, j2 + 1))
        points(ctx, 'hmin', ax, js, [sup[j][0] for j in js])
        fitted(ctx, 'hmin:line', ax, s, c, j1, j2)
        labelled(ctx, 'hmin:label', legend(ax), s, 5)
        unchanged(ctx, 'hmin:pure', m, before)
        ctx.state('hmin', case['k'], w)


LOGS = {'log2': np.log2, 'log': np.log}


def logged(psd, log, low=np.inf):
    f, p = np.asarray(psd.freq), np.ravel(psd.psd)
    ok = (f > 0) & (f < low)
    return LOGS[log](f[ok]), LOGS[log](p[ok])


def psds(case, ctx):
    from pymultifracs.fractal_analysis import estimate_beta, plot_fractal
    from pymultifracs.psd import log_plot, plot_psd, wavelet_estimation, \
        welch_estimation
    from pymultifracs.signal import Signal
    k = case['k']
    x = sig.make(['walk', 'multi', 'noise', 'smooth'][k % 4], 200 + k, k)
    x0 = x.copy()
    for fs, (nf, seg), m, log, band in itertools.product(
            (1.0, 100.0), ((64, None), (128, 64)), (1, 2), LOGS,
            ((0.02, 0.4), (0.01, 0.2))[:1 + (ctx.tier != 'quick')]):
        band = tuple(b * fs for b in band)
        we, wa = welch_estimation(x, fs, nf, seg), wavelet_estimation(x, fs,
                                                                      m)
        sl = estimate_beta(*wa, band, log)
        figures = [('plot_psd', lambda: plot_psd(x, fs, nf, seg, m, log)),
                   ('plot_fractal', lambda: plot_fractal(
                       x, fs, log, band, m, nf, seg)),
                   ('Signal.plot_psd', lambda: Signal(x, fs, log).plot_psd(
                       nf, seg, m)),
                   ('Signal.plot_fractal', lambda: Signal(
                       x, fs, log).plot_fractal(m, band, nf, seg))]
        if fs == 100.0:
            figures.append(('plot_fractal', lambda: plot_fractal(
                x, fs, log, band, m, nf, seg, lowpass_freq=20)))
        for i, (name, draw) in enumerate(figures):
            low = np.inf
            if name == 'plot_fractal':
                low = 20 if i == 4 else 49
            plt = plt_()
            draw()
            ctx.trace()
            ctx.equal(name + ':panels', len(plt.gcf().axes), 1)
            ax = plt.gca()
            points(ctx, name + ':welch', ax, *logged(we, log, low))
            points(ctx, name + ':wavelet', ax, *logged(wa, log, low))
            slope = 'fractal' in name
            ctx.equal(name + ':lines', len(ax.lines), 3 if slope else 2)
            names = legend(ax)
            for n in ('Fourier', 'Wavelet'):
                at = [i for i, t in enumerate(names) if n in t]
                want = logged(we if n == 'Fourier' else wa, log, low)
                got = lines(ax)[at[0]] if len(at) == 1 else None
                ctx.true(name + ':legend', got is not None and
                         got[0].shape == want[0].shape and
                         np.allclose(got[1], want[1]), f'{names}')
            if slope:
                b, c = np.ravel(sl.beta)[0], np.ravel(sl.log_C)[0]
                fr = np.ravel(sl.freq)
                points(ctx, name + ':slope', ax, fr, b * fr + c)
                labelled(ctx, name + ':label',
                         [t for t in names if 'lope' in t], b, 2)
            ctx.state(name, k, fs, nf, seg, m, log, band, low)
        ctx.outcome(we.psd[:4], wa.psd)
    # any number of spectra and slopes, in one panel given
    we, wa = welch_estimation(x, 1.0, 64), wavelet_estimation(x, 1.0, 2)
    many = [we, wa, welch_estimation(x, 2.0, 32), wavelet_estimation(x, 2., 1)]
    for n, s in itertools.product(range(1, 5), range(0, 3)):
        plt = plt_()
        fig, axs = plt.subplots(1, 2)
        slopes = [(np.array([-3., -1.]), np.array([i, 2. * i]))
                  for i in range(min(s, n))]
        log_plot([p.freq for p in many[:n]], [p.psd for p in many[:n]],
                 [f'p{i}' for i in range(n)], slope=slopes, ax=axs[1],
                 lowpass_freq=0.3)
        ctx.trace()
        ctx.equal('log_plot:other', len(axs[0].lines), 0)
        ctx.equal('log_plot:lines', len(axs[1].lines), n + len(slopes))
        for p in many[:n]:
            points(ctx, 'log_plot', axs[1], *logged(p, 'log2', 0.3))
        for a, b in slopes:
            points(ctx, 'log_plot:slope', axs[1], a, b)
        ctx.equal('log_plot:legend', legend(axs[1])[:n],
                  [f'p{i}' for i in range(n)])
        ctx.state('log_plot', k, n, s)
    ctx.true('psds:pure', np.array_equal(x, x0))


def bivariate(case, ctx):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import \
        BiStructureFunction
    import matplotlib.pyplot as plt
    fo, v1, j1, j2 = quantity(case['k'])
    v2 = {j: np.roll(a, 3, axis=0)[::-1] * (1.1 ** j)
          for j, a in v1.items()}
    v2 = {j: np.where(np.isnan(v1[j]), np.nan, np.nan_to_num(
        a, nan=0.37)) for j, a in v2.items()}
    js = sorted(v1)
    for q1, q2 in itertools.product(
            ([0., 1., 2.], [2., 0., 1., -1.], [2.], [1., 3.]),
            ([1., 2., 0.], [0., 1., 2., 3.], [-1.])):
        plt.close('all')
        sf = BiStructureFunction(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                                 j1=j1, j2=j2, q1=np.array(q1),
                                 q2=np.array(q2), weighted=True)
        before = engine.digest(lib.flat(sf))
        fig = sf.plot()
        ctx.trace()
        ctx.equal('bisf:panels', len(fig.axes), len(q1) * len(q2))
        seen = []
        for ax in fig.axes:
            nums = numbers([ax.get_title().replace('q1', 'q').replace(
                'q2', 'q')])
            pair = tuple(nums[-2:])
            seen.append(pair)
            if len(pair) < 2 or pair[0] not in q1 or pair[1] not in q2:
                continue
            s = bi.logS(v1, v2, *pair)
            z, c = bi.fit(s, v1, j1, j2, True)
            points(ctx, 'bisf:points', ax, js, [s[j] for j in js])
            fitted(ctx, 'bisf:line', ax, z, c, j1, j2)
            labelled(ctx, 'bisf:label', [t.split(':')[-1]
                                         for t in legend(ax)], z, 2)
            labelled(ctx, 'bisf:label q1', [t.split(':')[0]
                                            for t in legend(ax)], pair[0], 3)
            labelled(ctx, 'bisf:label q2', [t.split(':')[0]
                                            for t in legend(ax)], pair[1], 3)
        ctx.equal('bisf:exponents', sorted(seen),
                  sorted(itertools.product(q1, q2)))
        unchanged(ctx, 'bisf:pure', sf, before)
        ctx.state('bisf', case['k'], q1, q2)
        ctx.outcome(sf.zeta)
    for n in (1, 2, 3, 4):
        plt.close('all')
        cm = BiCumulants(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                         n_cumul=n, j1=j1, j2=j2, weighted=True)
        before = engine.digest(lib.flat(cm))
        figs = cm.plot()
        ctx.trace()
        axes = [ax for f in figs for ax in f.axes]
        ctx.equal('bicm:panels', len(axes), 2 * n + 1)
        seen = []
        C = bi.cumulants(v1, v2, n)
        for ax in axes:
            mt = re.search(r'C(\d)(\d)', ax.get_ylabel())
            if not mt:
                continue
            o = int(mt[1]), int(mt[2])
            seen.append(o)
            if o not in C:
                continue
            s = C[o] if sum(o) < 4 else dict(zip(js, cm.values[o]))
            z, c = bi.fit(s, v1, j1, j2, True)
            points(ctx, 'bicm:points', ax, js, [s[j] for j in js])
            fitted(ctx, 'bicm:line', ax, z, c, j1, j2)
            labelled(ctx, 'bicm:label', [t.split(':')[-1]
                                         for t in legend(ax)],
                     z * ref.LOG2E, 2)
            ctx.true('bicm:name', all(f'c{o[0]}{o[1]}' in t
                                      for t in legend(ax)), f'{legend(ax)}')
        ctx.equal('bicm:orders', sorted(seen), sorted(C))
        unchanged(ctx, 'bicm:pure', cm, before)
        ctx.state('bicm', case['k'], n)
        ctx.outcome(cm.values)


def legendre(case, ctx):
    """The surface: the arrays given to matplotlib"""
    from mpl_toolkits.mplot3d import Axes3D
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    import matplotlib.pyplot as plt
    k = case['k']
    c20, c02 = -0.05 - 0.03 * (k % 3), -0.1 + 0.02 * (k % 2)
    g = np.sqrt(c20 * c02)
    for (c10, c01), f in itertools.product(
            ((0.5, 0.9), (0.8, 0.4), (1.9, 2.1)), (0.5, -0.4, 0.0)):
        c11 = f * g
        v1, v2 = bi.prescribed(c10, c01, c20, c11, c02)
        cm = BiCumulants(mrq1=lib.mrq(v1, 'wavelet leader'),
                         mrq2=lib.mrq(v2, 'wavelet leader'), n_cumul=2, j1=1,
                         j2=4, weighted=True)
        before = engine.digest(lib.flat(cm))
        for kw in ({}, dict(resolution=12)) if c10 < 1 else (
                dict(h_support=(1, 3)), dict(h_support=(0.75, 3.25),
                                             resolution=12, figsize=(4, 3))):
            plt.close('all')
            seen = []
            real = Axes3D.plot_surface

            def record(self, X, Y, Z, *a, **b):
                seen.append(tuple(np.array(v) for v in (X, Y, Z)))
                return real(self, X, Y, Z, *a, **b)
            Axes3D.plot_surface = record
            try:
                cm.plot_legendre(**kw)
            finally:
                Axes3D.plot_surface = real
            ctx.trace()
            ctx.equal('legendre:figsize', plt.gcf().get_size_inches().tolist(),
                      list(map(float, kw.get('figsize', (10, 10)))))
            if not ctx.equal('legendre:surfaces', len(seen), 1):
                continue
            X, Y, Z = seen[0]
            Ki = np.linalg.inv([[c20, c11], [c11, c02]])

            def L(h1, h2):
                d = np.stack([h1 - c10, h2 - c01], -1)
                return 1 + 0.5 * np.einsum('...i,ij,...j->...', d, Ki, d)
            ok = [np.allclose(Z, L(X, Y), atol=1e-6),
                  np.allclose(Z, L(Y, X), atol=1e-6)]
            ctx.true('legendre:surface', any(ok),
                     f'the drawn surface is not the spectrum ({c10}, {c01})')
            ctx.true('legendre:support', Z.max() > 0.9, f'{Z.max()}')
            ctx.state('legendre', k, c10, c01, f, sorted(kw))
            ctx.outcome(Z)
        unchanged(ctx, 'legendre:pure', cm, before)


def averages(case, ctx):
    import matplotlib.pyplot as plt
    import pandas as pd
    from pymultifracs.viz import plot_multiscale
    F = np.array([.1, .2, .4, .8, 1.6, 3.2, 60.])
    colors = {'rest': 'red', 'task': 'blue', 'rest_avg': 'black',
              'task_avg': 'green'}
    for n, segs in itertools.product((1, 2, 3), (['rest'], ['rest', 'task'],
                                                 ['task', 'rest'])):
        for cut in itertools.product((0, 1, 2), repeat=n):
            idx = pd.MultiIndex.from_product([[f's{i}' for i in range(n)],
                                              segs])
            rows = []
            for i, seg in idx:
                k = cut[int(i[1:])]
                f = F[k // 2:len(F) - k % 2]
                rows.append((f, (1 + int(i[1:])) * f ** (
                    -1. if seg == 'rest' else 0.5),
                    [np.array([-2., -1.]), np.array([1., 0.])]))
            df = pd.DataFrame(rows, index=idx,
                              columns=['freq', 'mscale', 'slope'])
            plt.close('all')
            fig, ax = plt.subplots()
            plot_multiscale(df, colors, ax)
            ctx.trace()
            got = [(ln.get_color(), np.asarray(ln.get_xdata()),
                    np.asarray(ln.get_ydata())) for ln in ax.lines]
            want = []
            for seg in segs:
                fs = [df.loc[(f's{i}', seg), 'freq'] for i in range(n)]
                ms = [df.loc[(f's{i}', seg), 'mscale'] for i in range(n)]
                want += [(colors[seg], f, m) for f, m in zip(fs, ms)]
                common = [f for f in F if all(f in g for g in fs)]
                want.append((colors[seg + '_avg'], np.array(common), np.array(
                    [np.mean([m[list(g).index(f)] for g, m in zip(fs, ms)])
                     for f in common])))
            ctx.equal('averages:lines', len(got), len(want))
            for c, f, m in want:
                f, m = f[f < 50], m[f < 50]
                ctx.true('averages', any(
                    c == d and x.shape == f.shape
                    and np.allclose(x, np.log2(f))
                    and np.allclose(y, np.log2(m)) for d, x, y in got),
                    f'no {c} line {f}, {m}')
            ctx.state('averages', n, segs, cut)
    ctx.outcome('averages', [g[2] for g in got])
