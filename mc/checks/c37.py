"""Translation and locality: every cut of a signal at either end, every change
of one sample, against the transform of the whole signal."""
import itertools

import numpy as np

from .. import lib, ref, sig

LEVEL = 'model_checking'
WAVES = ['db2', 'db1', 'db3', 'sym4', 'bior2.2', 'coif1']
BOUNDS = {
    'quick': 'signals of 300 (coarsest scale 4): every cut of 0, 16, 32, .. '
             '96 samples at the start with every cut of 0..40 at the end, 6 '
             'wavelets x 5 formalisms; every change of one sample and of two '
             'at 4 distances (and of four sizes) in signals of 128, 4 '
             'wavelets x 3 formalisms; signals of up to 2^17 with 3 cuts; the same with a gap',
    'thorough': 'cuts of 0..100 at the end, 3 realisations, all the wavelets '
                'for the changes',
}
RULE = ('a state is (cut or change, wavelet, formalism); non-trivial: some '
        'values moved')
PS = ['none', 'inf', '2', '1', '0.5']
BASE = dict(j1=1, j2=4, gamint=0.0, norm=1, weighted=True)


def cases(tier):
    quick = tier == 'quick'
    for wt, p, gap in itertools.product(WAVES, PS, (False, True)):
        for a in range(0, 97, 16):
            yield dict(BASE, t='cut', n=300, wt=wt, p=p, a=a, gap=gap,
                       last=40 if quick else 100)
    for wt, p in itertools.product(WAVES[:4] if quick else WAVES, PS[:3]):
        for d in (0, 1, 7, 40, 64):
            yield dict(BASE, t='change', n=128, wt=wt, p=p, d=d)
        for size in (1e8, 1e16, 1e-12):
            yield dict(BASE, t='change', n=128, wt=wt, p=p, d=40, size=size)
    for n in (5000, 2 ** 14 + 1, 2 ** 16 + 3, 2 ** 17 + 200):
        for p in PS[:1] if n > 20000 else PS[:3]:
            for a in (16, 1600):
                yield dict(BASE, t='long', n=n, wt='db3', p=p, a=a, gap=True)


def check(case, ctx):
    globals()[case['t']](case, ctx)


def values(t):
    out = {'coefs': lib.vals(t.wt_coefs)}
    if t.wt_leaders is not None:
        out['leaders'] = lib.vals(t.wt_leaders)
    return out


def correction(t, case, j):
    p = sig.p_of(case['p'])
    if t.eta_p is None or p is None or np.isinf(p):
        return 1.0
    return ref.correction(float(t.eta_p[0]), p, j)


def seen(coefs, j, n):
    """For each leader at scale j: which finer coefficients it sees"""
    rows = [[] for _ in range(n)]
    for jp in range(1, j + 1):
        ok = ~np.isnan(coefs[jp][:, 0])
        for k in range(n):
            a, b = ref.leader_range(j, k, jp)
            rows[k].append(ok[a:b])
    return [np.concatenate(r) for r in rows]


def moved(ctx, case, whole, part, a, key):
    """part: the transform from sample a on"""
    v, w = values(whole), values(part)
    ctx.equal(key + ':kinds', sorted(v), sorted(w))
    n_moved = 0
    for name in w:
        for j in w[name]:
            if j > 4 or j not in v[name]:
                continue
            s = a // 2 ** j
            x, y = v[name][j][s:, 0], w[name][j][:, 0]
            ctx.true(f'{key}:{name} size', len(y) <= len(x))
            x = x[:len(y)]
            at = 1e-10 * np.nanmax(np.abs(x), initial=0)
            if name == 'coefs':
                # the cut may lose values at its ends, and make none
                ctx.true(f'{key}:coefs made', np.isnan(y[np.isnan(x)]).all())
                ok = ~np.isnan(y)
            else:
                x = x / correction(whole, case, j)
                y = y / correction(part, case, j)
                if case['n'] > 1000:
                    m = 2 + 3 * max(len(x) // 50, 40)
                    ok = np.zeros(len(y), dtype=bool)
                    ok[m:-m] = True
                else:
                    one = seen(v['coefs'], j, s + len(y))[s:]
                    two = seen(w['coefs'], j, len(y))
                    ok = np.array([np.array_equal(p, q)
                                   for p, q in zip(one, two)])
            ctx.close(f'{key}:{name}', y[ok], x[ok], rtol=1e-8, atol=at)
            n_moved += int(ok.sum())
    return n_moved


def signal(case, seed=5):
    x = sig.make('walk', case['n'], seed)
    if case.get('gap'):
        x[case['n'] // 2:case['n'] // 2 + 3] = np.nan
    return x


def cut(case, ctx):
    x = signal(case)
    whole = lib.wt(case, x)
    for b in range(case['last'] + 1):
        part = lib.wt(case, x[case['a']:len(x) - b].copy())
        ctx.trace()
        m = moved(ctx, case, whole, part, case['a'], 'cut')
        ctx.true('cut:some', m > 20)
        ctx.state(sorted(map(str, case.items())), b)
    ctx.outcome(m)


def long(case, ctx):
    x = signal(case)
    case = dict(case, j2=4)
    whole = lib.wt(case, x)
    for b in (0, 1, 1003):
        part = lib.wt(case, x[case['a']:len(x) - b].copy())
        ctx.trace()
        m = moved(ctx, case, whole, part, case['a'], 'long')
        ctx.true('long:some', m > case['n'] // 4)
        ctx.state(sorted(map(str, case.items())), b)
    ctx.outcome(m)


def change(case, ctx):
    """Only what sees the sample is changed"""
    import pywt
    L = len(pywt.Wavelet(case['wt']).dec_hi)
    s = (L - 1) // 2
    x = signal(case)
    whole = lib.wt(case, x)
    v = values(whole)
    n = case['n']
    for i in range(n):
        y = x.copy()
        size = case.get('size', 1.0)
        y[i] += 3.0 * size
        if case['d']:
            y[(i + case['d']) % n] -= 1.5 * size
        part = lib.wt(case, y)
        w = values(part)
        ctx.trace()
        ctx.equal('change:scales', [sorted(k) for k in w.values()],
                  [sorted(k) for k in v.values()])
        # the positions that see the change, scale after scale
        a = np.zeros(n, dtype=bool)
        a[i] = True
        if case['d']:
            a[(i + case['d']) % n] = True
        hit = {}
        for j in sorted(v['coefs']):
            b = np.array([any(a[k + s - t] for t in range(L)
                              if 0 <= k + s - t < len(a))
                          for k in range(len(a))], dtype=bool)
            a = hit[j] = b[1::2]
        for j in v['coefs']:
            p, q = v['coefs'][j][:, 0], w['coefs'][j][:, 0]
            ctx.true('change:missing', np.array_equal(np.isnan(p),
                                                      np.isnan(q)))
            ok = ~hit[j] & ~np.isnan(p)
            ctx.true('change:coefs', np.allclose(
                p[ok], q[ok], rtol=1e-9, atol=1e-10 * np.nanmax(np.abs(p))),
                f'coefficients at scale {j} that do not see sample {i} '
                'changed')
        if case['p'] != 'none':
            for j in v['leaders']:
                p = v['leaders'][j][:, 0] / correction(whole, case, j)
                q = w['leaders'][j][:, 0] / correction(part, case, j)
                far = np.array([not any(
                    hit[jp][slice(*ref.leader_range(j, k, jp))].any()
                    for jp in range(1, j + 1)) for k in range(len(p))])
                ok = far & ~np.isnan(p)
                ctx.true('change:leaders', np.allclose(
                    p[ok], q[ok], rtol=1e-8, atol=0),
                    f'leaders at scale {j} that do not see sample {i} '
                    'changed')
        ctx.state(case['wt'], case['p'], case['d'], i)
        ctx.outcome(case['wt'], [int(h.sum()) for h in hit.values()])
