"""Realisations do not influence each other: every sequence of up to R
realisations of different kinds, with every formalism, against each alone."""
import itertools

import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
KINDS = ['walk', 'diff', 'smooth', 'big', 'const2']
# far from zero, or almost the same
CLOSE = ['walk', 'walk+1e7', 'near', 'near2', 'same', 'walk+1e12']
BOUNDS = {
    'quick': 'every sequence of 1..3 realisations of 5 kinds (eta_p above and '
             'below 0, amplitudes 1 and 1e6, exact zeros) x 5 formalisms, and '
             'of 4 x 2; configurations within 2 changes with 2, 3 and 18 '
             'realisations; every pair and triple of 6 kinds that differ little '
             'or have a large mean x 3 formalisms; 21 numbers of realisations from 16 to 513 x 3 '
             'formalisms',
    'thorough': 'every sequence of up to 4 realisations x 6 formalisms, '
                'configurations within 3 changes',
}
RULE = ('a state is the sequence of realisations and the formalism; '
        'non-trivial: the realisations differ')


def cases(tier):
    quick = tier == 'quick'
    for R in (1, 2, 3, 4):
        for kinds in itertools.product(KINDS, repeat=R):
            ps = ['none', 'inf', '2', '1', '0.5']
            if R == 4 and quick:
                if len(set(kinds)) < 4:
                    continue
                ps = ['inf', '2']
            for p in ps:
                yield dict(t='seq', kinds=kinds, p=p)
    for R in (2, 3):
        for kinds in itertools.product(CLOSE, repeat=R):
            for p in ('none', 'inf', '2'):
                yield dict(t='seq', kinds=kinds, p=p)
    for c in lib.space(2 if quick else 3, p=['2', 'inf', 'none', '0.5'],
                       kind=['walk+diff', 'walk', 'noise', 'multi+smooth',
                             'big+tiny', 'diff+diff+walk'],
                       reps=[3, 2, 18], drop=['dim'],
                       layout=['C', 'F', 'strided', 'reversed', 'int']):
        if c['p'] in ('0.5', '2') and (ref.max_level(c['n'], c['wt']) < 3):
            continue
        yield dict(t='config', **c)
    # sizes about which a block, a chunk or a pool might end
    for R in (16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128,
              129, 130, 200, 255, 256, 257, 513) + (
                  () if quick else (500, 1000, 1001, 1023, 1024, 1025)):
        for p in ('none', 'inf', '2'):
            yield dict(t='many', R=R, p=p)
    for c in lib.space(1 if quick else 2, drop=['dim', 'reps', 'layout']):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='dim', reps=1, **c)


def real(kind, n, k):
    if kind == 'const2':
        x = sig.make('walk', n, k)
        x[n // 3:n // 3 + 24] = x[n // 3]       # exact zeros among the details
        return x
    if kind in CLOSE[1:]:
        if kind == 'same':
            return sig.make('walk', n, 1)
        x = sig.make('walk', n, 1 if kind.startswith('near') else k)
        if kind.startswith('walk'):
            # multiples of 2^-8: exact
            return np.round(x * 256) / 256 + float(kind[5:])
        return x + {'near': 1e-7, 'near2': 1e-11}[kind] * sig.make(
            'noise', n, k)
    return sig.make(kind, n, k)


Q = np.array([2., -0.5, 0., 1.])


def analyse(case, x):
    t = lib.wt(case, x)
    if t.j2_eff <= case['j1']:
        return t, None
    from pymultifracs.estimation import compute_hurst, estimate_hmin
    d = lib.mfa(t, case['j1'], case['weighted'], 3, Q)
    a = (case['j1'], t.j2_eff, case['weighted'])
    return t, (d, estimate_hmin(t.wt_coefs, *a, warn=False),
               compute_hurst(t.wt_coefs, *a))


def cols(res, r, R):
    """Realisation r, of R, of a result"""
    out = {}
    for k, v in lib.flat(res).items():
        last = k.rsplit('.', 1)[-1]
        if last in ('q', 'm', 'j') or not isinstance(v, np.ndarray) \
                or v.ndim == 0:
            out[k] = v
        else:
            assert v.shape[-1] == R, (k, v.shape)
            out[k] = v[..., r]
        if last == 'nrep':
            out[k] = 1
    return out


def compare(ctx, key, got, want, rtol=1e-9, atol=1e-9):
    ctx.equal(key + ':fields', sorted(got), sorted(want))
    for k, w in want.items():
        if k not in got:
            continue
        if isinstance(w, (np.ndarray, float, np.floating)):
            ctx.close(f'{key}{k}', got[k], w, rtol=rtol, atol=atol)
        else:
            ctx.equal(f'{key}{k}', got[k], w)


def check(case, ctx):
    if case['t'] in ('seq', 'many'):
        if case['t'] == 'many':
            case = dict(case, kinds=[KINDS[k % 5] for k in range(case['R'])])
        c = dict(case, n=200, wt='db2', j1=1, j2=4, gamint=0.0, norm=1,
                 weighted=True)
        x = np.stack([real(k, 200, 11 * i + 1)
                      for i, k in enumerate(case['kinds'])], axis=1)
    else:
        c = case
        x = lib.signal(dict(case, layout=case.get('layout', 'C')))
    if case['t'] == 'many':
        x = x[:100]
    R = x.shape[1]
    allr = analyse(c, x)
    ctx.trace(1 + R)
    if case['t'] == 'dim':
        one = analyse(c, x[:, 0].copy())
        compare(ctx, '1-D', lib.flat(one), lib.flat(allr))
        ctx.state(sorted(map(str, case.items())))
        ctx.outcome(allr[0].j2_eff, lib.vals(allr[0].wt_coefs)[1])
        return
    # what the level of the signals costs in precision
    tol = {}
    if any(k == 'walk+1e12' for k in case.get('kinds', ())):
        tol = dict(rtol=1e-2, atol=1e-2)
    elif any(k == 'walk+1e7' for k in case.get('kinds', ())):
        tol = dict(rtol=1e-6, atol=1e-6)
    for r in range(R):
        y = np.ascontiguousarray(x[:, r:r + 1])
        compare(ctx, 'alone', cols(allr, r, R), cols(analyse(c, y), 0, 1),
                **tol)
    ctx.state(sorted(map(str, case.items())))
    ctx.outcome(allr[0].j2_eff, lib.vals(allr[0].wt_coefs)[1])
