"""hmin and the Hurst exponent: every small scale over a value alphabet, every
sign pattern of hmin over the realisations, and the configurations."""
import itertools

import numpy as np

from .. import engine, lib, oracle, ref
from . import c07

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every scale of up to 4 values from {1,-2,0.5,3,missing} at each '
             'of 3 positions; every assignment of slopes {1,-1,0.25,-0.25} to '
             '1..3 realisations x warn on/off; every pattern of zeros in 4 values; '
             'quantities of 12 and 25 scales, 140 exponents, repeated '
             'exponents, 70 realisations, up to 70000 values per scale; configurations within 2 '
             'changes',
    'thorough': 'scales of up to 5 values, configurations within 3 changes',
}
RULE = ('a state is the values of a scale (or the slopes of the '
        'realisations); non-trivial: the largest value is not the first')


def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for weighted in (True, False):
                yield dict(t='values', size=size, place=place,
                           weighted=weighted)
    for R in (1, 2, 3):
        for s in itertools.product([1.0, 0.25, -1.0, -0.25], repeat=R):
            for warn in (True, False):
                yield dict(t='warn', slopes=s, warn=warn)
    for name in oracle.LARGE:
        for weighted in (True, False):
            yield dict(t='large', name=name, weighted=weighted)
    yield dict(t='zeros')
    for c in lib.space(2 if quick else 3, drop=['dim', 'layout']):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def warned(ctx, key, slopes, warn, w):
    """The warning is for negative values"""
    low = np.min(slopes)
    if abs(low) < 1e-9:
        return
    seen = bool(lib.user(w))
    if not warn or low > 0:
        ctx.equal(key + ':unwanted warning', seen, False)
    elif low < 0:
        ctx.step()
        if not seen:
            ctx.fail('no-warning-negative-hmin',
                     f'hmin = {slopes} and no warning')


def both(ctx, key, m, values, j1, j2, weighted, warn=True):
    from pymultifracs.estimation import compute_hurst, estimate_hmin
    (h, icpt), sup = ref.hmin(values, j1, j2, weighted)
    size = 1 + np.abs(ref.stack(sup, sorted(sup))).max()
    at = 1e-9 * size
    got, w = lib.caught(estimate_hmin, m, j1, j2, weighted, warn=warn)
    ctx.trace(3)
    ctx.equal(key + ':len', len(got), 2)
    ctx.close(key + ':hmin', got[0], h, atol=at)
    ctx.close(key + ':intercept', got[1], icpt, atol=9 * at)
    warned(ctx, key, h, warn, w)
    got = estimate_hmin(m, j1, j2, weighted, warn=False, return_y=True)
    ctx.close(key + ':hmin', got[0], h, atol=at)
    ctx.close(key + ':y', got[2], ref.stack(sup, range(j1, j2 + 1)), atol=at)
    hu, st, log2s = compute_hurst(m, j1, j2, weighted)
    lg = ref.logS(values, 2)
    z = ref.fit(lg, values, j1, j2, weighted)
    ctx.close(key + ':hurst', hu, z[0] / 2, atol=at)
    ctx.close(key + ':log2 S', log2s, ref.stack(lg, sorted(values)), atol=at)
    ctx.close(key + ':structure', st.zeta, z[0][None], atol=at)
    ctx.close(key + ':structure', st.intercept, z[1][None], atol=9 * at)
    ctx.outcome(h, z[0])


def check(case, ctx):
    if case['t'] == 'values':
        combos = c07.scale_values(case['size'])
        v = np.array(combos).T
        groups = [v] + [v[:, i:i + 1] for i in range(0, len(combos), 5)]
        for g in groups:
            values = c07.build(g, None, case['place'])
            for j1, j2 in ((1, 3), (1, 2), (2, 3)):
                both(ctx, 'values', lib.mrq(values), values, j1, j2,
                     case['weighted'])
        for c in combos:
            ctx.state(case['place'], case['weighted'], repr(c))
        return
    if case['t'] == 'large':
        values, _, spans = oracle.large(case['name'])
        for j1, j2 in spans:
            both(ctx, 'large', lib.mrq(values), values, j1, j2,
                 case['weighted'])
            ctx.state(case['name'], case['weighted'], j1, j2)
        return
    if case['t'] == 'zeros':
        for pat, values in oracle.zeros():
            for weighted in (True, False):
                both(ctx, 'zeros', lib.mrq(values), values, 1, 3, weighted)
            ctx.state('zeros', pat)
        return
    if case['t'] == 'warn':
        s = np.array(case['slopes'])
        values = {j: np.array([[0.5], [-1.0], [0.25], [np.nan]])
                  * 2.0 ** (j * s) for j in (1, 2, 3)}
        both(ctx, 'warn', lib.mrq(values), values, 1, 3, True, case['warn'])
        ctx.state(case['slopes'], case['warn'])
        return
    t = lib.wt(case)
    if t.j2_eff <= case['j1']:
        ctx.skipped += 1
        return
    for m in (t.wt_coefs, t.wt_leaders):
        if m is not None:
            both(ctx, 'config', m, lib.vals(m), case['j1'], t.j2_eff,
                 case['weighted'])
            ctx.state(sorted(case.items()), m.formalism)
