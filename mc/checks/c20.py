"""Bivariate cumulants, log-cumulants and correlations: every small pair of
scales, quantities with prescribed log-cumulants, and the configurations."""
import itertools

import numpy as np

from .. import bi, lib
from . import c19

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every scale of up to 4 positions over 7 pairs of values '
             '(missing in either or both) at each of 3 positions x 1..4 cumulants, as '
             'coefficients and leaders; every combination of prescribed '
             'c10, c01 (3 values each), c20, c02, c11 (4 values each); '
             'every combination of 5 relations of the signals at 3 scales; '
             'configurations within 2 changes; 12 and 25 scales, up to 70000 '
             'values per scale',
    'thorough': 'scales of up to 5 positions, configurations within 3 changes',
}
RULE = ('a state is the pair of scales (log-cumulants, configuration); '
        'non-trivial: the covariance is not zero')
C1 = (-0.5, 0.25, 1.0)
C2 = (-0.4, -0.1, 0.0, 0.2)


def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for first in range(len(c19.PAIRS)):
                yield dict(t='values', size=size, place=place, first=first)
    for c10, c01, c20 in itertools.product(C1, C1, C2):
        yield dict(t='prescribed', c10=c10, c01=c01, c20=c20)
    yield dict(t='related')
    for name in bi.LARGE[:-1]:
        yield dict(t='large', name=name)
    yield from c19.configs(2 if quick else 3, m=[3, 1, 2, 4, 6])


def check(case, ctx):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    if case['t'] == 'values':
        for k, s in enumerate(c19.scales(case['size'], case['first'])):
            v1, v2 = c19.build(s, case['place'])
            for n, weighted, fo in ((2, True, 'wavelet leader'),
                                    (3, False, 'wavelet p-leader'),
                                    (4, True, 'wavelet coef'),
                                    (1, True, 'wavelet leader')):
                cm = BiCumulants(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                                 n_cumul=n, j1=1, j2=3, weighted=weighted)
                ctx.trace()
                bi.check_cumulants(ctx, 'values', cm, v1, v2, n, 1, 3,
                                   weighted, fo != 'wavelet coef')
                ctx.state(case['place'], n, repr(s))
            ctx.outcome(cm.log_cumulants)
        return
    if case['t'] == 'large':
        for name, v1, v2, _, _, spans in bi.large(case['name']):
            n = 9 if name == 'exponents' else 3
            for (j1, j2), weighted in itertools.product(spans, (True, False)):
                for fo in ('wavelet leader', 'wavelet coef'):
                    cm = BiCumulants(mrq1=lib.mrq(v1, fo),
                                     mrq2=lib.mrq(v2, fo), n_cumul=n, j1=j1,
                                     j2=j2, weighted=weighted)
                    ctx.trace()
                    bi.check_cumulants(ctx, 'large', cm, v1, v2, n, j1, j2,
                                       weighted, fo != 'wavelet coef')
                ctx.state(name, j1, j2, weighted)
            ctx.outcome(cm.log_cumulants)
        return
    if case['t'] == 'related':
        for names, v1, v2 in bi.related():
            for fo in ('wavelet leader', 'wavelet coef'):
                cm = BiCumulants(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                                 n_cumul=3, j1=1, j2=3, weighted=True)
                ctx.trace()
                bi.check_cumulants(ctx, 'related', cm, v1, v2, 3, 1, 3, True,
                                   fo != 'wavelet coef')
            ctx.state('related', names)
            ctx.outcome(cm.log_cumulants)
        return
    if case['t'] == 'prescribed':
        for c02, c11 in itertools.product(C2, C2):
            c = (case['c10'], case['c01'], case['c20'], c11, c02)
            v1, v2 = bi.prescribed(*c)
            fo = 'wavelet leader'
            cm = BiCumulants(mrq1=lib.mrq(v1, fo), mrq2=lib.mrq(v2, fo),
                             n_cumul=2, j1=1, j2=4, weighted=True)
            ctx.trace()
            bi.check_cumulants(ctx, 'prescribed', cm, v1, v2, 2, 1, 4, True,
                               True)
            ctx.close('prescribed:exact', [
                cm.log_cumulants[1, 0], cm.log_cumulants[0, 1],
                cm.log_cumulants[2, 0], cm.log_cumulants[1, 1],
                cm.log_cumulants[0, 2]], c, atol=1e-9)
            ctx.state(c)
            ctx.outcome(cm.log_cumulants)
        return
    from pymultifracs.bivariate import bivariate_analysis
    a, b = c19.transforms(case)
    j2 = min(a.j2_eff, b.j2_eff)
    if j2 <= case['j1']:
        ctx.skipped += 1
        return
    q = np.array([0., 1., 2.])
    got = bivariate_analysis(a, b, case['j1'], case['weighted'], case['m'], q,
                             q)
    ctx.trace()
    for name, part in (('wt_coefs', got.dwt), ('wt_leaders', got.lwt)):
        m1, m2 = getattr(a, name), getattr(b, name)
        ctx.equal('config:' + name, part is None, m1 is None)
        if m1 is None or part is None:
            continue
        bi.check_cumulants(ctx, 'config:' + name, part.cumulants,
                           lib.vals(m1), lib.vals(m2), case['m'], case['j1'],
                           j2, case['weighted'], name == 'wt_leaders')
        ctx.state(sorted(case.items()), name)
        ctx.outcome(part.cumulants.log_cumulants)
