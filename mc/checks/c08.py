"""Cumulants and log-cumulants: every small scale over a value alphabet, every
number of cumulants, and the configurations, against centred moments."""
import numpy as np

from .. import engine, lib, oracle, ref
from . import c07

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every scale of up to 4 values from {1,-2,0.5,3,missing} at each '
             'of 3 positions x 1..6 cumulants, all as realisations and alone; '
             '1..9 cumulants on transforms; quantities of 12 and 25 scales, 140 exponents, repeated '
             'exponents, 70 realisations, up to 70000 values per scale; configurations '
             'within 2 changes',
    'thorough': 'scales of up to 5 values, configurations within 3 changes',
}
RULE = ('a state is the values of a scale and the number of cumulants; '
        'non-trivial: the second cumulant is not zero')


def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for n in (1, 2, 3, 4, 6):
                for weighted in (True, False):
                    yield dict(t='values', size=size, place=place, n=n,
                               weighted=weighted)
    for name in oracle.LARGE:
        for weighted in (True, False):
            yield dict(t='large', name=name, weighted=weighted)
    for c in lib.space(2 if quick else 3, drop=['dim', 'layout'],
                       m=[3, 1, 2, 4, 5, 6, 9], how=['class', 'mf']):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def check(case, ctx):
    from pymultifracs.cumulants import Cumulants
    if case['t'] == 'values':
        combos = c07.scale_values(case['size'])
        v = np.array(combos).T
        groups = [v] + [v[:, i:i + 1] for i in range(0, len(combos), 11)]
        for g in groups:
            values = c07.build(g, None, case['place'])
            cm = Cumulants(mrq=lib.mrq(values, 'wavelet leader'),
                           n_cumul=case['n'], j1=1, j2=3,
                           weighted=case['weighted'])
            ctx.trace()
            oracle.cumulants(ctx, 'values', cm, values, case['n'], 1, 3,
                             case['weighted'])
            ctx.outcome(cm.log_cumulants)
        for c in combos:
            ctx.state(case['place'], case['n'], case['weighted'], repr(c))
        return
    if case['t'] == 'large':
        values, _, spans = oracle.large(case['name'])
        for k, (j1, j2) in enumerate(spans):
            n = 9 if case['name'] == 'exponents' else 1 + k % 4
            cm = Cumulants(mrq=lib.mrq(values), n_cumul=n, j1=j1, j2=j2,
                           weighted=case['weighted'])
            ctx.trace()
            oracle.cumulants(ctx, 'large', cm, values, n, j1, j2,
                             case['weighted'])
            ctx.state(case['name'], case['weighted'], j1, j2)
            ctx.outcome(cm.log_cumulants)
        return
    t = lib.wt(case)
    a = (case['j1'], t.j2_eff, case['weighted'])
    if a[1] <= a[0]:
        ctx.skipped += 1
        return
    if case['how'] == 'mf':
        from pymultifracs.mfa import mf_analysis
        d = mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, case['j1'],
                        case['weighted'], case['m'], [2])
        cms = [d.dwt.cumulants, d.lwt and d.lwt.cumulants]
    else:
        cms = [m and Cumulants(mrq=m, n_cumul=case['m'], j1=a[0], j2=a[1],
                               weighted=a[2])
               for m in (t.wt_coefs, t.wt_leaders)]
    for m, cm in zip((t.wt_coefs, t.wt_leaders), cms):
        if m is None:
            continue
        ctx.trace()
        oracle.cumulants(ctx, 'config', cm, lib.vals(m), case['m'], *a)
        ctx.equal('formalism', cm.formalism, m.formalism)
        ctx.state(sorted(case.items()), m.formalism)
        ctx.outcome(cm.log_cumulants)
