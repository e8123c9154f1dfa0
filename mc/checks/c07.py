"""Structure functions: every small scale over a value alphabet, every ordered
list of exponents, and the configurations, against the definition."""
import itertools

import numpy as np

from .. import engine, lib, oracle, ref

LEVEL = 'model_checking'
ALPHA = [1.0, -2.0, 0.5, 3.0, np.nan]
QS = [2, 1, 0, -1, 0.5, -0.5, 3, -2, 2.5, 10, 11, -3, 7]
BOUNDS = {
    'quick': 'every scale of up to 4 values from {1,-2,0.5,3,missing} at each '
             'of 3 positions of the range, all as realisations and alone; '
             'every ordered list of up to 2 of 13 exponents and of 3 of 6, as '
             'integers, floats and mixed; every pair of 17 amplitudes from 1e-100 '
             'to 1e100; every pattern of zeros in 4 values; '
             'quantities of 12 and 25 scales, 140 exponents, repeated '
             'exponents, 70 realisations, up to 70000 values per scale; configurations within 2 changes',
    'thorough': 'scales of up to 5 values; ordered lists of up to 3 of 13 '
                'exponents; configurations within 3 changes',
}
RULE = ('a state is the values of a scale (or the list of exponents); '
        'non-trivial: the values are not all equal')

# amplitudes, and the exponents they allow in double precision
RANGE = [-100, -60, -45, -30, -20, -14, -8, -3, 0, 3, 8, 14, 20, 30, 45, 60,
         100]


def ranges(a):
    """Two realisations of amplitudes 10^a and 10^b, and one of both"""
    for b in RANGE:
        x = np.array([1., -2., 3., -.5, 1.5, np.nan, 2.5, -.75])
        values = {}
        for j in (1, 2, 3):
            u, v = (x[:9 - j] * 1.3 ** j * 10. ** e for e in (a, b))
            w = np.where(np.arange(9 - j) % 2, u, v)
            values[j] = np.stack([u, v, w], axis=1)
        top = 280 / max(abs(a), abs(b), 1)
        q = [e for e in (2., 1., -1., 0., 0.5, -2., 4., 12., -6.)
             if abs(e) <= top]
        yield b, values, np.array(q)


def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for weighted in (True, False):
                yield dict(t='values', size=size, place=place,
                           weighted=weighted)
    for k in (1, 2, 3):
        pool = QS if k < 3 or not quick else QS[:6]
        for first in pool:
            yield dict(t='q', k=k, first=first, pool=len(pool))
    for a in RANGE:
        yield dict(t='range', a=a)
    for name in oracle.LARGE:
        for weighted in (True, False):
            yield dict(t='large', name=name, weighted=weighted)
    yield dict(t='zeros')
    for c in lib.space(2 if quick else 3, drop=['dim', 'layout'],
                       qtype=['float', 'int', 'list', 'npint', 'no2'],
                       how=['class', 'mf']):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def scale_values(size):
    return [v for v in itertools.product(ALPHA, repeat=size)
            if not all(np.isnan(v))]


def build(v, others, place):
    """3 scales, v at one of them. others: columns"""
    R = np.asarray(v).shape[1]
    out = {}
    for j in (1, 2, 3):
        out[j] = np.asarray(v) if j == place else \
            np.outer([1.5, -0.75, 2.0, 1.0][:5 - j], np.ones(R)) * 0.8 ** j
    return out


def check(case, ctx):
    from pymultifracs.structurefunction import StructureFunction
    if case['t'] == 'values':
        combos = scale_values(case['size'])
        q = np.array([2., 1., 0., -1., 0.5, -1.5, 3.])
        v = np.array(combos).T
        # all together, then one by one
        groups = [v] + [v[:, i:i + 1] for i in range(0, len(combos),
                                                     1 if len(combos) < 130
                                                     else 7)]
        for g in groups:
            values = build(g, None, case['place'])
            sf = StructureFunction(mrq=lib.mrq(values), q=q, j1=1, j2=3,
                                   weighted=case['weighted'])
            ctx.trace()
            oracle.structure(ctx, 'values', sf, values, q, 1, 3,
                             case['weighted'], 0.0, 'wavelet coef')
            ctx.outcome(sf.zeta)
        for c in combos:
            ctx.state(case['place'], case['weighted'], repr(c))
        return
    if case['t'] == 'large':
        values, q, spans = oracle.large(case['name'])
        for j1, j2 in spans:
            sf = StructureFunction(mrq=lib.mrq(values), q=q, j1=j1, j2=j2,
                                   weighted=case['weighted'])
            ctx.trace()
            oracle.structure(ctx, 'large', sf, values, q, j1, j2,
                             case['weighted'], 0.0, 'wavelet coef')
            ctx.state(case['name'], case['weighted'], j1, j2)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'zeros':
        q = np.array([2., 0., 0.5, 1., 3.])
        for pat, values in oracle.zeros():
            for weighted in (True, False):
                sf = StructureFunction(mrq=lib.mrq(values), q=q, j1=1, j2=3,
                                       weighted=weighted)
                ctx.trace()
                oracle.structure(ctx, 'zeros', sf, values, q, 1, 3, weighted,
                                 0.0, 'wavelet coef')
            ctx.state('zeros', pat)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'range':
        for b, values, q in ranges(case['a']):
            sf = StructureFunction(mrq=lib.mrq(values), q=q, j1=1, j2=3,
                                   weighted=True)
            ctx.trace()
            oracle.structure(ctx, 'range', sf, values, q, 1, 3, True, 0.0,
                             'wavelet coef')
            ctx.state(case['a'], b)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'q':
        pool = QS[:case['pool']]
        rng = np.array([[1., 2.], [-3., 0.25], [0.5, -1.5], [2.5, np.nan],
                        [1.25, 1.1], [0.7, -0.2], [0.9, 4.]])
        values = {j: rng[:8 - j] * 1.3 ** j for j in (1, 2, 3, 4)}
        values[3] = values[3] ** 2
        rest = [p for p in itertools.product(pool, repeat=case['k'] - 1)]
        for r in rest:
            qs = [case['first'], *r]
            forms = [np.array(qs, dtype=float), list(qs)]
            if all(isinstance(e, int) for e in qs):
                forms.append(np.array(qs))
            for form in forms:
                for fo, g in (('wavelet leader', 0.5), ('wavelet coef', 0.)):
                    if fo == 'wavelet leader' and case['k'] == 3:
                        continue
                    sf = StructureFunction(mrq=lib.mrq(values, fo, g), q=form,
                                           j1=2, j2=4, weighted=True)
                    ctx.trace()
                    oracle.structure(ctx, 'q', sf, values, qs, 2, 4, True, g,
                                     fo)
                    ctx.outcome(sf.zeta)
            ctx.state(qs)
        return
    t = lib.wt(case)
    q = {'float': np.array([2., -1., 0., 0.5, 3.]),
         'int': [2, 1, -2, 0], 'list': [0.0, 2.0, 1.0],
         'npint': np.array([1, 3, 2, -1]),
         'no2': np.array([1.0, -0.5, 4.])}[case['qtype']]
    a = (case['j1'], t.j2_eff, case['weighted'])
    if a[1] <= a[0]:
        ctx.skipped += 1
        return
    if case['how'] == 'mf':
        from pymultifracs.mfa import mf_analysis
        d = mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, case['j1'],
                        case['weighted'], 2, q)
        sfs = [d.dwt.structure, d.lwt and d.lwt.structure]
    else:
        sfs = [m and StructureFunction(mrq=m, q=q, j1=a[0], j2=a[1],
                                       weighted=a[2])
               for m in (t.wt_coefs, t.wt_leaders)]
    for m, sf in zip((t.wt_coefs, t.wt_leaders), sfs):
        if m is None:
            continue
        ctx.trace()
        oracle.structure(ctx, 'config', sf, lib.vals(m), list(q), *a,
                         case['gamint'], m.formalism)
        ctx.state(sorted(case.items()), m.formalism)
        ctx.outcome(sf.zeta)
