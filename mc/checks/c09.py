"""Multifractal spectrum: every small scale over a value alphabet, every
exponent, the configurations, against the definition; the Legendre identities
against the structure function and cumulants of the same quantity."""
import itertools

import numpy as np

from .. import engine, lib, oracle, ref
from . import c07

LEVEL = 'model_checking'
QS = [0., 1., 2., -1., -2., 0.5, -0.5, 3., 2.5, 6., -4., 0.01]
BOUNDS = {
    'quick': 'every scale of up to 4 values from {1,-2,0.5,3,missing} at each '
             'of 3 positions x 12 exponents, all as realisations and alone; '
             'every ordered pair of exponents; every pair of 17 amplitudes from '
             '1e-100 to 1e100; every pattern of zeros in 4 values; '
             'quantities of 12 and 25 scales, 140 exponents, repeated '
             'exponents, 70 realisations, up to 70000 values per scale; configurations within 2 '
             'changes',
    'thorough': 'scales of up to 5 values, configurations within 3 changes',
}
RULE = ('a state is the values of a scale (or the exponents); non-trivial: '
        'U is not zero')

def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for weighted in (True, False):
                yield dict(t='values', size=size, place=place,
                           weighted=weighted)
    for a in QS:
        yield dict(t='q', first=a)
    for a in c07.RANGE:
        yield dict(t='range', a=a)
    for name in oracle.LARGE:
        for weighted in (True, False):
            yield dict(t='large', name=name, weighted=weighted)
    yield dict(t='zeros')
    for c in lib.space(2 if quick else 3, drop=['dim', 'layout'],
                       qtype=['float', 'int', 'list', 'npint', 'one'],
                       how=['class', 'mf']):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def identities(ctx, key, sp, sf, cm, q, values):
    at = 1e-8 * oracle._size(values) * 10
    for i, e in enumerate(q):
        ctx.close(key + ':legendre', sp.Dq[i], 1 + e * sp.hq[i] - sf.zeta[i],
                  rtol=1e-7, atol=at * (1 + abs(e)))
        ctx.close(key + ':U', np.asarray(sp.U)[:, i],
                  e * np.asarray(sp.V)[:, i] - sf.logvalues[i],
                  rtol=1e-7, atol=at * (1 + abs(e)))
        if e == 0:
            ctx.close(key + ':D(0)', sp.Dq[i], np.ones(sp.Dq.shape[1]),
                      rtol=1e-8, atol=at)
            ctx.close(key + ':zeta(0)', sf.zeta[i], np.zeros(sp.Dq.shape[1]),
                      atol=at)
            ctx.close(key + ':h(0)', sp.hq[i], cm.log_cumulants[0],
                      rtol=1e-7, atol=at)


def estimators(m, q, j1, j2, weighted):
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.structurefunction import StructureFunction
    return (MultifractalSpectrum(mrq=m, j1=j1, j2=j2, weighted=weighted, q=q),
            StructureFunction(mrq=m, q=q, j1=j1, j2=j2, weighted=weighted),
            Cumulants(mrq=m, n_cumul=1, j1=j1, j2=j2, weighted=weighted))


def check(case, ctx):
    if case['t'] == 'values':
        combos = c07.scale_values(case['size'])
        q = np.array(QS)
        v = np.array(combos).T
        groups = [v] + [v[:, i:i + 1] for i in range(0, len(combos), 11)]
        for g in groups:
            values = c07.build(g, None, case['place'])
            e = estimators(lib.mrq(values), q, 1, 3, case['weighted'])
            ctx.trace()
            oracle.spectrum(ctx, 'values', e[0], values, q, 1, 3,
                            case['weighted'])
            identities(ctx, 'values', *e, q, values)
            ctx.outcome(e[0].Dq)
        for c in combos:
            ctx.state(case['place'], case['weighted'], repr(c))
        return
    if case['t'] in ('large', 'zeros'):
        if case['t'] == 'large':
            todo = [(case['name'], *oracle.large(case['name']))]
            weights = [case['weighted']]
        else:
            todo = [(p, v, np.array([2., 0.5, 1., 3.]), [(1, 3)])
                    for p, v in oracle.zeros()]
            weights = [True, False]
        for name, values, q, spans in todo:
            for (j1, j2), w in itertools.product(spans, weights):
                if case['t'] == 'zeros':
                    with np.errstate(divide='ignore', invalid='ignore'):
                        e = estimators(lib.mrq(values), q, j1, j2, w)
                else:
                    e = estimators(lib.mrq(values), q, j1, j2, w)
                ctx.trace()
                oracle.spectrum(ctx, case['t'], e[0], values, q, j1, j2, w)
                identities(ctx, case['t'], *e, q, values)
                ctx.state(name, w, j1, j2)
            ctx.outcome(e[0].Dq)
        return
    if case['t'] == 'range':
        for b, values, q in c07.ranges(case['a']):
            e = estimators(lib.mrq(values), q, 1, 3, True)
            ctx.trace()
            oracle.spectrum(ctx, 'range', e[0], values, q, 1, 3, True)
            identities(ctx, 'range', *e, q, values)
            ctx.state(case['a'], b)
            ctx.outcome(e[0].Dq)
        return
    if case['t'] == 'q':
        rng = np.array([[1., 2.], [-3., 0.25], [0.5, -1.5], [2.5, np.nan],
                        [1.25, 1.1], [0.7, -0.2], [0.9, 4.]])
        values = {j: rng[:8 - j] ** j * 1.3 ** j for j in (1, 2, 3, 4)}
        for b in QS:
            for q in ([case['first'], b], [b, case['first'], 1.]):
                e = estimators(lib.mrq(values), np.array(q), 2, 4, True)
                ctx.trace()
                oracle.spectrum(ctx, 'q', e[0], values, q, 2, 4, True)
                identities(ctx, 'q', *e, q, values)
                ctx.state(q)
                ctx.outcome(e[0].Dq)
        return
    t = lib.wt(case)
    q = {'float': np.array([2., -1., 0., 0.5, 3.]), 'int': [2, 1, -2, 0],
         'list': [0.0, 2.0, 1.0], 'npint': np.array([1, 3, 2, -1]),
         'one': np.array([0])}[case['qtype']]
    a = (case['j1'], t.j2_eff, case['weighted'])
    if a[1] <= a[0]:
        ctx.skipped += 1
        return
    if case['how'] == 'mf':
        from pymultifracs.mfa import mf_analysis
        d = mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, case['j1'],
                        case['weighted'], 2, q)
        es = [(p.spectrum, p.structure, p.cumulants) if p else None
              for p in (d.dwt, d.lwt)]
    else:
        es = [m and estimators(m, q, *a) for m in (t.wt_coefs, t.wt_leaders)]
    for m, e in zip((t.wt_coefs, t.wt_leaders), es):
        if m is None:
            continue
        ctx.trace()
        oracle.spectrum(ctx, 'config', e[0], lib.vals(m), list(q), *a)
        identities(ctx, 'config', *e, list(q), lib.vals(m))
        ctx.equal('formalism', e[0].formalism, m.formalism)
        ctx.state(sorted(case.items()), m.formalism)
        ctx.outcome(e[0].Dq)
