"""Bivariate structure functions: every small pair of scales over an alphabet
of pairs, every order of the exponents, and the configurations."""
import itertools

import numpy as np

from .. import bi, engine, lib, ref, sig

LEVEL = 'model_checking'
NAN = float('nan')
PAIRS = [(1., -2.), (-0.5, 3.), (2., 0.25), (-1.5, -1.), (NAN, NAN),
         (NAN, 1.25), (0.75, NAN)]
BOUNDS = {
    'quick': 'every scale of up to 4 positions over 7 pairs of values '
             '(missing in either or both, as many in each) at each of 3 positions of the range; every '
             'order of {0,1,2} plus each of 5 further exponents on either '
             'side; every list of up to 3 of 5 exponents; the default '
             'exponents; every combination of 5 relations of the two signals at 3 '
             'scales; pairs of signals: configurations within 2 changes'
             '; 12 and 25 scales, 65 exponents, up to 70000 values per scale, '
             'values that are zero',
    'thorough': 'scales of up to 5 positions, configurations within 3 changes',
}
RULE = ('a state is the pair of scales (exponent lists, configuration); '
        'non-trivial: the two signals differ')
Q1 = np.array([0., 1., 2., -1.])
Q2 = np.array([2., 0., 0.5, 1.])


def cases(tier):
    quick = tier == 'quick'
    for size in range(1, 5 if quick else 6):
        for place in (1, 2, 3):
            for first in range(len(PAIRS)):
                yield dict(t='values', size=size, place=place, first=first)
    for a, b in itertools.product(EXTRA, repeat=2):
        yield dict(t='q', a=a, b=b)
    for size in range(1, 4):
        yield dict(t='some', size=size)
    yield dict(t='default')
    yield dict(t='related')
    for name in bi.LARGE:
        yield dict(t='large', name=name)
    yield from configs(2 if quick else 3)


SOME = [0, 1, 2, 3, -0.5]
EXTRA = [None, -1, 0.5, 3, -2.5]


def configs(k, **over):
    for c in lib.space(k, drop=['dim', 'layout', 'reps'],
                       kind2=['multi', 'noise', 'same', 'minus', 'smooth'],
                       j2b=[10, 3, 2], nan=[False, True], **over):
        if ref.max_level(c['n'], c['wt']) < 3:
            continue
        yield dict(t='config', **c)


def scales(size, first):
    for rest in itertools.product(PAIRS, repeat=size - 1):
        s = (PAIRS[first], *rest)
        na, nb = ([bool(np.isnan(p[k])) for p in s] for k in (0, 1))
        if sum(na) == sum(nb) and not all(
                a or b for a, b in zip(na, nb)):
            yield s


def build(s, place):
    v1, v2 = {}, {}
    for j in (1, 2, 3):
        if j == place:
            v1[j] = np.array([[a] for a, _ in s])
            v2[j] = np.array([[b] for _, b in s])
        else:
            v1[j] = np.array([[1.5], [-0.75], [2.0], [1.0]])[:5 - j] * .8 ** j
            v2[j] = np.array([[0.5], [1.25], [-1.0], [3.0]])[:5 - j] * 1.1 ** j
    return v1, v2


def pair(case):
    n = case['n']
    x = sig.make(case['kind'], n, 1)
    y = {'same': lambda: x.copy(), 'minus': lambda: -2.0 * x}.get(
        case['kind2'], lambda: sig.make(case['kind2'], n, 2))()
    if case['nan']:
        x[n // 2] = y[n // 2] = np.nan
    return x, y


def transforms(case):
    x, y = pair(case)
    a = lib.wt(case, x)
    b = lib.wt({**case, 'j2': case['j2b'] if case['p'] in ('none', 'inf')
                else case['j2']}, y)
    return a, b


def check(case, ctx):
    from pymultifracs.bivariate.bivariate_structurefunction import \
        BiStructureFunction
    if case['t'] == 'values':
        for s in scales(case['size'], case['first']):
            v1, v2 = build(s, case['place'])
            for weighted in (True, False):
                sf = BiStructureFunction(
                    mrq1=lib.mrq(v1), mrq2=lib.mrq(v2), j1=1, j2=3, q1=Q1,
                    q2=Q2, weighted=weighted)
                ctx.trace()
                bi.check_structure(ctx, 'values', sf, v1, v2, Q1, Q2, 1, 3,
                                   weighted)
            ctx.state(case['place'], repr(s))
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'large':
        for name, v1, v2, q1, q2, spans in bi.large(case['name']):
            for (j1, j2), weighted in itertools.product(spans, (True, False)):
                sf = BiStructureFunction(
                    mrq1=lib.mrq(v1), mrq2=lib.mrq(v2), j1=j1, j2=j2, q1=q1,
                    q2=q2, weighted=weighted)
                ctx.trace()
                bi.check_structure(ctx, 'large', sf, v1, v2, q1, q2, j1, j2,
                                   weighted)
                ctx.state(name, j1, j2, weighted)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'related':
        for names, v1, v2 in bi.related():
            for q1, q2 in ((Q1, Q2), (Q1, Q1), (Q2, Q2)):
                sf = BiStructureFunction(
                    mrq1=lib.mrq(v1), mrq2=lib.mrq(v2), j1=1, j2=3, q1=q1,
                    q2=q2, weighted=True)
                ctx.trace()
                bi.check_structure(ctx, 'related', sf, v1, v2, q1, q2, 1, 3,
                                   True)
            ctx.state('related', names)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'some':
        v1, v2 = build([(1., -2.), (NAN, NAN), (-.5, 3.), (2., .25)], 2)
        for q1 in itertools.permutations(SOME, case['size']):
            for q2 in itertools.chain(
                    itertools.combinations(SOME, 2),
                    [(v,) for v in SOME], [(0, 1, 2)]):
                k = len(q1) + len(q2)
                for kind in (list, np.array) if q1[0] in (1, 3) else (list,):
                    sf = BiStructureFunction(
                        mrq1=lib.mrq(v1), mrq2=lib.mrq(v2), j1=1, j2=3,
                        q1=kind(q1), q2=kind(q2), weighted=k % 2 == 0)
                    ctx.trace()
                    bi.check_structure(ctx, 'some', sf, v1, v2, q1, q2, 1, 3,
                                       k % 2 == 0)
                ctx.state('some', q1, q2)
            ctx.outcome(sf.zeta)
        return
    if case['t'] == 'default':
        from pymultifracs.bivariate import bivariate_analysis, \
            bivariate_analysis_full
        from pymultifracs.wavelet import wavelet_analysis
        q = np.array([0, 1, 2])
        for p, (q1, q2) in itertools.product(
                (None, np.inf, 2), ((None, None), (Q1, None), (None, Q2),
                                    (list(Q1), list(Q2)))):
            x, y = (sig.make('walk', 200, k) for k in (1, 2))
            args = dict(j1=1, j2=3, p_exp=p, wt_name='db2')
            some = {k: v for k, v in (('q1', q1), ('q2', q2))
                    if v is not None}
            ta, tb = wavelet_analysis(x, **args), wavelet_analysis(y, **args)
            for got in (bivariate_analysis_full(x, y, **args, **some),
                        bivariate_analysis(ta, tb, 1, True, 3, q1, q2)):
                ctx.trace()
                for part, m1, m2 in (
                        (got.dwt, ta.wt_coefs, tb.wt_coefs),
                        (got.lwt, ta.wt_leaders, tb.wt_leaders)):
                    if ctx.equal('default', part is None, m1 is None) \
                            and part is not None:
                        bi.check_structure(
                            ctx, 'default', part.structure, lib.vals(m1),
                            lib.vals(m2), q if q1 is None else q1,
                            q if q2 is None else q2, 1, ta.j2_eff, True)
            ctx.state('default', repr(p), repr(q1), repr(q2))
            ctx.outcome(got.dwt.structure.zeta)
        return
    if case['t'] == 'q':
        def orders(e):
            return [np.array(o, dtype=float) for o in itertools.permutations(
                [0, 1, 2] + ([] if e is None else [e]))]
        v1 = {j: np.array([[1.], [-3.], [.5], [2.5], [1.25]])[:7 - j] * 1.3 ** j
              for j in (1, 2, 3, 4)}
        v2 = {j: np.array([[2.], [.25], [-1.5], [.9], [1.1]])[:7 - j] / 1.2 ** j
              for j in (1, 2, 3, 4)}
        for k, (q1, q2) in enumerate(itertools.product(
                orders(case['a']), orders(case['b']))):
            if case['a'] is not None and case['b'] is not None and k % 3:
                continue
            sf = BiStructureFunction(
                mrq1=lib.mrq(v1, 'wavelet leader', 0.5),
                mrq2=lib.mrq(v2, 'wavelet leader', 0.5), j1=2, j2=4, q1=q1,
                q2=q2, weighted=True)
            ctx.trace()
            bi.check_structure(ctx, 'q', sf, v1, v2, q1, q2, 2, 4, True)
            ctx.equal('q:formalism', sf.formalism, 'wavelet leader')
            ctx.equal('q:gamint', sf.gamint, 0.5)
            ctx.state(list(q1), list(q2))
        ctx.outcome(sf.zeta)
        return
    from pymultifracs.bivariate import bivariate_analysis
    a, b = transforms(case)
    j2 = min(a.j2_eff, b.j2_eff)
    if j2 <= case['j1']:
        ctx.skipped += 1
        return
    got = bivariate_analysis(a, b, case['j1'], case['weighted'], 2, Q1, Q2)
    ctx.trace()
    for name, part in (('wt_coefs', got.dwt), ('wt_leaders', got.lwt)):
        m1, m2 = getattr(a, name), getattr(b, name)
        ctx.equal('config:' + name, part is None, m1 is None)
        if m1 is None or part is None:
            continue
        bi.check_structure(ctx, 'config:' + name, part.structure,
                           lib.vals(m1), lib.vals(m2), Q1, Q2, case['j1'], j2,
                           case['weighted'])
        ctx.state(sorted(case.items()), name)
        ctx.outcome(part.structure.zeta)
