"""Relations of the bivariate analysis: exchange of the signals, marginals
against the univariate estimators, a signal with itself, stages."""
import itertools

import numpy as np

from .. import bi, lib, ref, sig
from . import c19

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'configurations of a pair of signals within 2 changes, each '
             'analysed as (X,Y), (Y,X), (X,X) and by each single estimator; '
             'every combination of 5 relations of the signals at 3 scales; '
             'every pair of transforms with and without leaders; 12 and 25 '
             'scales, up to 70000 values per scale',
    'thorough': 'configurations within 3 changes',
}
RULE = ('a state is the configuration; non-trivial: the exchanged analysis '
        'differs from the first')
Q1 = np.array([0., 1., 2., 3.])
Q2 = np.array([2., 0., 1., -1.])


def cases(tier):
    yield dict(t='leaders')
    yield dict(t='related')
    yield from c19.configs(2 if tier == 'quick' else 3, m=[2, 3, 5])


def bv(a, b, case, q1, q2):
    from pymultifracs.bivariate import bivariate_analysis
    return bivariate_analysis(a, b, case['j1'], case['weighted'], case['m'],
                              q1, q2)


def check(case, ctx):
    if case['t'] == 'leaders':
        return leaders(ctx)
    if case['t'] == 'related':
        return related(ctx)
    from pymultifracs.bivariate import bivariate_analysis_full
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.structurefunction import StructureFunction
    a, b = c19.transforms(case)
    j1, j2, w = case['j1'], min(a.j2_eff, b.j2_eff), case['weighted']
    if j2 <= j1:
        ctx.skipped += 1
        return
    xy = bv(a, b, case, Q1, Q2)
    yx = bv(b, a, case, Q2, Q1)
    ctx.trace(2)
    ctx.state(sorted(case.items()))
    for name, p, r in (('wt_coefs', xy.dwt, yx.dwt),
                       ('wt_leaders', xy.lwt, yx.lwt)):
        m1, m2 = getattr(a, name), getattr(b, name)
        ctx.true(name, (p is None) == (m1 is None) == (r is None))
        if m1 is None:
            continue
        sz = bi.size(lib.vals(m1), lib.vals(m2))
        at = 1e-9 * sz * 6
        s, t = p.structure, r.structure
        ctx.close('swap:logvalues', t.logvalues,
                  np.swapaxes(s.logvalues, 0, 1), atol=at)
        ctx.close('swap:zeta', t.zeta, s.zeta.T, atol=at)
        ctx.close('swap:intercept', t.intercept, s.intercept.T, atol=10 * at)
        ctx.close('swap:coherence', t.coherence, s.coherence, atol=1e-9)
        s, t = p.cumulants, r.cumulants
        for o in orders(case['m']):
            at = 1e-11 * (2 * (1 + sz)) ** max(sum(o), 1)
            ctx.close(f'swap:C{o}', t.values[o[::-1]], s.values[o], atol=at)
            ctx.close(f'swap:c{o}', t.log_cumulants[o[::-1]],
                      s.log_cumulants[o], atol=at)
            ctx.close(f'swap:intercept{o}', t.intercept[o[::-1]],
                      s.intercept[o], atol=20 * at)
        if s.RHO_MF is not None:
            ctx.close('swap:RHO', t.RHO_MF, s.RHO_MF, rtol=1e-6, atol=1e-7)
            ctx.close('swap:rho', np.ravel(t.rho_mf), np.ravel(s.rho_mf),
                      rtol=1e-6, atol=1e-6)
        # marginals
        for m, axis, q in ((m1, 0, Q1), (m2, 1, Q2)):
            u = StructureFunction(mrq=m, q=q, j1=j1, j2=j2, weighted=w)
            zero = int(np.flatnonzero((Q2 if axis == 0 else Q1) == 0)[0])
            pick = (slice(None), zero) if axis == 0 else (zero,)
            at = 1e-9 * sz * 6
            ctx.close('marginal:logvalues', p.structure.logvalues[pick],
                      u.logvalues[..., 0], atol=at)
            ctx.close('marginal:zeta', p.structure.zeta[pick], u.zeta[:, 0],
                      atol=at)
            ctx.close('marginal:intercept', p.structure.intercept[pick],
                      u.intercept[:, 0], atol=10 * at)
            c = Cumulants(mrq=m, n_cumul=case['m'], j1=j1, j2=j2, weighted=w)
            for k in range(1, case['m'] + 1):
                o = (k, 0) if axis == 0 else (0, k)
                at = 1e-11 * (2 * (1 + sz)) ** k
                ctx.close(f'marginal:C{k}', p.cumulants.values[o],
                          c.values[k - 1][:, 0], atol=at)
                ctx.close(f'marginal:c{k}', p.cumulants.log_cumulants[o],
                          c.log_cumulants[k - 1][0], atol=at)
        # with itself
        q = np.array([0., 1., 2., 0.5])
        me = bv(a, a, case, q, q)
        part = me.dwt if name == 'wt_coefs' else me.lwt
        sums = sorted({x + y for x in q for y in q})
        # the range of the pair is that of the single transform
        u = StructureFunction(mrq=m1, q=np.array(sums), j1=j1, j2=a.j2_eff,
                              weighted=w)
        for x, y in itertools.product(range(len(q)), repeat=2):
            k = sums.index(q[x] + q[y])
            ctx.close('self:zeta', part.structure.zeta[x, y], u.zeta[k, 0],
                      atol=1e-9 * sz * 8)
        ctx.close('self:coherence', part.structure.coherence,
                  np.ones(len(part.structure.coherence)), rtol=1e-9)
        cc = part.cumulants
        for o in ((2, 0), (0, 2)):
            ctx.close('self:C11', cc.values[1, 1], cc.values[o],
                      atol=1e-10 * (1 + sz) ** 2)
            ctx.close('self:c11', cc.log_cumulants[1, 1], cc.log_cumulants[o],
                      atol=1e-10 * (1 + sz) ** 2)
        ctx.outcome(name, p.structure.zeta)
    # the one call version
    if case['j2'] == case['j2b'] or case['p'] not in ('none', 'inf'):
        x, y = c19.pair(case)
        args = lib.wt_args(case)
        full = bivariate_analysis_full(x, y, **args, q1=Q1, q2=Q2,
                                       n_cumul=case['m'])
        ctx.trace()
        lib.same(ctx, 'full', full, xy)


def orders(n):
    return [(k, 0) for k in range(1, n + 1)] + \
        [(0, k) for k in range(1, n + 1)] + [(1, 1)]


def related(ctx):
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import \
        BiStructureFunction
    from pymultifracs.structurefunction import StructureFunction
    for names, v1, v2, spans in itertools.chain(
            ((*r, [(1, 3)]) for r in bi.related()),
            ((name, *r[1:3], r[5]) for name in bi.LARGE[:-1]
             if name != 'exponents' for r in bi.large(name))):
        for q1, q2 in ((Q1, Q2), (Q1, Q1), (Q2, Q2)):
            for fo, (j1, j2) in itertools.product(
                    ('wavelet coef', 'wavelet leader'), spans):
                m1, m2 = lib.mrq(v1, fo), lib.mrq(v2, fo)
                a = dict(j1=j1, j2=j2, weighted=True)
                s = BiStructureFunction(mrq1=m1, mrq2=m2, q1=q1, q2=q2, **a)
                t = BiStructureFunction(mrq1=m2, mrq2=m1, q1=q2, q2=q1, **a)
                ctx.trace(2)
                at = 1e-9 * bi.size(v1, v2) * 6
                ctx.close('related:logvalues', t.logvalues,
                          np.swapaxes(s.logvalues, 0, 1), atol=at)
                ctx.close('related:zeta', t.zeta, s.zeta.T, atol=at)
                ctx.close('related:intercept', t.intercept, s.intercept.T,
                          atol=10 * at)
                ctx.close('related:coherence', t.coherence, s.coherence,
                          atol=1e-9)
                for m, z in ((m1, s.zeta[:, list(q2).index(0)]),
                             (m2, s.zeta[list(q1).index(0)])):
                    u = StructureFunction(mrq=m, q=q1 if m is m1 else q2, **a)
                    ctx.close('related:marginal', z, u.zeta[:, 0], atol=at)
                s = BiCumulants(mrq1=m1, mrq2=m2, n_cumul=3, **a)
                t = BiCumulants(mrq1=m2, mrq2=m1, n_cumul=3, **a)
                ctx.trace(2)
                for o in orders(3):
                    at = 1e-11 * (2 * (1 + bi.size(v1, v2))) ** sum(o)
                    ctx.close(f'related:C{o}', t.values[o[::-1]],
                              s.values[o], atol=at)
                    ctx.close(f'related:c{o}', t.log_cumulants[o[::-1]],
                              s.log_cumulants[o], atol=at)
        ctx.state('related', names)
        ctx.outcome(s.log_cumulants)


def leaders(ctx):
    """lwt is None exactly when one of them has no leaders"""
    from pymultifracs.bivariate import bivariate_analysis
    from pymultifracs.wavelet import wavelet_analysis
    q = np.array([0., 1., 2.])
    for wt_name, n in itertools.product(('db1', 'db2', 'db3'), (100, 256)):
        t = {p: [wavelet_analysis(sig.make('walk', n, k), p_exp=p,
                                  wt_name=wt_name, j2=3) for k in (1, 2)]
             for p in (None, np.inf, 2, 1)}
        for p1, p2 in itertools.product(t, repeat=2):
            kinds = {p: 'l' if p == np.inf else 'p' for p in (p1, p2) if p}
            if p1 and p2 and kinds[p1] != kinds[p2]:
                continue                    # leaders with p-leaders
            got = bivariate_analysis(t[p1][0], t[p2][1], 1, True, 2, q, q)
            ctx.trace()
            ctx.equal('leaders', got.lwt is None, p1 is None or p2 is None)
            ctx.equal('leaders:dwt', got.dwt is None, False)
            ctx.state('leaders', wt_name, n, repr(p1), repr(p2))
