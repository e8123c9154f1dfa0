"""The one-call analysis is its stages: every parameter of mf_analysis_full
within the deviation bound, against wavelet_analysis + each estimator."""
import numpy as np

from .. import engine, lib, oracle, ref

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all configurations (16 parameters, minimal or not) within 2 '
             'changes of two bases',
    'thorough': 'all configurations within 3 changes',
}
RULE = ('a state is a configuration; every case runs the one-call analysis, '
        'the staged one, and every estimator alone')

Q = {'default': None, 'list2': [2], 'list': [0, 1, 2.5, -1],
     'arr': np.array([2., -0.5, 0.]), 'no2': np.array([1., 3.]),
     'int': np.array([3, 1]),
     'many': np.linspace(-4, 4, 81)}


def cases(tier):
    base = dict(p='inf')
    for c in lib.space(2 if tier == 'quick' else 3, [base, dict(p='none')],
                       q=list(Q), m=[3, 1, 2, 5, 8], minimal=[False, True],
                       given=['kw', 'defaults'], nan=[0, 1, 2]):
        if c['p'] in ('1', '2') and ref.max_level(c['n'], c['wt']) < 3:
            continue
        if c['layout'] == 'int' and c['kind'] == 'smooth':
            # rounding makes exact zeros: no logarithm
            continue
        if c['nan'] and c['layout'] in ('int', 'readonly'):
            continue
        yield c


def check(case, ctx):
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.estimation import estimate_hmin
    from pymultifracs.mfa import (mf_analysis, mf_analysis_full,
                                  minimal_mf_analysis)
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.structurefunction import StructureFunction
    from pymultifracs.wavelet import wavelet_analysis
    x = lib.signal(case)
    if case['nan']:
        # one missing sample, in all realisations or in the last
        x[case['n'] // 2, ... if case['nan'] == 1 or x.ndim == 1 else -1] = np.nan
    a = lib.wt_args(case)
    q, m = Q[case['q']], case['m']
    qq = np.array([2]) if q is None else np.array(q)
    if case['given'] == 'defaults':
        # only what is needed; the rest must be the documented defaults
        kw = dict(minimal=case['minimal'])
        a = dict(p_exp=a['p_exp'], wt_name='db3', j1=case['j1'],
                 j2=case['j2'], gamint=0.0, normalization=1, weighted=True)
        if a['p_exp'] is not None:
            kw['p_exp'] = a['p_exp']
        m, q, qq = 3, None, np.array([2])
    else:
        kw = dict(normalization=a['normalization'], gamint=a['gamint'],
                  weighted=a['weighted'], wt_name=a['wt_name'],
                  p_exp=a['p_exp'], q=q, n_cumul=m, minimal=case['minimal'])
    t = wavelet_analysis(x, **a)
    j1, j2, w = a['j1'], t.j2_eff, a['weighted']
    if j2 <= j1:
        ctx.skipped += 1
        return
    full = mf_analysis_full(x, case['j1'], case['j2'], **kw)
    stage = minimal_mf_analysis if case['minimal'] else mf_analysis
    staged = stage(t.wt_coefs, t.wt_leaders, t.j2_eff, j1, w, m, q)
    ctx.trace(2)
    lib.same(ctx, 'stages', full, staged)
    ctx.equal('lwt', full.lwt is None, a['p_exp'] is None)
    for part, mq in (('dwt', t.wt_coefs), ('lwt', t.wt_leaders)):
        e = getattr(full, part)
        if mq is None:
            continue
        sf = StructureFunction(mrq=mq, q=qq, j1=j1, j2=j2, weighted=w)
        cm = Cumulants(mrq=mq, n_cumul=m, j1=j1, j2=j2, weighted=w)
        sp = MultifractalSpectrum(mrq=mq, j1=j1, j2=j2, weighted=w, q=qq)
        h = estimate_hmin(mq, j1, j2, w, warn=False)[0]
        if case['minimal']:
            want = [sf, None, None, None] if part == 'dwt' else \
                [None, cm, None, None]
        else:
            want = [sf, cm, sp, h]
        for name, v in zip(('structure', 'cumulants', 'spectrum', 'hmin'),
                           want):
            got = getattr(e, name)
            ctx.equal(f'{part}.{name} given', got is None, v is None)
            if v is not None and got is not None:
                lib.same(ctx, f'{part}.{name}', got, v)
                if name != 'hmin':
                    ctx.equal('range', (int(got.j1), int(got.j2),
                                        bool(got.weighted)), (j1, j2, w))
                    ctx.equal('formalism', got.formalism, mq.formalism)
        # and against the reference, not only the other entry point
        if e.structure is not None:
            oracle.structure(ctx, 'ref', e.structure, lib.vals(mq), list(qq),
                             j1, j2, w, a['gamint'])
        if e.cumulants is not None:
            oracle.cumulants(ctx, 'ref', e.cumulants, lib.vals(mq), m, j1, j2,
                             w)
        if e.structure is not None:
            ctx.outcome(e.structure.zeta)
    ctx.state(sorted(map(str, case.items())))
