"""Covariance: every amplitude and every change of gamint and norm of a small
set, on every configuration within the bound, against the exact law."""
import numpy as np

from .. import engine, lib, ref

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '14 amplitudes x 6 formalisms, 6 increments of gamint, 4 changes '
             'of norm; configurations within 1 change (amplitude) and 2 '
             'changes (gamint, norm)',
    'thorough': 'configurations within 2 and 3 changes',
}
RULE = ('a state is (configuration, transformation); every case compares two '
        'complete analyses of the real code through the exact law')

AMP = [2.0, -1.0, 0.5, -3.7, 1e-3, 1e4, 0.1, 7.0, 1e-5, -1e6, 1e-13, 1e13,
       -1e-40, 1e40]
G = [1.0, 0.5, 0.25, 2.0, -0.5, 3.0]
NORM = [2, 3, 4, 0.5]


def cases(tier):
    k = 1 if tier == 'quick' else 2
    for a in AMP:
        for c in lib.space(k, p=['inf', 'none', '2', '1', '0.5', '3'],
                           drop=['layout', 'dim'],
                           kind=['walk', 'noise', 'smooth', 'multi', 'diff']):
            if c['p'] not in ('inf', 'none') and \
                    ref.max_level(c['n'], c['wt']) < 3:
                continue
            yield dict(t='amp', a=a, **c)
    for c in lib.space(k + 1, p=['none'], drop=['layout', 'dim'],
                       kind=['walk', 'noise', 'smooth', 'multi', 'diff']):
        for g in G if len(c) else ():
            yield dict(t='gamint', g=g, **c)
        for nn in NORM:
            yield dict(t='norm', to=nn, **c)


Q = np.array([2., 1., -0.5, 0., 3.])


def check(case, ctx):
    x = lib.signal(dict(case, layout='C'))
    j1 = case['j1']
    t = lib.wt(case, x)
    if t.j2_eff <= j1:
        ctx.skipped += 1
        return
    d = lib.mfa(t, j1, case['weighted'], 4, Q)
    ctx.trace(2)
    tol = dict(rtol=1e-6, atol=1e-6)
    if case['t'] == 'amp':
        a = case['a']
        t2 = lib.wt(case, x * a)
        d2 = lib.mfa(t2, j1, case['weighted'], 4, Q)
        ctx.equal('j2_eff', t2.j2_eff, t.j2_eff)
        if t.eta_p is not None:
            ctx.close('eta_p', t2.eta_p, t.eta_p, **tol)
        for m, m2 in ((t.wt_coefs, t2.wt_coefs),
                      (t.wt_leaders, t2.wt_leaders)):
            if m is None:
                continue
            v, v2 = lib.vals(m), lib.vals(m2)
            for j in v:
                s = np.nanmax(np.abs(v[j]))
                f = a if m is t.wt_coefs else abs(a)
                ctx.close('values', v2[j] / f, v[j], rtol=1e-7,
                          atol=1e-11 * s)
        for e, e2 in ((d.dwt, d2.dwt), (d.lwt, d2.lwt)):
            ctx.equal('lwt', e2 is None, e is None)
            if e is None:
                continue
            la = np.log2(abs(a))
            ctx.close('logS', e2.structure.logvalues - la * Q[:, None, None],
                      e.structure.logvalues, **tol)
            ctx.close('zeta', e2.structure.zeta, e.structure.zeta, **tol)
            ctx.close('H', e2.structure.H, e.structure.H, **tol)
            ctx.close('intercept', e2.structure.intercept - la * Q[:, None],
                      e.structure.intercept, **tol)
            ctx.close('C1', e2.cumulants.values[0] - np.log(abs(a)),
                      e.cumulants.values[0], **tol)
            for m in range(4):
                mt = dict(rtol=1e-6, atol=1e-6 * 10 ** m)
                if m:
                    ctx.close(f'C{m+1}', e2.cumulants.values[m],
                              e.cumulants.values[m], **mt)
                ctx.close(f'c{m+1}', e2.cumulants.log_cumulants[m],
                          e.cumulants.log_cumulants[m], **mt)
            ctx.close('Dq', e2.spectrum.Dq, e.spectrum.Dq, **tol)
            ctx.close('hq', e2.spectrum.hq, e.spectrum.hq, **tol)
            ctx.close('hmin', e2.hmin, e.hmin, **tol)
            ctx.outcome(e.structure.zeta)
        ctx.state(sorted(map(str, case.items())))
        return
    if case['t'] == 'gamint':
        g = case['g']
        t2 = lib.wt(dict(case, gamint=case['gamint'] + g), x)
    else:
        def inv(v):
            return 0.0 if v == 'inf' else 1 / v
        g = inv(case['norm']) - inv(case['to'])
        t2 = lib.wt(dict(case, norm=case['to']), x)
    d2 = lib.mfa(t2, j1, case['weighted'], 4, Q)
    ctx.equal('j2_eff', t2.j2_eff, t.j2_eff)
    v, v2 = lib.vals(t.wt_coefs), lib.vals(t2.wt_coefs)
    for j in v:
        s = np.nanmax(np.abs(v[j]))
        ctx.close('values', v2[j] / 2.0 ** (j * g), v[j], rtol=1e-8,
                  atol=1e-12 * s)
    e, e2 = d.dwt, d2.dwt
    ctx.close('zeta', e2.structure.zeta, e.structure.zeta + g * Q[:, None],
              **tol)
    ctx.close('hq', e2.spectrum.hq, e.spectrum.hq + g, **tol)
    ctx.close('Dq', e2.spectrum.Dq, e.spectrum.Dq, **tol)
    ctx.close('hmin', e2.hmin, e.hmin + g, **tol)
    ctx.close('c1', e2.cumulants.log_cumulants[0],
              e.cumulants.log_cumulants[0] + g, **tol)
    for m in (1, 2, 3):
        ctx.close('c_m', e2.cumulants.log_cumulants[m],
                  e.cumulants.log_cumulants[m], rtol=1e-5, atol=1e-5 * 10 ** m)
    if case['t'] == 'gamint':
        ctx.close('H', e2.structure.H, e.structure.H, **tol)
    ctx.state(sorted(map(str, case.items())))
    ctx.outcome(e2.structure.zeta)
