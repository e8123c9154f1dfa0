"""Polynomials below the vanishing moments are invisible: every monomial basis
element (linearity gives the rest) and combined polynomials, through the whole
analysis; the next degree is visible."""
import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
MOMENTS = {'db1': 1, 'db2': 2, 'db3': 3, 'db4': 4, 'db5': 5, 'sym4': 4,
           'coif1': 2, 'haar': 1, 'sym2': 2, 'db6': 6}
BOUNDS = {
    'quick': '10 wavelets x every degree up to the number of vanishing '
             'moments x 5 lengths (up to 4100) x 3 signs/origins x 2 signals, with '
             'coefficients, leaders and two p-leaders; configurations within '
             '1 change (5 parameters)',
    'thorough': 'as quick with 8 lengths and configurations within 3 changes',
}
RULE = ('a state is (wavelet, degree, scale); every case compares the full '
        'analysis of x and x + polynomial; non-trivial: the polynomial is at '
        'least as large as the signal')
ASSUMPTIONS = ['double precision: polynomials are at most 1e3 times the '
               'signal, values compared at 1e-6 relative']

DOM = dict(p=['inf', 'none', '2', '1', '0.5'], gamint=[0.0, 0.5, 1],
           norm=[1, 2], weighted=[True, False], reps=[1, 2])


def cases(tier):
    lens = [128, 201, 96, 255] if tier == 'quick' else \
        [96, 100, 127, 128, 201, 255, 256, 400]
    lens.append(4100)
    for n in lens:
        for w, m in MOMENTS.items():
            if ref.max_level(n, w) < 3:
                continue
            for deg in range(m + 1):
                for kind in ['walk', 'multi']:
                    for origin in ['start', 'middle', 'negative']:
                        for p in ['inf', '2', '1', 'none']:
                            if n > 1000 and (kind != 'walk'
                                             or p in '21'):
                                continue
                            if origin != 'start' and p != 'inf':
                                continue
                            yield dict(n=n, wt=w, deg=deg, kind=kind,
                                       origin=origin, p=p, gamint=0.0, norm=1,
                                       weighted=True, reps=1)
    for w, m in MOMENTS.items():
        for c in engine.bounded(DOM, 1 if tier == 'quick' else 3):
            for deg in (m - 1, m):
                yield dict(n=200, wt=w, deg=deg, kind='walk', origin='all',
                           **c)


def poly(case):
    n, d = case['n'], case['deg']
    t = np.arange(n) / n
    if case['origin'] == 'middle':
        t = t - 0.5
    y = t ** d
    if case['origin'] == 'negative':
        y = -y
    if case['origin'] == 'all':
        y = sum((k + 1.0) * (-1) ** k * t ** k for k in range(d + 1))
    return 300.0 * y / np.abs(y).max()


def analyse(case, x):
    from pymultifracs.mfa import mf_analysis
    t = lib.wt(case, x)
    q = np.array([2.0, 1.0, -0.5, 0.0])
    return t, mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1,
                          case['weighted'], 3, q)


def check(case, ctx):
    case = dict(case, j1=1, j2=10)
    x = sig.batch(case['kind'], case['n'], case['reps'], 3)
    y = poly(case)[:, None] * np.ones(case['reps'])
    m = MOMENTS[case['wt']]
    ctx.trace(2)
    t0, d0 = analyse(case, x)
    t1, d1 = analyse(case, x + y)
    c0, c1 = lib.vals(t0.wt_coefs), lib.vals(t1.wt_coefs)
    ctx.true('signal', np.abs(y).max() > np.abs(x).max() or case['deg'] == 0)
    if case['deg'] >= m:
        # not in the kernel of the transform: the trend must show
        z = 1e6 * y / np.abs(y).max()
        c2 = lib.vals(lib.wt(case, x + z).wt_coefs)
        a = lib.wt_args(case)
        want = ref.coefs_1(z[:, 0], case['wt'], max(c0), a['normalization'],
                           a['gamint'])
        for j in c0:
            ctx.close('visible', c2[j][:, 0] - c0[j][:, 0], want[j - 1],
                      rtol=1e-5, atol=1e-8 * 2.0 ** j)
        ctx.true('reference', np.nanmax(np.abs(want[max(c0) - 1])) > 1e-5)
        ctx.outcome(case['wt'], case['deg'], 'visible')
        return
    ctx.equal('scales', sorted(c1), sorted(c0))
    ctx.equal('j2_eff', t1.j2_eff, t0.j2_eff)
    for j in c0:
        s = np.nanmax(np.abs(c0[j]))
        ctx.close('coefs', c1[j], c0[j], rtol=1e-6, atol=1e-8 * s)
        ctx.state(case['wt'], case['deg'], j)
        ctx.outcome(c1[j])
    if t0.wt_leaders is not None:
        l0, l1 = lib.vals(t0.wt_leaders), lib.vals(t1.wt_leaders)
        for j in l0:
            ctx.close('leaders', l1[j], l0[j], rtol=1e-6)
    if t0.eta_p is not None:
        ctx.close('eta_p', t1.eta_p, t0.eta_p, rtol=1e-6, atol=1e-7)
    for part in ('dwt', 'lwt'):
        a, b = getattr(d0, part), getattr(d1, part)
        ctx.equal(part, b is None, a is None)
        if a is None:
            continue
        # logs and negative powers of small coefficients magnify rounding
        tol = dict(rtol=1e-4, atol=1e-4)
        ctx.close(part + '.zeta', b.structure.zeta, a.structure.zeta, **tol)
        ctx.close(part + '.c_m', b.cumulants.log_cumulants,
                  a.cumulants.log_cumulants, **tol)
        ctx.close(part + '.Dq', b.spectrum.Dq, a.spectrum.Dq, **tol)
        ctx.close(part + '.hq', b.spectrum.hq, a.spectrum.hq, **tol)
        ctx.close(part + '.hmin', b.hmin, a.hmin, **tol)
