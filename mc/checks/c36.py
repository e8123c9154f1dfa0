"""Copies: every kind of result, copied in every way, answers what the original
does, here and in another process, and shares nothing with it."""
import copy
import itertools
import pickle

import numpy as np

from .. import engine, lib, sig

LEVEL = 'model_checking'
HOW = {f'pickle{k}': (lambda o, k=k: pickle.loads(pickle.dumps(o, k)))
       for k in range(pickle.HIGHEST_PROTOCOL + 1)}
HOW['deepcopy'] = copy.deepcopy
HOW['copy'] = copy.copy
HOW['twice'] = lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o)))
BOUNDS = {
    'quick': '15 kinds of results (transforms, quantities, estimators, '
             'analyses, PSDs, Signals in 6 states) x 9 ways of copying x 3 '
             'formalisms x 1 to 3 realisations: every number, every named '
             'attribute, every later answer, here and in a new process; '
             'every scale of the copy then replaced, one added, every array '
             'overwritten and every list and dictionary extended; every pair of kinds '
             'copied together',
    'thorough': 'as quick with 4 further signals',
}
RULE = ('a state is (kind, way, formalism, realisations); non-trivial: the '
        'copy is another object')
PS = ['none', 'inf', '2']
Q = np.array([2., 0., -1.])


def cases(tier):
    kinds = ['walk'] if tier == 'quick' else ['walk', 'noise', 'multi',
                                              'diff', 'smooth']
    for k in kinds:
        for p, R, how in itertools.product(PS, (1, 2, 3), HOW):
            yield dict(t='one', kind=k, p=p, R=R, how=how)
        for how in HOW:
            yield dict(t='signal', kind=k, how=how)
        for p, how in itertools.product(PS, ('pickle5', 'deepcopy')):
            yield dict(t='process', kind=k, p=p, how=how)
            yield dict(t='together', kind=k, p=p, how=how)


def build(case):
    """name -> result"""
    from pymultifracs import bivariate, estimation, mfa, psd
    from pymultifracs.fractal_analysis import fractal_analysis
    from pymultifracs.wavelet import wavelet_analysis
    R = case.get('R', 1)
    x = sig.batch(case['kind'], 140, R, 2)
    p = sig.p_of(case['p'])
    t = wavelet_analysis(x, p_exp=p, wt_name='db1', j2=4)
    d = mfa.mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, 1, True, 3, Q)
    out = {'transform': t, 'coefs': t.wt_coefs, 'analysis': d,
           'structure': d.dwt.structure, 'cumulants': d.dwt.cumulants,
           'spectrum': d.dwt.spectrum,
           'minimal': mfa.minimal_mf_analysis(
               t.wt_coefs, t.wt_leaders, t.j2_eff, 1, True, 2, Q),
           'hurst': estimation.compute_hurst(t.wt_coefs, 1, 4, True),
           'psd': psd.welch_estimation(x[:, 0], 1.0, 32),
           'wpsd': psd.wavelet_estimation(x, 1.0, 2),
           'fractal': fractal_analysis(x[:, 0], 1.0, freq_band=(0.01, 0.4))}
    if t.wt_leaders is not None:
        out['leaders'] = t.wt_leaders
    if R == 1:
        y = wavelet_analysis(sig.make(case['kind'], 140, 9), p_exp=p,
                             wt_name='db1', j2=4)
        b = bivariate.bivariate_analysis(t, y, 1, True, 2,
                                         np.array([0., 1., 2.]),
                                         np.array([2., 0., 1.]))
        out.update(bivariate=b, bistructure=b.dwt.structure,
                   bicumulants=b.dwt.cumulants)
        if b.lwt is not None:
            out['bileaders'] = b.lwt.cumulants
    return out


def answers(o):
    """What can be asked of a result"""
    out = {'': lib.flat(o)}

    def ask(name, fun):
        try:
            out[name] = lib.flat(fun())
        except Exception as e:                 # pylint: disable=broad-except
            out[name] = type(e).__name__
    names = [f'{k}{n}' for k in 'cC' for n in range(1, 5)] + \
        [f'{k}{a}{b}' for k in 'cC' for a in range(3) for b in range(3)] + \
        ['M', 'H', 'nrep', 'formalism', 'gamint', 'no_such_thing', 'cx',
         'rho_mf', 'weighted', 'nj']
    for n in names:
        ask(n, lambda n=n: getattr(o, n))
    for n, args in (('get_nj', ()), ('get_nj_interv', (1, 3)),
                    ('get_intercept', ()), ('compute_legendre', ((0, 1), 3))):
        ask(n + '()', lambda n=n, args=args: getattr(o, n)(*args))
    if hasattr(o, 'values') and hasattr(o, 'add_values'):
        from pymultifracs.structurefunction import StructureFunction
        ask('zeta', lambda: StructureFunction(mrq=o, q=Q, j1=1, j2=3,
                                              weighted=True))
    if hasattr(o, 'wt_coefs'):
        from pymultifracs.mfa import mf_analysis
        ask('mf', lambda: mf_analysis(o.wt_coefs, o.wt_leaders, o.j2_eff, 1,
                                      True, 2, Q))
    ask('type', lambda: type(o).__qualname__)
    ask('repr', lambda: repr(o)[:2000])
    return out


def compare(ctx, key, got, want):
    ctx.equal(key + ':questions', sorted(got), sorted(want))
    for k, w in want.items():
        g = got.get(k)
        if isinstance(w, str) or isinstance(g, str):
            ctx.equal(f'{key}:{k}', g, w)
        else:
            lib.same(ctx, f'{key}:{k}', g, w, rtol=0, atol=0)


def spoil(o):
    n = 0
    # new scales, and others instead of the old ones
    for m in quantities(o):
        for j in list(m.values):
            v = m.values[j].copy()
            v[:2] = np.nan
            m.add_values(v, j)
        m.add_values(v, max(m.values) + 1)
        n += 1
    for a in lib.arrays(o):
        if a.flags.writeable and a.dtype.kind in 'fiu':
            a[...] = 77
            n += 1
    for c in containers(o):
        n += 1
        if isinstance(c, dict):
            c['spoilt'] = 1
        else:
            c.append('spoilt')
    return n


def quantities(o):
    """Quantities in a result, once each"""
    found = {}
    list(lib.arrays(o, found))
    return [v for v in found.values() if hasattr(v, 'add_values')]


def containers(o):
    """Dictionaries and lists in a result"""
    found = {}
    list(lib.arrays(o, found))
    return [v for v in found.values() if isinstance(v, (dict, list))]


def check(case, ctx):
    globals()[case['t']](case, ctx)


def one(case, ctx):
    how = HOW[case['how']]
    for name, o in build(case).items():
        want = answers(o)
        c = how(o)
        ctx.trace()
        compare(ctx, name, answers(c), want)
        compare(ctx, name + ' original', answers(o), want)
        ctx.true(name + ':type', type(c) is type(o))
        if case['how'] != 'copy':
            # nothing is shared: whatever happens to the copy
            ctx.true(name + ':arrays', spoil(c) > 0 or name == 'fractal')
            compare(ctx, name + ' spoilt', answers(o), want)
        ctx.state(name, sorted(map(str, case.items())))
        ctx.outcome(name, want[''])


def process(case, ctx):
    """Sent to a process that did nothing before, and back"""
    how = HOW[case['how']]
    for name, o in build(case).items():
        want = answers(o)
        ok, got = engine.in_new_process(lambda o=o: (answers(how(o)), o))
        ctx.trace()
        if ctx.true(name, ok, f'{got}'):
            compare(ctx, name + ' sent', got[0], want)
            compare(ctx, name + ' back', answers(got[1]), want)
        ctx.state(name, sorted(map(str, case.items())))
        ctx.outcome(name, want[''])


def together(case, ctx):
    """Two results in one container: the same object stays the same"""
    how = HOW[case['how']]
    rs = build(case)
    want = {k: answers(o) for k, o in rs.items()}
    for a, b in itertools.product(rs, repeat=2):
        c = how([rs[a], rs[b]])
        ctx.trace()
        compare(ctx, f'{a} with {b}', answers(c[0]), want[a])
        compare(ctx, f'{b} with {a}', answers(c[1]), want[b])
        ctx.state(a, b, case['p'], case['how'])
        ctx.outcome(a, b)


# -- Signal ------------------------------------------------------------------

W = dict(j1=1, j2=3, normalization=1, gamint=0.0, weighted=True,
         wt_name='db1')
CALLS = {
    'W': lambda s: s.wavelet_analysis(**W, p_exp=None),
    'L': lambda s: s.wavelet_analysis(**W, p_exp=np.inf),
    'M': lambda s: s.mf_analysis(np.array([2., 1.]), 2),
    'N': lambda s: s.mf_analysis(np.array([0., 3.]), 1),
    'F': lambda s: s.mf_analysis_full(**W, p_exp=2, q=[2], n_cumul=2),
    'P': lambda s: s.estimate_wavelet_psd(1),
    'E': lambda s: s.estimate_welch_psd(32),
    'B': lambda s: s.fractal_analysis(1, (0.01, 0.4)),
    'hurst': lambda s: s.hurst(),
    'hmin': lambda s: s.hmin(),
    'difference': lambda s: s.psd_difference(s).wt_psd,
}
STATES = ['', 'P', 'WM', 'LMPEB', 'F', 'EBLN']


def ask(s):
    """Every call, each on the Signal as it is"""
    out = {}
    for k, f in CALLS.items():
        t = copy.copy(s)
        try:
            out[k] = lib.flat(copy.deepcopy(f(t)))
        except Exception as e:                 # pylint: disable=broad-except
            out[k] = type(e).__name__
    return out


def signal(case, ctx):
    from pymultifracs.signal import Signal
    how = HOW[case['how']]
    for st in STATES:
        x = sig.make(case['kind'], 140, 3)
        s = Signal(x, 2.0)
        for k in st:
            CALLS[k](s)
        want = ask(s)
        c = how(s)
        ctx.trace()
        compare(ctx, f'signal {st}', ask(c), want)
        ctx.close('data', c.data, x, atol=0)
        # calls on the one do not change the other
        for k in CALLS:
            c = how(s)
            try:
                CALLS[k](c)
            except AttributeError:
                pass
            compare(ctx, f'signal {st} {k} on the copy', ask(s), want)
            ctx.trace()
        c = how(s)
        for k in 'FPEB':
            CALLS[k](s)
        compare(ctx, f'signal {st} after the original', ask(c), want)
        if case['how'] != 'copy':
            s = Signal(x.copy(), 2.0)
            for k in st:
                CALLS[k](s)
            spoil(how(s))
            compare(ctx, f'signal {st} spoilt', ask(s), want)
        ctx.state(st, case['how'], case['kind'])
        ctx.outcome(st, sorted(want))
