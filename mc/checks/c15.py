"""Purity: every sequence of analyses, and of in-place changes the caller makes
to its own arrays, over shared objects; each answer against the answer of the
same call made first thing in a new world."""
import copy
import functools
import itertools
import warnings

import numpy as np

from .. import engine, lib, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every sequence of 2 of 34 operations and every sequence of 3 '
             'of 13 of them, on shared signals, transforms and parameter '
             'objects; every operation 6 times in a row; every pair of '
             'operations, all arrays, lists and dictionaries the first '
             'returned being overwritten in between',
    'thorough': 'every sequence of 3 of 34 operations, and of 4 of 11',
}
RULE = ('a state is the history of operations; after each one every argument, '
        'every earlier result and the process-wide state are compared; '
        'non-trivial: two operations share an object')

SHORT = ['wa_inf', 'wa_other', 'wa_p', 'wa_neg', 'wa_db2', 'mfa_inf',
         'min_p', 'full_inf', 'hmin', 'bi', 'welch', 'mut_x', 'mut_q']
TINY = SHORT[:8] + ['bi', 'mut_x', 'mut_q']


class World:
    def __init__(self, version=(0, 0)):
        n = 120
        self.version = list(version)
        self.d = d = {}
        d['x'] = sig.make('walk', n, 1)
        d['x2'] = sig.batch('walk+diff', n, 2, 2)
        d['xo'] = sig.make('multi', n, 3)            # same shape as x
        d['xf'] = np.asfortranarray(sig.batch('walk', n, 2, 5))
        d['xn'] = sig.make('walk', n, 7)
        d['xn'][60] = np.nan
        d['xi'] = np.round(sig.make('walk', n, 8) * 50).astype(int)
        d['q'] = np.array([2., 1., 0., -1.])
        d['ql'] = [1, 2, 3]
        d['qb'] = np.array([0., 1., 2.])
        d['band'] = [0.01, 0.4]
        d['wt'] = copy.deepcopy(TRANSFORMS)
        for part in (0, 1):
            if self.version[part]:
                self.apply(part)

    def apply(self, part):
        if part == 0:
            self.d['x'][:] = sig.make('smooth', 120, 9)
        else:
            self.d['q'][:] = [0.5, 2., -2., 3.]


def _ops():
    from pymultifracs import bivariate, estimation, fractal_analysis as fa
    from pymultifracs import mfa, psd, utils, wavelet
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.structurefunction import StructureFunction
    wa = wavelet.wavelet_analysis

    def T(d, k):
        t = d['wt'][k]
        return dict(wt_coefs=t.wt_coefs, wt_leaders=t.wt_leaders,
                    j2_eff=t.j2_eff)
    return {
        'wa_none': lambda d: wa(d['x']),
        'wa_db2': lambda d: wa(d['x'], wt_name='db2', gamint=0.5),
        'wa_inf': lambda d: wa(d['x'], p_exp=np.inf, wt_name='db2'),
        'wa_p': lambda d: wa(d['x'], p_exp=2, wt_name='db2'),
        'wa_half': lambda d: wa(d['xo'], p_exp=0.5, wt_name='db2', j1=2),
        'wa_neg': lambda d: wa(d['x2'], p_exp=2, wt_name='db2', j2=3,
                               weighted=False),
        'wa_other': lambda d: wa(d['xo'], p_exp=np.inf, wt_name='db2'),
        'wa_f': lambda d: wa(d['xf'], p_exp=np.inf, wt_name='db1',
                             normalization=2),
        'wa_nan': lambda d: wa(d['xn'], p_exp=np.inf, wt_name='db1'),
        'wa_int': lambda d: wa(d['xi'], wt_name='db1'),
        'mfa_inf': lambda d: mfa.mf_analysis(
            **T(d, 'inf'), j1=1, weighted=True, n_cumul=3, q=d['q']),
        'mfa_none': lambda d: mfa.mf_analysis(
            **T(d, 'none'), j1=2, weighted=False, n_cumul=2, q=d['ql']),
        'mfa_p': lambda d: mfa.mf_analysis(
            **T(d, 'p'), j1=1, weighted=True, n_cumul=2, q=None),
        'min_p': lambda d: mfa.minimal_mf_analysis(
            **T(d, 'p'), j1=1, weighted=True, n_cumul=2, q=d['ql']),
        'full_inf': lambda d: mfa.mf_analysis_full(
            d['x'], 1, 4, p_exp=np.inf, wt_name='db2', q=d['q']),
        'full_def': lambda d: mfa.mf_analysis_full(d['xo'], 1, 3),
        'full_min': lambda d: mfa.mf_analysis_full(
            d['x'], 1, 4, p_exp=2, wt_name='db1', minimal=True, q=d['ql']),
        'sf': lambda d: StructureFunction(
            mrq=d['wt']['p'].wt_leaders, q=d['q'], j1=1, j2=3,
            weighted=True),
        'cum': lambda d: Cumulants(mrq=d['wt']['inf'].wt_leaders, n_cumul=5,
                                   j1=1, j2=3, weighted=True),
        'spec': lambda d: MultifractalSpectrum(
            mrq=d['wt']['none'].wt_coefs, j1=1, j2=3, weighted=True,
            q=d['q']),
        'hmin': lambda d: estimation.estimate_hmin(
            d['wt']['inf'].wt_leaders, 1, 3, True),
        'hurst': lambda d: estimation.compute_hurst(
            d['wt']['none'].wt_coefs, 1, 3, True),
        'bi': lambda d: bivariate.bivariate_analysis(
            d['wt']['inf'], d['wt']['oinf'], 1, True, 2, d['qb'], d['qb']),
        'bifull': lambda d: bivariate.bivariate_analysis_full(
            d['x'], d['xo'], 1, 3, wt_name='db2', q1=d['qb'], q2=d['qb']),
        'legendre': lambda d: bivariate.bivariate_analysis(
            d['wt']['none'], d['wt']['onone'], 1, True, 2, d['qb'], d['qb']
        ).dwt.cumulants.compute_legendre((0, 1), 5),
        'wpsd': lambda d: psd.wavelet_estimation(d['x'], 2.0, 2),
        'welch': lambda d: psd.welch_estimation(d['x'], 2.0, 64, 32),
        'welch1': lambda d: psd.welch_estimation(d['x'], 1, 64),
        'wpsd1': lambda d: psd.wavelet_estimation(d['x'], 1.0, 2),
        'fractal': lambda d: fa.fractal_analysis(d['x'], 1.0, 2, d['band']),
        'beta': lambda d: fa.estimate_beta(
            np.array([0., 0.1, 0.2, 0.3]), np.array([9., 4., 2., 1.]),
            d['band'], 'log'),
        'utils': lambda d: (utils.build_q_log(0.1, 4, 5),
                            utils.fast_power(d['q'], 3),
                            utils.fast_power(d['x'], 0),
                            utils.fast_power(d['xn'], 2),
                            utils.fband2scale(d['band'], 2.0)),
        'mut_x': None,
        'mut_q': None,
    }


@functools.lru_cache(None)
def ops():
    return _ops()


FORK = True
ALONE = {}
TRANSFORMS = {}


def transform(k):
    from pymultifracs.wavelet import wavelet_analysis
    s, p = dict(none=('x', None), inf=('x', np.inf), p=('x2', 1),
                oinf=('xo', np.inf), onone=('xo', None))[k]
    return wavelet_analysis(World().d[s], p_exp=p, wt_name='db2', j2=4)


def prepare(tier):
    """Each answer in a new world, in a new process"""
    def one(name, version):
        return lib.flat(ops()[name](World(version).d))
    for k in ('none', 'inf', 'p', 'oinf', 'onone'):
        ok, v = engine.in_new_process(transform, k)
        if not ok:
            raise RuntimeError(v)
        TRANSFORMS[k] = v
    names = [n for n, f in ops().items() if f]
    for name in names:
        for v in itertools.product((0, 1), repeat=2):
            ALONE[name, v] = engine.in_new_process(one, name, v)


def cases(tier):
    names = list(ops())
    for a in names:
        yield dict(seq=[a] * 6)
    for a in names:
        for b in names if not a.startswith('mut') else ():
            if not b.startswith('mut'):
                yield dict(seq=[a, b], t='over')
    if tier == 'quick':
        for a in names:
            for b in names:
                yield dict(seq=[a, b])
        for s in itertools.product(SHORT, repeat=3):
            if not s[-1].startswith('mut'):
                yield dict(seq=list(s))
        return
    for s in itertools.product(names, repeat=3):
        if not s[-1].startswith('mut'):
            yield dict(seq=list(s))
    for s in itertools.product(TINY, repeat=4):
        if not s[-1].startswith('mut'):
            yield dict(seq=list(s))


def process():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], list(warnings.filters),
            warnings.showwarning, np.geterr(), np.geterrcall(),
            tuple(sorted(map(str, np.get_printoptions().items()))))


def overwrite(result, d):
    """The caller does what it likes with what it was given (except what
    belongs to its own arguments)"""
    mine, got = {}, {}
    own = list(lib.arrays(d, mine))
    for a in list(lib.arrays(result, got)):
        if a.flags.writeable and a.dtype.kind in 'fciub' and not any(
                np.may_share_memory(a, m) for m in own):
            a[...] = 7
    for k, o in got.items():
        if isinstance(o, (dict, list)) and k not in mine and \
                o is not getattr(result, '__dict__', None):
            o.clear()


def check(case, ctx):
    w = World()
    np.random.seed(5)
    earlier = []
    for k, name in enumerate(case['seq']):
        if name.startswith('mut'):
            part = 0 if name == 'mut_x' else 1
            if not w.version[part]:
                w.version[part] = 1
                w.apply(part)
            # the caller's own change: what results share with it may follow
            earlier = [(n, r, engine.digest(lib.flat(r)))
                       for n, r, _ in earlier]
            continue
        ok, want = ALONE[name, tuple(w.version)]
        if not ok:
            ctx.fail(f'alone:{name}', want)
            return
        before = engine.digest(lib.flat(w.d))
        proc = process()
        got = ops()[name](w.d)
        now = process()
        for a, b, what in zip(proc, now, (
                'numpy.random', 'numpy.random', 'numpy.random',
                'warnings.filters', 'warnings.showwarning', 'numpy.geterr',
                'numpy.geterrcall', 'numpy print options')):
            ctx.true('process:' + what, a == b, f'{name} changed {what}')
        ctx.true('arguments', engine.digest(lib.flat(w.d)) == before,
                 f'{name} (call {k + 1}) modified an argument')
        for n, r, dg in earlier:
            ctx.true('earlier', engine.digest(lib.flat(r)) == dg,
                     f'{name} modified the earlier result of {n}')
        lib.same(ctx, f'alone:{name}', got, want, rtol=1e-9, atol=1e-10)
        if case.get('t') == 'over':
            ctx.outcome(name, engine.digest(lib.flat(got)))
            overwrite(got, w.d)
            ctx.state('over', case['seq'][:k + 1])
            continue
        earlier.append((name, got, engine.digest(lib.flat(got))))
        ctx.state(case['seq'][:k + 1])
        ctx.outcome(name, tuple(w.version), earlier[-1][2])
    ctx.trace()
