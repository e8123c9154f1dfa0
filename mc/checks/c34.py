"""Failures: an exception at every line executed by an analysis, then every
other analysis and every call of the Signal, against undisturbed ones."""
import ast
import copy
import pickle
import sys

import numpy as np

from .. import engine, lib, sched
from . import c16

LEVEL = 'model_checking'
CHUNK = 1
CASE_SECONDS = 800
OPS = ['none_s', 'inf_s', 'inf_m', 'p_m', 'sf', 'cum', 'spec', 'hmin',
       'welch', 'wpsd', 'mfa_T', 'beta', 'fgn', 'mrw', 'mrw2D']
LARGE = ['bi', 'full_b', 'mfa_L', 'skewed']
# run after a failure
AFTER = ['inf_s', 'p_m', 'wpsd', 'none_t', 'cum_U', 'hmin', 'bi', 'fgn']
BOUNDS = {
    'quick': 'an interruption and a memory error at every line (up to 1400) '
             'of 15 analyses, in a process where no function was called and '
             'after another analysis, and an interruption in 4 longer ones; '
             'each followed by the same analysis and 8 (3) others; for a '
             'Signal, an interruption at every line of the library outside '
             'signal.py during each of 9 calls after 4 histories, followed '
             'by each of 13 calls; 68 calls with bad arguments after 3 '
             'histories, each followed by 13 analyses',
    'thorough': 'as quick, with 2 kinds of failures in the longer ones, 10 '
                'histories of the Signal and every ordered pair of bad calls',
}
RULE = ('a state is (analysis, history, line, kind of failure); non-trivial: '
        'the analysis did not come to its end')
ASSUMPTIONS = ['failures arise between two lines of the library, not in the '
               'middle of a call to numpy or scipy, nor between a change and '
               'the with or try that undoes it']
WORLD = {}


def ops():
    o = c16.ops()
    from pymultifracs.fractal_analysis import fractal_analysis
    from pymultifracs.simul.fbm import fgn
    from pymultifracs.simul.mrw import mrw, mrw2D, skewed_mrw
    o['beta'] = lambda d: fractal_analysis(
        d['a'], 1.0, freq_band=(0.01, 0.4))

    def seeded(f):
        def run(d):
            np.random.seed(3)
            return f()
        return run
    o['fgn'] = seeded(lambda: fgn((16, 2), 0.7))
    o['mrw'] = seeded(lambda: mrw((16, 2), 0.7, 0.3, 8))
    o['mrw2D'] = seeded(lambda: mrw2D((6, 2), 0.7, 0.3, 3))
    o['skewed'] = seeded(lambda: skewed_mrw((8, 1), 0.7, 0.3, 4))
    return o


UNSAFE = {}


def unsafe(file):
    """Lines at which no program can clean up after itself: those entering or
    leaving a with or a try, and those of a clean-up"""
    if file not in UNSAFE:
        out = set()
        with open(file, encoding='utf8') as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith, ast.Try)):
                out.update(range(n.lineno, n.body[0].lineno))
            if isinstance(n, ast.Try):
                for b in n.finalbody:
                    out.update(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
        UNSAFE[file] = out
    return UNSAFE[file]


def bad():
    """Calls that end with an error (or not) by themselves"""
    from pymultifracs import bivariate, estimation, mfa, psd
    from pymultifracs.bivariate import (bivariate_cumulants,
                                        bivariate_structurefunction)
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.fractal_analysis import fractal_analysis
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.multiresquantity import MultiResolutionQuantity
    from pymultifracs.simul.fbm import fgn
    from pymultifracs.simul.mrw import mrw, mrw2D, mrw_cumul, skewed_mrw
    from pymultifracs.simul.pzutils import gaussian_chol
    from pymultifracs.structurefunction import StructureFunction
    from pymultifracs.utils import build_q_log
    from pymultifracs.wavelet import wavelet_analysis as wa
    q = np.array([2., 1.])
    st = dict(weighted=True)
    T = (lambda d, k: d['T'][k].wt_coefs)        # noqa: E731
    out = {
        'wavelet name': lambda d: wa(d['a'], wt_name='nope'),
        'wavelet name leaders': lambda d: wa(d['a'], p_exp=2, wt_name='db99'),
        'continuous wavelet': lambda d: wa(d['a'], wt_name='morl'),
        'empty': lambda d: wa(d['a'][:0], wt_name='db1'),
        'short': lambda d: wa(d['a'][:3], p_exp=2, wt_name='db3', j2=3),
        'all missing': lambda d: wa(d['a'] * np.nan, p_exp=2, wt_name='db1'),
        'scalar': lambda d: wa(np.array(3.), wt_name='db1'),
        'text': lambda d: wa(np.array(['a'] * 30), wt_name='db1'),
        'three axes': lambda d: wa(d['a'].reshape(10, 2, 2), wt_name='db1',
                                   p_exp=np.inf, j2=2),
        'p 0': lambda d: wa(d['a'], p_exp=0, wt_name='db1', j2=3),
        'p text': lambda d: wa(d['a'], p_exp='x', wt_name='db1', j2=3),
        'p negative': lambda d: wa(d['m'], p_exp=-1, wt_name='db1', j2=2),
        'norm 0': lambda d: wa(d['a'], normalization=0, wt_name='db1'),
        'gamint text': lambda d: wa(d['a'], gamint='x', wt_name='db1'),
        'j1 0': lambda d: wa(d['a'], p_exp=2, j1=0, wt_name='db1', j2=3),
        'j1 large': lambda d: wa(d['a'], p_exp=2, j1=9, wt_name='db1', j2=3),
        'sf scales': lambda d: StructureFunction(T(d, 'a'), q, 1, 30, True),
        'sf scales unweighted': lambda d: StructureFunction(
            T(d, 'a'), q, 1, 30, False),
        'sf q': lambda d: StructureFunction(
            T(d, 'a'), np.array(['x']), 1, 2, True),
        'sf none': lambda d: StructureFunction(None, q, 1, 2, True),
        'cum scales': lambda d: Cumulants(T(d, 'a'), 2, 1, 30, True),
        'cum 0': lambda d: Cumulants(T(d, 'a'), 0, 1, 2, True),
        'cum text': lambda d: Cumulants(T(d, 'a'), 'x', 1, 2, True),
        'spec scales': lambda d: MultifractalSpectrum(
            T(d, 'a'), 1, 30, True, q),
        'spec q': lambda d: MultifractalSpectrum(
            T(d, 'a'), 1, 2, True, np.array(['x'])),
        'hmin scales': lambda d: estimation.estimate_hmin(
            T(d, 'a'), 1, 30, True),
        'hmin unweighted': lambda d: estimation.estimate_hmin(
            T(d, 'a'), 1, 30, False),
        'hurst scales': lambda d: estimation.compute_hurst(
            T(d, 'a'), 1, 30, True),
        'mfa scales': lambda d: mfa.mf_analysis(
            d['T']['a'].wt_coefs, d['T']['a'].wt_leaders, 30, 1, True, 2, q),
        'mfa q': lambda d: mfa.mf_analysis(
            d['T']['a'].wt_coefs, d['T']['a'].wt_leaders, 2, 1, True, 2,
            ['x']),
        'minimal': lambda d: mfa.minimal_mf_analysis(
            d['T']['a'].wt_coefs, d['T']['a'].wt_leaders, 2, 1, True, None,
            q),
        'full wavelet': lambda d: mfa.mf_analysis_full(
            d['a'], 1, 3, wt_name='nope'),
        'full j1': lambda d: mfa.mf_analysis_full(
            d['a'], 20, 30, wt_name='db1', p_exp=np.inf),
        'full keyword': lambda d: mfa.mf_analysis_full(
            d['a'], 1, 3, wt_name='db1', nope=3),
        'bi lengths': lambda d: bivariate.bivariate_analysis(
            d['T']['a'], d['T']['s'], 1, True, 1, d['qb'], d['qb']),
        'bi formalism': lambda d:
            bivariate_structurefunction.BiStructureFunction(
                d['T']['a'].wt_coefs, d['T']['a'].wt_leaders, 1, 2, d['qb'],
                d['qb'], True),
        'bi q': lambda d: bivariate.bivariate_analysis(
            d['T']['s'], d['T']['t'], 1, True, 1, q, q),
        'bi none': lambda d: bivariate.bivariate_analysis(
            d['T']['s'], None, 1, True, 1, q, q),
        'bicum': lambda d: bivariate_cumulants.BiCumulants(
            d['T']['a'].wt_leaders, d['T']['b'].wt_leaders, 0, 1, 2, True),
        'legendre': lambda d: bivariate_cumulants.BiCumulants(
            d['T']['s'].wt_coefs, d['T']['t'].wt_coefs, 1, 1, 2,
            True).compute_legendre(),
        'welch 0': lambda d: psd.welch_estimation(d['a'], 1., 0),
        'welch text': lambda d: psd.welch_estimation(d['a'], 1., 'x'),
        'welch empty': lambda d: psd.welch_estimation(d['a'][:0], 1., 8),
        'wpsd moments': lambda d: psd.wavelet_estimation(d['a'], 1., 99),
        'wpsd fs': lambda d: psd.wavelet_estimation(d['a'], 'x', 1),
        'wpsd short': lambda d: psd.wavelet_estimation(d['a'][:2], 1., 3),
        'beta band': lambda d: fractal_analysis(
            d['a'], 1., 1, freq_band=(5, 6)),
        'beta log': lambda d: fractal_analysis(
            d['a'], 1., 1, freq_band=(.01, .4), log='nope'),
        'beta none': lambda d: fractal_analysis(
            d['a'], 1., 1, freq_band=None),
        'log plot': lambda d: psd.log_plot([d['a']], [d['b']], log='nope'),
        'plot psd': lambda d: psd.plot_psd(d['a'], 1., 8, None, 99),
        'fgn H': lambda d: fgn((16, 2), 1.5),
        'fgn method': lambda d: fgn((16, 2), .5, method='nope'),
        'fgn noise': lambda d: fgn((16, 2), .5, z0=np.ones((3, 3))),
        'fgn shape': lambda d: fgn((16, 2, 2), .5),
        'mrw L': lambda d: mrw((16, 2), .7, .3, 99),
        'mrw method': lambda d: mrw((16, 2), .7, .3, 8, method='nope'),
        'mrw noise': lambda d: mrw((16, 2), .7, .3, 8,
                                   z0=(None, np.ones(3))),
        'mrw cumul': lambda d: mrw_cumul((16, 2), .7, .3, 8),
        'skewed': lambda d: skewed_mrw((8, 1), .7, .3, 99),
        'mrw2D': lambda d: mrw2D((6, 2, 2), .7, .3, 3),
        'chol': lambda d: gaussian_chol(np.array([1., 2., 1.]), 3, 1),
        'q log': lambda d: build_q_log(0, 5, 3),
        'formalism': lambda d: MultiResolutionQuantity('nope', 0.),
        'mrq attribute': lambda d: d['T']['a'].wt_coefs.nope,
        'cum attribute': lambda d: Cumulants(
            T(d, 'a'), 2, 1, 2, **st).nope,
        'add values': lambda d: copy.copy(MultiResolutionQuantity(
            'wavelet coef', 0.)).add_values('x', 1),
        'interval': lambda d: d['T']['a'].wt_coefs.get_nj_interv(0, 9),
    }
    return out


def after_bad(names, before):
    """In a process of its own"""
    import contextlib
    import io
    d, o = fresh()
    b = bad()
    if before:
        o[before](d)
    np.random.seed(1)
    dg, proc = engine.digest(lib.flat(d)), c16.process()[:3]
    done = []
    for n in names:
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                b[n](d)
            done.append(True)
        except Exception as e:                 # pylint: disable=broad-except
            done.append(type(e).__name__)
    out = [done, [str(x) == str(y) for x, y in zip(proc, c16.process()[:3])],
           engine.digest(lib.flat(d)) == dg]
    after = {}
    for n in ('inf_s', 'p_m', 'wpsd', 'none_t', 'cum_U', 'hmin', 'bi', 'fgn',
              'sf', 'spec', 'welch', 'mfa_T', 'mrw'):
        try:
            after[n] = lib.flat(copy.deepcopy(o[n](d)))
        except Exception as e:                 # pylint: disable=broad-except
            after[n] = f'{type(e).__name__}: {e}'
    return out + [after]


def check_bad(case, ctx):
    first = case['name']
    seqs = [(first,)] if case['t'] == 'bad' else [
        (first, n) for n in bad() if n != first]
    for names in seqs:
        at = ', '.join(names)
        ok, v = engine.in_new_process(after_bad, names, case['before'])
        ctx.trace()
        if not ctx.true('failure', ok, f'{v}: {at}'):
            continue
        done, same, args, after = v
        for s, what in zip(same, ('warnings.filters', 'warnings.showwarning',
                                  'numpy.geterr')):
            ctx.true('process:' + what, s, f'{what} changed by {at}')
        ctx.true('arguments', args, f'modified by {at}')
        for n, f in after.items():
            if isinstance(f, str):
                ctx.fail(f'after:{n}', f'{f} after {at}')
            else:
                n0 = len(ctx.violations)
                lib.same(ctx, f'after:{n}', f, WORLD['alone'][n], rtol=1e-9,
                         atol=1e-10)
                if len(ctx.violations) > n0:
                    ctx.fail('after', at)
        ctx.state('bad', names, case['before'])
        ctx.outcome(names, done)


class Failing:
    """Raises exc before the k-th line executed in the library"""

    def __init__(self, k, exc, skip=None):
        self.k, self.exc, self.n, self.skip = k, exc, 0, skip

    def run(self, fun):
        """(result, error)"""
        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno not in unsafe(
                    frame.f_code.co_filename):
                if self.n == self.k:
                    self.n += 1
                    raise self.exc('injected')
                self.n += 1
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            return local if sched.LIB in f and not (
                self.skip and f.endswith(self.skip)) else None
        old = sys.gettrace()
        sys.settrace(glob)
        try:
            return fun(), None
        except (KeyboardInterrupt, MemoryError) as e:
            return None, e
        finally:
            sys.settrace(old)


KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def fresh():
    return pickle.loads(WORLD['pickle']), ops()


def one(name, k, kind, before):
    """In a process of its own"""
    d, o = fresh()
    if before:
        o[before](d)
    np.random.seed(1)
    dg, proc = engine.digest(lib.flat(d)), c16.process()[:3]
    f = Failing(k, KINDS[kind])
    r, e = f.run(lambda: o[name](d))
    out = [e is None, lib.flat(r) if e is None else None,
           [str(x) == str(y) for x, y in zip(proc, c16.process()[:3])],
           engine.digest(lib.flat(d)) == dg]
    after = {}
    for n in [name] + [n for n in AFTER if n != name][
            :3 if name in LARGE else None]:
        try:
            after[n] = lib.flat(copy.deepcopy(o[n](d)))
        except Exception as e:                 # pylint: disable=broad-except
            after[n] = f'{type(e).__name__}: {e}'
    return out + [after]


def prepare(tier):
    # imports, and calls no function of the library
    ops()
    from pymultifracs import signal                      # noqa: F401

    def world():
        import warnings
        from pymultifracs.wavelet import wavelet_analysis
        warnings.simplefilter('ignore')
        d = c16.data()
        d['T'] = {k: wavelet_analysis(
            d[s], p_exp=np.inf if k in 'ab' else None, wt_name='db1',
            j2=3 if k in 'ab' else 2)
            for k, s in (('a', 'a'), ('b', 'b'), ('s', 's'), ('t', 's_'))}
        return pickle.dumps(d)
    WORLD['pickle'] = new(world)
    WORLD['alone'], WORLD['len'] = {}, {}
    for n in sorted(set(OPS + LARGE + AFTER)):
        def alone():
            d, o = fresh()
            f = Failing(-1, KeyboardInterrupt)
            r, _ = f.run(lambda: o[n](d))
            return lib.flat(copy.deepcopy(r)), f.n
        WORLD['alone'][n], WORLD['len'][n] = new(alone)
    WORLD['calls'] = new(lengths)


def new(fun, *args):
    ok, v = engine.in_new_process(fun, *args)
    if not ok:
        raise RuntimeError(v)
    return v


def cases(tier):
    quick = tier == 'quick'
    for n in bad():
        for before in (None, 'inf_m', 'wpsd'):
            yield dict(t='bad', name=n, before=before)
        if not quick:
            yield dict(t='bad2', name=n, before=None)
    for n in OPS + LARGE:
        for kind in KINDS:
            for before in (None, 'inf_m'):
                if n in LARGE and quick and (kind == 'memory' or before):
                    continue
                if before and kind == 'memory' and quick:
                    continue
                L = WORLD['len'][n]
                for a in range(0, L, 60):
                    yield dict(t='op', name=n, kind=kind, before=before,
                               lines=[a, min(a + 60, L)])
    for h, calls in WORLD['calls'].items():
        if quick and h not in QUICK:
            continue
        for c, L in calls.items():
            for a in range(0, L, 60):
                yield dict(t='signal', history=h, call=c,
                           kinds=list(KINDS)[:1 if quick else 2],
                           lines=[a, min(a + 60, L)])


def check(case, ctx):
    if case['t'] == 'signal':
        return check_signal(case, ctx)
    if case['t'].startswith('bad'):
        return check_bad(case, ctx)
    name = case['name']
    for k in range(*case['lines']):
        if case.get('line', k) != k:
            continue
        ok, v = engine.in_new_process(one, name, k, case['kind'],
                                      case['before'])
        ctx.trace()
        at = f'{case["kind"]} at line {k} of {name}'
        if not ctx.true('failure', ok, f'{v}: {at}'):
            continue
        done, got, same, args, after = v
        n0 = len(ctx.violations)
        if done:
            lib.same(ctx, 'absorbed', got, WORLD['alone'][name], rtol=1e-9,
                     atol=1e-10)
        for s, what in zip(same, ('warnings.filters', 'warnings.showwarning',
                                  'numpy.geterr')):
            ctx.true('process:' + what, s, f'{what} changed by {at}')
        ctx.true('arguments', args, f'modified by {at}')
        for n, f in after.items():
            if isinstance(f, str):
                ctx.fail(f'after:{n}', f'{f} after {at}')
            else:
                lib.same(ctx, f'after:{n}', f, WORLD['alone'][n], rtol=1e-9,
                         atol=1e-10)
        if len(ctx.violations) > n0:
            ctx.fail('after', at)
        ctx.state(name, k, case['kind'], case['before'])
        ctx.outcome(name, done)


# -- Signal ------------------------------------------------------------------

A = dict(j1=1, j2=3, normalization=1, gamint=0.0, weighted=True,
         wt_name='db1', p_exp=None)
B = dict(A, p_exp=np.inf, gamint=0.5)
CALLS = {
    'wa A': lambda s: s.wavelet_analysis(**A),
    'wa B': lambda s: s.wavelet_analysis(**B),
    'psd 1': lambda s: s.estimate_wavelet_psd(1),
    'psd 2': lambda s: s.estimate_wavelet_psd(2),
    'welch 16': lambda s: s.estimate_welch_psd(16),
    'welch 32': lambda s: s.estimate_welch_psd(32, 16),
    'fractal': lambda s: s.fractal_analysis(1, (0.01, 0.4)),
    'mf 2': lambda s: s.mf_analysis(np.array([2., 1.]), 2),
    'mf 0': lambda s: s.mf_analysis(np.array([0., -1.]), 1),
    'full A': lambda s: s.mf_analysis_full(**A, q=np.array([2.]), n_cumul=2),
    'full B': lambda s: s.mf_analysis_full(**B, q=np.array([1.]), n_cumul=1),
    'hurst': lambda s: s.hurst(),
    'hmin': lambda s: s.hmin(),
}
HISTORIES = {
    'new': [], 'A': ['wa A'], 'A mf': ['wa A', 'mf 2'],
    'all': ['full A', 'psd 1', 'welch 16'],
    'B': ['wa B'], 'B mf': ['full B'], 'psds': ['psd 2', 'welch 32'],
    'AB': ['full A', 'full B'], 'BA': ['full B', 'full A'],
    'fractal': ['fractal', 'wa A'],
}
QUICK = ('new', 'A mf', 'all', 'B mf')
FAILED = ['wa A', 'wa B', 'psd 1', 'psd 2', 'welch 32', 'fractal', 'mf 0',
          'full A', 'full B']
OF_TRANSFORM = ('mf 2', 'mf 0', 'hurst', 'hmin')


def signal_after(history):
    from pymultifracs.signal import Signal
    d = c16.data()
    s = Signal(d['a'].copy(), 1.0)
    for c in HISTORIES[history]:
        CALLS[c](s)
    return s


def lengths():
    """Lines outside signal.py of each call"""
    out = {}
    for h in HISTORIES:
        out[h] = {}
        for c in FAILED:
            s = signal_after(h)
            f = Failing(-1, KeyboardInterrupt, 'signal.py')
            try:
                f.run(lambda: CALLS[c](s))
            except AttributeError:
                continue
            if f.n:
                out[h][c] = f.n
    return out


def answers():
    """What each call gives on an undisturbed Signal, by transform"""
    out = {}
    for t in (None, 'A', 'B'):
        for c in CALLS:
            s = signal_after('new')
            if t:
                CALLS['wa ' + t](s)
            try:
                out[t, c] = lib.flat(copy.deepcopy(CALLS[c](s)))
            except AttributeError:
                out[t, c] = None
    return out


def transform_of(calls):
    t = None
    for c in calls:
        if c.startswith(('wa', 'full')):
            t = c[-1]
    return t


def broken(case):
    """Everything the Signal answers after a failure at each line"""
    out = []
    for k in range(*case['lines']):
        if case.get('line', k) != k:
            continue
        for kind in case['kinds']:
            s = signal_after(case['history'])
            x = s.data.copy()
            r, e = Failing(k, KINDS[kind], 'signal.py').run(
                lambda: CALLS[case['call']](s))
            after = {}
            for c in CALLS:
                t = copy.deepcopy(s)
                try:
                    after[c] = lib.flat(CALLS[c](t))
                except AttributeError:
                    after[c] = None
                except Exception as err:       # pylint: disable=broad-except
                    after[c] = f'{type(err).__name__}: {err}'
            out.append((k, kind, e is None, np.array_equal(x, s.data), after))
    return out


def check_signal(case, ctx):
    want = new(answers)
    h, call = case['history'], case['call']
    old = transform_of(HISTORIES[h])
    fine = [old]
    if call.startswith(('wa', 'full')):
        fine.append(call[-1])
    for k, kind, done, pure, after in new(broken, case):
        ctx.trace(len(after))
        at = f'after {kind} at line {k} of {call} with history {h}'
        ctx.true('signal:data', pure, 'data modified ' + at)
        for c, f in after.items():
            if isinstance(f, str):
                ctx.fail(f'signal:{c}', f'{f} {at}')
                continue
            if c not in OF_TRANSFORM:
                fine_c = [want[None, c]]
            else:
                # the transform before, the one that failed, or none
                fine_c = [want[t, c] for t in fine] + [None] * (
                    len(fine) > 1)
            n0 = None
            ok = False
            for w in fine_c:
                probe = engine.Ctx(ctx.tier)
                if w is None or f is None:
                    ok = w is None and f is None
                else:
                    try:
                        lib.same(probe, c, f, w, rtol=1e-9, atol=1e-10)
                    except engine.Stop:
                        pass
                    ok = not probe.violations
                    n0 = probe.violations[:1]
                if ok:
                    break
            ctx.true(f'signal:{c}', ok, f'{c} is not what it is on an '
                     f'undisturbed Signal, {at}: {n0}')
        ctx.state('signal', h, call, k, kind)
        ctx.outcome(h, call, done)
