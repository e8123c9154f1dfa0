"""Threads: every schedule of two analyses with at most B preemptions, at every
line of the library, under a controlled scheduler; results and process-wide
state against the sequential ones."""
import copy
import pickle
import sys
import warnings

import numpy as np

from .. import engine, lib, sched, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '2 threads; every schedule with at most 1 preemption for 24 '
             'pairs of analyses (up to 1400 lines each), and with at most 2 '
             'for 3 pairs (up to 140 lines); with at most 1 for 13 pairs in a '
             'process where no function of the library was called; scheduling point: each executed '
             'line of pymultifracs',
    'thorough': 'at most 1 preemption for all 105 pairs, at most 2 for 12 '
                'pairs, at most 3 for 2, 21 pairs without former calls',
}
RULE = ('a state is (pair, positions of both threads at a switch); '
        'non-trivial: both threads have run and neither has ended at the '
        'switch')
ASSUMPTIONS = ['switches inside a call to numpy or scipy, or inside a line, '
               'are not explored: one line of the library is atomic']
CASE_SECONDS = 850
CHUNK = 1


def data():
    n = 40
    d = dict(a=sig.make('walk', n, 1), b=sig.make('multi', n, 2),
             r=sig.make('diff', n, 3), s2=sig.batch('walk+diff', n, 2, 4))
    d['q'] = np.array([2., -1.])
    d['qb'] = np.array([0., 1., 2.])
    d['s'] = sig.make('walk', 22, 1)     # tiny, for deeper bounds
    d['s_'] = sig.make('multi', 22, 2)
    d['m'] = np.stack([sig.make('walk', 22, 5), sig.make('multi', 22, 6)], 1)
    d['m'][6, 0] = np.nan
    return d


def ops():
    from pymultifracs import bivariate, estimation, mfa, psd, wavelet
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.structurefunction import StructureFunction
    wa = wavelet.wavelet_analysis

    def T(d, k):
        t = d['T'][k]
        return dict(wt_coefs=t.wt_coefs, wt_leaders=t.wt_leaders,
                    j2_eff=t.j2_eff)
    one = dict(j1=1, weighted=True, n_cumul=2)
    return {
        'none_a': lambda d: wa(d['a'], wt_name='db1', j2=3),
        'inf_a': lambda d: wa(d['a'], p_exp=np.inf, wt_name='db1', j2=3),
        'inf_b': lambda d: wa(d['b'], p_exp=np.inf, wt_name='db1', j2=3),
        'p_a': lambda d: wa(d['a'], p_exp=2, wt_name='db1', j2=3),
        'p_r': lambda d: wa(d['r'], p_exp=1, wt_name='db1', j2=3),
        'p_s2': lambda d: wa(d['s2'], p_exp=2, wt_name='db1', j2=3),
        'mfa_T': lambda d: mfa.mf_analysis(**T(d, 's'), **one, q=d['q']),
        'mfa_U': lambda d: mfa.mf_analysis(**T(d, 't'), **one, q=d['q']),
        'mfa_L': lambda d: mfa.mf_analysis(**T(d, 'a'), **one, q=d['q']),
        'full_b': lambda d: mfa.mf_analysis_full(
            d['b'], 1, 3, wt_name='db1', p_exp=np.inf, q=d['q'], n_cumul=2),
        'bi': lambda d: bivariate.bivariate_analysis(
            d['T']['s'], d['T']['t'], 1, True, 1, d['qb'], d['qb']),
        'wpsd': lambda d: psd.wavelet_estimation(d['a'], 1.0, 1),
        'welch': lambda d: psd.welch_estimation(d['b'], 1.0, 16, 8),
        'hmin': lambda d: estimation.estimate_hmin(
            d['T']['a'].wt_coefs, 1, 3, True),
        # small ones
        'none_s': lambda d: wa(d['s'], wt_name='db1', j2=2),
        'none_t': lambda d: wa(d['s_'], wt_name='db1', j2=2),
        'inf_s': lambda d: wa(d['s'], p_exp=np.inf, wt_name='db1', j2=2),
        'inf_m': lambda d: wa(d['m'], p_exp=np.inf, wt_name='db1', j2=2),
        'p_m': lambda d: wa(d['m'], p_exp=2, wt_name='db1', j2=2),
        'sf': lambda d: StructureFunction(
            mrq=d['T']['a'].wt_coefs, q=d['q'], j1=1, j2=2, weighted=True),
        'sf_U': lambda d: StructureFunction(
            mrq=d['T']['b'].wt_coefs, q=d['q'], j1=1, j2=2, weighted=True),
        'cum': lambda d: Cumulants(
            mrq=d['T']['s'].wt_coefs, n_cumul=2, j1=1, j2=2, weighted=True),
        'cum_U': lambda d: Cumulants(
            mrq=d['T']['t'].wt_coefs, n_cumul=2, j1=1, j2=2, weighted=True),
        'spec': lambda d: MultifractalSpectrum(
            mrq=d['T']['a'].wt_coefs, q=d['q'], j1=1, j2=2, weighted=True),
        'spec_U': lambda d: MultifractalSpectrum(
            mrq=d['T']['b'].wt_coefs, q=d['q'], j1=1, j2=2, weighted=True),
    }


BIG = ['none_a', 'inf_a', 'inf_b', 'p_a', 'p_r', 'p_s2', 'mfa_T', 'mfa_U',
       'mfa_L', 'full_b', 'bi', 'wpsd', 'welch', 'hmin']
PAIRS1 = [('inf_a', 'inf_b'), ('inf_a', 'inf_a'), ('p_a', 'p_s2'),
          ('p_s2', 'p_s2'), ('none_a', 'inf_b'), ('none_a', 'p_r'),
          ('p_a', 'p_r'), ('mfa_T', 'mfa_U'), ('mfa_T', 'mfa_T'),
          ('mfa_T', 'inf_b'), ('full_b', 'inf_a'), ('mfa_L', 'mfa_T'),
          ('bi', 'mfa_U'), ('bi', 'bi'), ('wpsd', 'none_a'),
          ('welch', 'wpsd'), ('welch', 'welch'), ('hmin', 'hmin'),
          ('hmin', 'mfa_T'), ('wpsd', 'p_a')]
PAIRS1 += [('sf', 'sf_U'), ('cum', 'cum_U'), ('spec', 'spec_U'),
           ('inf_s', 'p_m')]
PAIRS2 = [('none_s', 'none_t'), ('inf_m', 'inf_m'), ('hmin', 'hmin')]
DEEP = PAIRS2 + [('inf_s', 'inf_m'), ('sf', 'sf_U'), ('cum', 'cum_U'),
                 ('spec', 'spec_U'), ('p_m', 'p_m'), ('inf_s', 'none_t'),
                 ('sf', 'cum'), ('welch', 'welch'), ('hmin', 'inf_s')]
# in a library whose functions were never called
COLD = [('none_s', 'none_t'), ('inf_s', 'inf_s'), ('p_m', 'p_m'),
        ('inf_s', 'p_m'), ('sf', 'sf_U'), ('cum', 'cum_U'),
        ('spec', 'spec_U'), ('hmin', 'hmin'), ('welch', 'welch'),
        ('wpsd', 'wpsd'), ('wpsd', 'none_s'), ('mfa_T', 'mfa_U'),
        ('bi', 'bi')]
COLD_DEEP = COLD + [('mfa_T', 'inf_s'), ('bi', 'mfa_U'), ('full_b', 'full_b'),
                    ('spec', 'sf'), ('cum', 'sf'), ('p_s2', 'p_s2'),
                    ('p_a', 'none_a'), ('hmin', 'cum')]
WORLD = {}


def cold(fun, *args):
    """fun(data, operations, *args) in a process that imports the library"""
    def inside():
        for k in list(sys.modules):
            if k.split('.')[0] == 'pymultifracs':
                del sys.modules[k]
        o = ops()
        return fun(pickle.loads(WORLD['pickle']), o, *args)
    return engine.in_new_process(inside)


def alone_cold(d, o, n):
    r = sched.Run([lambda: o[n](d), lambda: None], (0,)).go()
    return r.points[0]


def schedule_cold(d, o, pair, s):
    before, proc = engine.digest(lib.flat(d)), process()
    r = sched.Run([lambda n=n: o[n](d) for n in pair], s).go()
    out = [(lib.flat(v), e and f'{type(e).__name__}: {e}')
           for v, e in zip(r.result, r.error)]
    same = [str(a) == str(b) for a, b in zip(proc, process())]
    return out, same, engine.digest(lib.flat(d)) == before, r.points


def prepare(tier):
    from pymultifracs.wavelet import wavelet_analysis
    d = data()
    warnings.simplefilter('ignore')
    d['T'] = {k: wavelet_analysis(d[s], p_exp=np.inf if k in 'ab' else None,
                                  wt_name='db1', j2=3 if k in 'ab' else 2)
              for k, s in (('a', 'a'), ('b', 'b'), ('s', 's'), ('t', 's_'))}
    WORLD['d'] = d
    WORLD['ops'] = ops()
    WORLD['alone'], WORLD['len'] = {}, {}
    names = sorted({n for p in PAIRS1 + DEEP for n in p} | set(BIG))
    for n in names:
        # twice: the first call may import
        for _ in range(2):
            r = sched.Run([lambda: WORLD['ops'][n](d), lambda: None],
                          (0,)).go()
        if r.error[0]:
            raise r.error[0]
        WORLD['alone'][n] = lib.flat(copy.deepcopy(r.result[0]))
        WORLD['len'][n] = r.points[0]
    WORLD['pickle'] = pickle.dumps(d)
    WORLD['cold'] = {}
    for n in sorted({n for p in COLD_DEEP for n in p}):
        ok, v = cold(alone_cold, n)
        if not ok:
            raise RuntimeError(v)
        WORLD['cold'][n] = v
    # sequentially, in a world without history
    for n in names:
        ok, v = engine.in_new_process(
            lambda n=n: lib.flat(ops()[n](copy.deepcopy(WORLD['d']))))
        if not ok:
            raise RuntimeError(v)
        WORLD['alone'][n] = v


def cases(tier):
    if tier == 'quick':
        deep = [(p, 2) for p in PAIRS2]
        pairs = PAIRS1
    else:
        deep = [(p, 2) for p in DEEP]
        deep += [(('hmin', 'hmin'), 3), (('welch', 'wpsd'), 3)]
        pairs = [(a, b) for i, a in enumerate(BIG) for b in BIG[i:]]
    for p in COLD if tier == 'quick' else COLD_DEEP:
        for first in (0, 1):
            if p[0] == p[1] and first:
                continue
            blocks = max(1, WORLD['cold'][p[first]] // 15)
            for k in range(blocks):
                yield dict(pair=p, bound=1, first=first, block=k,
                           blocks=blocks, cold=True)
    for p, b in [(p, 1) for p in pairs] + deep:
        n = [WORLD['len'][x] for x in p]
        for first in (0, 1):
            if p[0] == p[1] and first:
                continue               # same by symmetry
            # one case for a block of first switch points
            blocks = max(1, n[first] // 60) if b == 1 else n[first]
            for k in range(blocks):
                yield dict(pair=p, bound=b, first=first, block=k,
                           blocks=blocks)


def schedules(first, lens, bound, k1s):
    """Every schedule that starts with a k1 of k1s, with <= bound switches.
    Later counts go from 1 to the other thread's length"""
    def rest(who, depth, used):
        yield ()
        if depth == 0:
            return
        for k in range(1, lens[who] - used[who]):
            u = list(used)
            u[who] += k
            for r in rest(1 - who, depth - 1, u):
                yield (k,) + r
    for k1 in k1s:
        used = [0, 0]
        used[first] = k1
        for r in rest(1 - first, bound - 1, used):
            yield (first, k1) + r


def process():
    return (list(warnings.filters), warnings.showwarning, np.geterr(),
            np.random.get_state()[1].tobytes())


def check_cold(case, ctx):
    pair, first = case['pair'], case['first']
    for k in range(case['block'], WORLD['cold'][pair[first]],
                   case['blocks']):
        s = (first, k)
        if 'schedule' in case and list(s) != case['schedule']:
            continue
        ok, v = cold(schedule_cold, pair, s)
        ctx.trace()
        if not ctx.true('cold', ok, f'{v} under {s}'):
            continue
        out, same, args, points = v
        ctx.step(sum(points))
        for n, (f, e) in zip(pair, out):
            if not ctx.true(f'cold:{n}', not e, f'{e} under {s} of {pair}'):
                continue
            n0 = len(ctx.violations)
            lib.same(ctx, f'cold:{n}', f, WORLD['alone'][n], rtol=1e-9,
                     atol=1e-10)
            if len(ctx.violations) > n0:
                ctx.fail('cold schedule', f'schedule {s} of {pair}')
        for ok, what in zip(same, ('warnings.filters', 'warnings.showwarning',
                                   'numpy.geterr', 'numpy.random')):
            ctx.true('cold process:' + what, ok,
                     f'{what} changed by schedule {s} of {pair}')
        ctx.true('cold arguments', args,
                 f'modified by schedule {s} of {pair}')
        ctx.state('cold', pair, s)
        ctx.outcome(pair, 'cold')


def check(case, ctx):
    d, o = WORLD['d'], WORLD['ops']
    pair = case['pair']
    if case.get('cold'):
        return check_cold(case, ctx)
    lens = [WORLD['len'][x] for x in pair]
    k1s = range(case['block'], lens[case['first']], case['blocks'])
    before = engine.digest(lib.flat(d))
    proc = process()
    flats = {}
    for s in schedules(case['first'], lens, case['bound'], k1s):
        if 'schedule' in case and list(s) != case['schedule']:
            continue
        r = sched.Run([lambda n=n: o[n](d) for n in pair], s).go()
        ctx.trace()
        ctx.step(sum(r.points))
        for i, n in enumerate(pair):
            if r.error[i]:
                e = r.error[i]
                ctx.fail(f'thread:{n}', f'{type(e).__name__}: {e} under {s}')
                continue
            # numbers bit for bit, or else close
            f = lib.flat(r.result[i])
            dg = engine.digest(f)
            if dg not in flats:
                n0 = len(ctx.violations)
                lib.same(ctx, f'thread:{n}', f, WORLD['alone'][n], rtol=1e-9,
                         atol=1e-10)
                if len(ctx.violations) > n0:
                    ctx.fail('schedule', f'schedule {s} of {pair}')
                flats[dg] = n
            elif flats[dg] != n and WORLD['alone'][n] is not None:
                # the answer of the other analysis
                lib.same(ctx, f'thread:{n}', f, WORLD['alone'][n], rtol=1e-9,
                         atol=1e-10)
        now = process()
        for a, b, what in zip(proc, now, ('warnings.filters',
                                          'warnings.showwarning',
                                          'numpy.geterr', 'numpy.random')):
            if not ctx.true('process:' + what, a == b,
                            f'{what} changed by schedule {s} of {pair}'):
                return
        if engine.digest(lib.flat(d)) != before:
            ctx.fail('arguments', f'modified by schedule {s} of {pair}')
            return
        ctx.state(pair, s)
        ctx.outcome(pair, r.switches)
