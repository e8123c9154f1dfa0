"""The Signal object as a state machine: every reachable state under an
alphabet of calls (failing calls and changes by the caller to its own
parameters included), every call from every state; and every short sequence on
one object. Each answer against the plain functions on the data."""
import copy
import itertools

import numpy as np

from .. import engine, lib, sig

LEVEL = 'model_checking'
CHUNK = 1
BOUNDS = {
    'quick': 'all reachable states of a Signal (4 signals) under 23 (wavelet, '
             'multifractal) and 16 (PSD) calls, every call from each; every '
             'sequence of 3 of 12 calls (4 of 9) on one object; every ordered '
             'pair of 32 transforms that differ in one or all parameters, of '
             '48 multifractal and of 65 PSD calls, with other calls between '
             'and after',
    'thorough': 'the same state spaces on 9 signals (20 PSD calls) and the '
                'joint space of 23 calls on 2; every sequence of 4 of 12 calls',
}
RULE = ('a state is everything the Signal stores with the versions of the '
        'parameter objects of the caller and which of them it still '
        'references; non-trivial: a call after another one')

WT = {
    'W0': (1, 3, 1, 0.0, True, 'db2', None),
    'W1': (1, 4, 1, 0.0, True, 'db2', np.inf),
    'W2': (2, 4, 2, 0.0, False, 'db1', 2),
    'W3': (1, 4, 1, 0.5, True, 'db2', np.inf),
    'Wbad': (1, 4, 1, 0.0, False, 'no such', np.inf),
}
FULL = {                      # wavelet parameters, q, n_cumul, save
    'F0': ((1, 10, 1, 0.0, True, 'db3', None), [2], 3, True),
    'F1': (WT['W1'], 'qa', 2, True),
    'F2': (WT['W0'], 'ql', 2, False),
    'F3': (WT['W3'], None, 2, True),
}
MF = {                        # q, n_cumul, save
    'M0': (None, 2, True), 'M1': ('qa', 2, True), 'M2': ('ql', 2, True),
    'M3': ([2, 1], 2, True), 'M4': ([1, 2, 0, -1], 2, True),
    'M5': ('qa', 3, True), 'M6': ([2], 3, True), 'M7': ([2, 1], 2, False),
    'M8': ('qa', 2, False), 'M9': ('ql', 3, False),
}
WPSD = {'P0': (2, None), 'P1': (1, None), 'P2': (2, 3), 'P3': (3, None),
        'Pbad': (0, None)}
WELCH = {'E0': (4096, None), 'E1': (64, None), 'E2': (64, 32),
         'E3': (32, None), 'Ebad': (0, None)}
FRAC = {'B0': (2, (0.01, 2)), 'B1': (2, 'band'), 'B2': (1, 'band'),
        'B3': (3, (0.01, 0.3))}
PLOT = {'plot_psd': (), 'plot_psd1': (64, 32, 1, 3), 'plot_fractal': (),
        'plot_fractal1': (1, 'band', 64, None)}

# one parameter at a time: every ordered pair of calls that differ in one
# parameter or in all
_BASE = dict(j1=1, j2=4, norm=1, gamint=0.0, weighted=True, wt='db2')
_OTHER = dict(j1=2, j2=3, norm=2, gamint=0.5, weighted=False, wt='db1')
for _p in (None, np.inf, 2, 1.5):
    WT[f'V{_p}'] = (*_BASE.values(), _p)
    for _k in _BASE:
        WT[f'V{_p}-{_k}'] = (*{**_BASE, _k: _OTHER[_k]}.values(), _p)
    WT[f'V{_p}-near'] = (*{**_BASE, 'gamint': 0.01}.values(), _p)
PAIRED = [k for k in WT if k[0] == 'V']
BETWEEN = [[], ['M7'], ['hmin'], ['M3'], ['hurst', 'P0']]
_Q = [[2, 1], [1, 2], [2], [2, 1, 1], [2., 1.], [2, 1.001], [-2, 1], None]
for _i, _q in enumerate(_Q):
    for _n in (1, 2, 3):
        MF[f'Mq{_i}n{_n}'] = (_q, _n, True)
        MF[f'Mq{_i}n{_n}a'] = (None if _q is None else np.array(_q), _n, True)
QS = [k for k in MF if k.startswith('Mq')]
for _n in (1, 2, 3, 4):
    for _j in (None, 1, 2, 3, 5):
        WPSD[f'Pv{_n},{_j}'] = (_n, _j)
for _n in (16, 32, 33, 64, 100):
    for _j in (None, 8, 16, 17, 33, 64):
        WELCH[f'Ev{_n},{_j}'] = (_n, _j)
for _n in (1, 2, 3):
    for _i, _b in enumerate([(0.01, 2), (0.05, 0.2), (0.05, 0.4), (0.01, 0.2),
                             [0.05, 0.2]]):
        FRAC[f'Bv{_n},{_i}'] = (_n, _b)
PSDS = [[k for k in d if k[1] == 'v'] for d in (WPSD, WELCH, FRAC)]

ALPHABET = {
    'mf': ['W0', 'W1', 'W2', 'W3', 'Wbad', *FULL,
           *[f'M{i}' for i in range(10)], 'hurst', 'hmin', 'mut', 'P0'],
    'psd': ['P0', 'P1', 'P2', 'Pbad', 'E0', 'E1', 'E2', 'Ebad', 'B0', 'B1',
            'B2', *PLOT, 'mut'],
    'psd+': ['P0', 'P1', 'P2', 'P3', 'Pbad', 'E0', 'E1', 'E2', 'E3', 'Ebad',
             'B0', 'B1', 'B2', 'B3', *PLOT, 'mut'],
    'all': ['W0', 'W1', 'W2', 'Wbad', 'F0', 'F1', 'M0', 'M1', 'M2', 'M7',
            'hurst', 'hmin', 'P0', 'P1', 'Pbad', 'E0', 'E1', 'Ebad', 'B0',
            'B1', 'plot_psd1', 'plot_fractal', 'mut'],
}
SEQ = ['W0', 'W1', 'Wbad', 'F0', 'M1', 'M2', 'M7', 'hurst', 'hmin', 'P0',
       'B1', 'mut']
SEQ4 = ['W0', 'W1', 'Wbad', 'F1', 'M1', 'M7', 'hurst', 'P1', 'mut']
AFFECTS = {
    'W': {'wt', 'mf'}, 'V': {'wt', 'mf'}, 'F': {'wt', 'mf'}, 'M': {'mf'}, 'h': set(),
    'P': {'wpsd'}, 'E': {'welch'}, 'B': {'fractal', 'wpsd'},
    'plot_psd': {'wpsd', 'welch'},
    'plot_fractal': {'wpsd', 'welch', 'fractal'}, 'm': set(),
}
SLOT = {'wt': 'wt_transform', 'mf': 'multi_fractal', 'wpsd': 'wt_psd',
        'welch': 'welch_psd', 'fractal': 'fractal'}


def data(case):
    n = case['n']
    x = sig.make(case['kind'], n, 4)
    if case.get('how') == 'nan':
        x[n // 2] = np.nan
    elif case.get('how') == 'int':
        x = np.round(x * 100).astype(int)
    elif case.get('how') == 'reps':
        x = sig.batch(case['kind'], n, 2, 4)
    return x


def cases(tier):
    base = [dict(kind='walk', n=150), dict(kind='walk', n=140, how='reps'),
            dict(kind='walk', n=150, how='nan'),
            dict(kind='noise', n=128, how='int', log='log', fs=0.5)]
    if tier != 'quick':
        base += [dict(kind='multi', n=131, fs=2.0),
                 dict(kind='diff', n=200), dict(kind='smooth', n=256),
                 dict(kind='big', n=100, fs=100.0), dict(kind='tiny', n=127)]
    for b in base:
        yield dict(t='bfs', space='mf', **b)
        if b.get('how') not in ('reps', 'nan'):
            yield dict(t='bfs', space='psd' if tier == 'quick' else 'psd+',
                       **b)
    b = base[0]
    if tier != 'quick':
        yield dict(t='bfs', space='all', **b)
        yield dict(t='bfs', space='all', **base[3])
    for first in SEQ:
        yield dict(t='seq', ops=SEQ, first=[first],
                   depth=3 if tier == 'quick' else 4, **b)
    for first in itertools.product(SEQ4, repeat=2):
        yield dict(t='seq', ops=SEQ4, first=list(first), depth=4, **b)
    for first in PAIRED:
        yield dict(t='pairs', first=first, **b)
    for first in QS:
        yield dict(t='qs', first=first, **b)
    for k in range(len(PSDS)):
        for first in PSDS[k]:
            yield dict(t='psds', k=k, first=first, **b)
    if tier != 'quick':
        for first in PAIRED:
            yield dict(t='pairs', first=first, **base[1])
            yield dict(t='pairs', first=first, **base[4])


class World:
    """The Signal, and the parameter objects its caller keeps"""

    def __init__(self, case):
        from pymultifracs.signal import Signal
        self.x = data(case)
        self.fs = case.get('fs', 1.0)
        self.log = case.get('log', 'log2')
        self.signal = Signal(self.x, self.fs, self.log)
        self.version = 0
        self.par = {'qa': np.array([1., 2.]), 'ql': [0, 1, 2],
                    'band': [0.01, 0.2]}

    def mutate(self):
        p = self.par
        self.version ^= 1
        if self.version:
            p['qa'][:] = [2., -1.]
            p['ql'][1] = -2
            p['band'][:] = [0.05, 0.4]
        else:
            p['qa'][:] = [1., 2.]
            p['ql'][1] = 1
            p['band'][:] = [0.01, 0.2]

    def arg(self, a):
        return self.par[a] if isinstance(a, str) else a

    def aliases(self):
        """Which parameter objects of the caller the Signal references"""
        out = []

        def visit(o, path, depth=0):
            for k, p in self.par.items():
                if o is p or (isinstance(o, np.ndarray)
                              and isinstance(p, np.ndarray)
                              and np.shares_memory(o, p)):
                    out.append((path, k))
            if depth < 4:
                for k, v in _children(o):
                    visit(v, f'{path}.{k}', depth + 1)
        visit(self.signal, '')
        return sorted(out)


def _children(o):
    if hasattr(o, '_asdict'):
        return list(o._asdict().items())
    if hasattr(o, '__dict__') and not isinstance(o, type):
        return list(vars(o).items())
    return []


class Fresh:
    """Answers of the plain functions on the data"""

    def __init__(self, w):
        self.x, self.fs, self.log = np.array(w.x), w.fs, w.log
        self.memo = {}

    def get(self, fun, *args):
        key = (fun, repr(args))
        if key not in self.memo:
            try:
                r = getattr(self, fun)(*args)
                f = lib.flat(r)
                self.memo[key] = (True, f, engine.digest(f), r)
            except Exception as e:
                self.memo[key] = (False, type(e), None, None)
        return self.memo[key]

    def wt(self, *p):
        from pymultifracs.wavelet import wavelet_analysis
        j1, j2, norm, gamint, weighted, name, p_exp = p
        return wavelet_analysis(np.array(self.x), p_exp=p_exp, wt_name=name,
                                j1=j1, j2=j2, gamint=gamint,
                                normalization=norm, weighted=weighted)

    def mf(self, wt, q, n_cumul):
        from pymultifracs.mfa import mf_analysis
        t = self.get('wt', *wt)[3]
        return mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, wt[0], wt[4],
                           n_cumul, q)

    def hurst(self, wt):
        from pymultifracs.estimation import compute_hurst
        t = self.get('wt', *wt)[3]
        return compute_hurst(t.wt_coefs, wt[0], t.j2_eff, wt[4])

    def hmin(self, wt):
        from pymultifracs.estimation import estimate_hmin
        t = self.get('wt', *wt)[3]
        return estimate_hmin(t.wt_coefs, wt[0], t.j2_eff, wt[4])

    def wpsd(self, n_moments, j2):
        from pymultifracs.psd import wavelet_estimation
        return wavelet_estimation(self.x, self.fs, n_moments, j2)

    def welch(self, n_fft, seg):
        from pymultifracs.psd import welch_estimation
        return welch_estimation(self.x, self.fs, n_fft, seg)

    def fractal(self, n_moments, band):
        from pymultifracs.fractal_analysis import fractal_analysis
        return fractal_analysis(self.x, self.fs, n_moments, band, self.log)


def call(w, op, wt):
    """(thunk, expected: function and arguments, the transform afterwards)"""
    s = w.signal
    if op in WT:
        p = WT[op]
        return (lambda: s.wavelet_analysis(*p)), ('wt', *p), p
    if op in FULL:
        p, q, n, save = FULL[op]
        q = w.arg(q)
        want = ('mf', p, [2] if q is None else copy.deepcopy(q), n)
        if op == 'F0':
            return s.mf_analysis_full, want, p
        return (lambda: s.mf_analysis_full(*p, q=q, n_cumul=n, save=save)), \
            want, p
    if op in MF:
        q, n, save = MF[op]
        q = w.arg(q)
        return (lambda: s.mf_analysis(q, n, save)), \
            (('mf', wt, copy.deepcopy(q), n) if wt else None), wt
    if op in ('hurst', 'hmin'):
        return getattr(s, op), ((op, wt) if wt else None), wt
    if op in WPSD:
        return (lambda: s.estimate_wavelet_psd(*WPSD[op])), \
            ('wpsd', *WPSD[op]), wt
    if op in WELCH:
        return (lambda: s.estimate_welch_psd(*WELCH[op])), \
            ('welch', *WELCH[op]), wt
    if op in FRAC:
        n, band = FRAC[op]
        band = w.arg(band)
        return (lambda: s.fractal_analysis(n, band)), \
            ('fractal', n, copy.deepcopy(band)), wt
    args = [w.arg(a) for a in PLOT[op]]
    if op.startswith('plot_psd'):
        return (lambda: s.plot_psd(*args)), 'plot', wt
    return (lambda: s.plot_fractal(*args)), 'plot', wt


def slots(w):
    return {k: engine.digest(lib.flat(getattr(w.signal, a)))
            for k, a in SLOT.items()}


def affects(op):
    for k in ('plot_psd', 'plot_fractal'):
        if op.startswith(k):
            return AFFECTS[k]
    return AFFECTS[op[0]]


def step(ctx, w, fresh, op, wt, path, before):
    """One call on the real object; returns (the transform now, result, what
    the Signal stores now)"""
    if op == 'mut':
        w.mutate()
        ctx.step()
        return wt, None, slots(w)
    par = engine.digest(lib.flat(w.par))
    thunk, want, wt_next = call(w, op, wt)
    label = f'after {path}, {op}'
    failed = None
    result = None
    if op.startswith('plot'):
        import matplotlib.pyplot as plt
        plt.close('all')
    try:
        result = thunk()
    except Exception as e:
        failed = e
    ctx.step()
    if want is None:
        ctx.true('guard:' + op[0], isinstance(failed, AttributeError),
                 f'{label}: no transform, got {failed or result!r:.200}')
        wt_next = wt
    elif want == 'plot':
        ctx.true(f'{op[:8]}', failed is None, f'{label}: {failed!r}')
    else:
        ok, f, dg, _ = fresh.get(*want)
        if not ok:
            wt_next = wt
            ctx.true(f'{op[0]}:error', failed is not None
                     and isinstance(failed, f),
                     f'{label}: got {failed or type(result)!r}, expected '
                     f'{f.__name__}')
        elif failed is not None:
            ctx.fail(f'{op[0]}:raised', f'{label}: {failed!r}')
        else:
            got = lib.flat(result)
            if engine.digest(got) != dg:
                n = len(ctx.violations)
                lib.same(ctx, f'{op[0]}', got, f)
                if len(ctx.violations) > n:
                    k, m = ctx.violations[-1]
                    ctx.violations[-1] = (k, f'{label}: {m}')
    after = slots(w)
    for k in SLOT:
        if k not in affects(op):
            ctx.true('other:' + k, before[k] == after[k],
                     f'{label}: changed {SLOT[k]}')
    ctx.true('data', np.array_equal(w.signal.data, fresh.x, equal_nan=True)
             and w.signal.data.dtype == fresh.x.dtype
             and w.signal.fs == fresh.fs and w.signal.log == fresh.log,
             f'{label}: changed the data or its description')
    ctx.true('parameters', engine.digest(lib.flat(w.par)) == par,
             f'{label}: changed a parameter of the caller')
    stored(ctx, w, fresh, label, after)
    return wt_next, result, after


def stored(ctx, w, fresh, label, now):
    """A stored transform or PSD is that of the stored parameters"""
    s = w.signal
    for p, r, fun in (('wt_param', 'wt_transform', 'wt'),
                      ('wt_psd_param', 'wt_psd', 'wpsd')):
        p, r = getattr(s, p), getattr(s, r)
        if p is None or r is None:
            continue
        ok, f, dg, _ = fresh.get(fun, *p)
        if not ok or now[fun] != dg:
            if not ctx.true('stored:' + fun, ok, f'{label}: {p}'):
                continue
            lib.same(ctx, 'stored:' + fun, r, f)


def identity(w, wt, now):
    rest = {k: v for k, v in vars(w.signal).items()
            if k != 'data' and k not in SLOT.values()}
    return (w.version, tuple(w.aliases()), repr(wt), tuple(now.values()),
            engine.digest(lib.flat(rest)))


def bfs(case, ctx):
    import matplotlib.pyplot as plt
    w0 = World(case)
    fresh = Fresh(w0)
    alphabet = [op for op in ALPHABET[case['space']]
                if not (case.get('how') in ('reps', 'nan') and op[0] in 'EB')]
    start = identity(w0, None, slots(w0))
    seen = {start}
    frontier = [(w0, None, '', slots(w0))]
    while frontier:
        following = []
        for w, wt, path, before in frontier:
            for op in alphabet:
                c = copy.deepcopy(w)
                now, _, after = step(ctx, c, fresh, op, wt, path or 'nothing',
                                     before)
                ctx.trace()
                i = identity(c, now, after)
                if i not in seen:
                    seen.add(i)
                    following.append((c, now, f'{path} {op}'.strip(), after))
        frontier = following
    plt.close('all')
    for i in seen:
        ctx.state(case['space'], case['kind'], i)
        ctx.outcome(i[3], i[4])


def sequences(case, ctx):
    fresh = Fresh(World(case))
    if case['t'] == 'pairs':
        todo = [[case['first'], *b, second, 'M7', 'hurst', 'hmin', 'M3']
                for second in PAIRED for b in BETWEEN]
    elif case['t'] == 'qs':
        todo = [['W1', case['first'], second, case['first'], 'W0', second]
                for second in QS]
    elif case['t'] == 'psds':
        todo = [[case['first'], second, case['first'], third]
                for second in PSDS[case['k']]
                for third in ('P0', 'E2', 'B0')]
    else:
        rest = case['depth'] - len(case['first'])
        todo = [[*case['first'], *tail]
                for tail in itertools.product(case['ops'], repeat=rest)]
    for seq in todo:
        w, wt = World(case), None
        now = slots(w)
        earlier = []
        for k, op in enumerate(seq):
            wt, r, now = step(ctx, w, fresh, op, wt, ' '.join(seq[:k]), now)
            for o, e, dg in earlier if op != 'mut' else ():
                ctx.true('earlier', engine.digest(lib.flat(e)) == dg,
                         f'{seq[:k]}, {op}: changed the result of {o}')
            if op == 'mut':
                earlier = [(o, e, engine.digest(lib.flat(e)))
                           for o, e, _ in earlier]
            elif r is not None:
                earlier.append((op, r, engine.digest(lib.flat(r))))
        ctx.trace()
        ctx.state('seq', seq)


def check(case, ctx):
    if case['t'] == 'bfs':
        bfs(case, ctx)
    else:
        sequences(case, ctx)
