"""p-leaders and their finite resolution correction, realisation by
realisation, against the definition."""
import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every p of 12 x every assignment of 3 roughnesses to 1..3 '
             'realisations x weighted or not x 2 ranges; a spike at every '
             'position for 4 p; configurations within 2 changes',
    'thorough': 'up to 4 realisations, configurations within 3 changes',
}
RULE = ('a state is (p, scale, sign of eta_p of each realisation, p-leaders);'
        ' non-trivial: the correction changes the p-leaders')

P = {'2': 2, '1': 1, '0.5': 0.5, '0.25': 0.25, '1.0': 1.0, '1.5': 1.5,
     '2.0': 2.0, '3': 3, '4': 4, '2.5': 2.5, '8': 8, '12': 12,
     'np2': np.int64(2), 'np1': np.float64(1)}


def cases(tier):
    quick = tier == 'quick'
    import itertools
    rough = ['smooth', 'noise', 'walk', 'diff'][:3 if quick else 4]
    for reps in (1, 2, 3):
        for kinds in itertools.product(rough, repeat=reps):
            for p in P:
                if reps == 3 and p not in ('2', '1', '0.5', '4'):
                    continue
                for j1, j2 in [(1, 5), (2, 4), (3, 10)]:
                    if reps > 1 and j1 == 3:
                        continue
                    yield dict(t='mix', kinds='+'.join(kinds), p=p,
                               reps=reps, n=300, j1=j1, j2=j2,
                               weighted=j1 == 1, wt='db2', gamint=0.0,
                               norm=1)
    for p in ['2', '1', '0.5', '3']:
        for n, w in [(100, 'db3'), (97, 'db1')]:
            yield dict(t='spike', p=p, n=n, wt=w, j1=1, j2=10, gamint=0.5,
                       norm=1, weighted=True)
    yield dict(t='config', **{**next(iter(lib.space(0))), 'n': 5000,
                              'p': '2', 'j2': 12})
    for c in lib.space(2 if quick else 3, p=['2', '1', '0.5', '3', '1.5'],
                       gamint=[0.0, 0.5, 1, -0.5, 2], j1=[1, 2, 3],
                       kind=['walk', 'walk+diff', 'noise', 'smooth', 'multi',
                             'diff', 'big', 'tiny'], drop=['norm']):
        yield dict(t='config', **c, norm=1)


def compare(ctx, x, args, key):
    from pymultifracs.wavelet import wavelet_analysis
    want = ref.transform(x, **args)
    if want.deepest < args['j1'] + 1 or want.j2_eff < args['j1'] + 1:
        ctx.skipped += 1
        return
    # j2 within range: the only warning left is about eta_p
    args = dict(args, j2=min(args['j2'], want.levels))
    t, w = lib.caught(wavelet_analysis, x, **args)
    ctx.trace()
    got = lib.vals(t.wt_leaders)
    ctx.equal(key + ':scales', sorted(got), sorted(want.leaders))
    ctx.equal(key + ':formalism', t.wt_leaders.formalism, 'wavelet p-leader')
    ctx.close(key + ':eta_p', t.eta_p, want.eta_p, rtol=1e-7, atol=1e-8)
    warned = bool(lib.user(w))
    if np.abs(want.eta_p).min() > 1e-9:
        ctx.equal(key + ':warning', warned, bool((want.eta_p <= 0).any()))
    for j in want.leaders:
        if j not in got:
            continue
        ctx.close(key + ':leaders', got[j], want.leaders[j], rtol=1e-7)
        ctx.true(key + ':nj', np.array_equal(
            t.wt_leaders.nj[j], (~np.isnan(want.leaders[j])).sum(axis=0)))
        ctx.state(repr(args['p_exp']), j, want.eta_p > 0, got[j])
    ctx.outcome(want.eta_p, warned)


def check(case, ctx):
    if case['t'] == 'config':
        args = lib.wt_args(case)
        compare(ctx, lib.signal(case), args, 'config')
        return
    args = dict(p_exp=P[case['p']], wt_name=case['wt'], j1=case['j1'],
                j2=case['j2'], gamint=case['gamint'], normalization=1,
                weighted=case['weighted'])
    if case['t'] == 'mix':
        x = sig.batch(case['kinds'], case['n'], case['reps'], 2)
        compare(ctx, x, args, 'mix')
        return
    n = case['n']
    x = sig.make('multi', n, 9)[:, None] + 1e3 * np.eye(n)
    compare(ctx, x, args, 'spike')
