"""Gaps: every batch of realisations with different missing samples, against
each realisation analysed alone over the scales that all have."""
import itertools

import numpy as np

from .. import lib, ref, sig

LEVEL = 'model_checking'
GAPS = {
    'none': [], 'first': [(0, 1)], 'mid': [(100, 1)], 'last': [(-1, 1)],
    'run5': [(60, 5)], 'run30': [(120, 30)], 'half': [(0, 110)],
    'right': [(150, 80)], 'two': [(40, 3), (140, 3)],
    'comb': [(k, 1) for k in range(15, 200, 32)],
}
FEW = ['none', 'mid', 'run30', 'half', 'comb']
BOUNDS = {
    'quick': 'every ordered pair of 10 patterns of missing samples x 5 '
             'formalisms x 3 wavelets, every triple of 5 patterns x 4 '
             'formalisms, 8 to 70 realisations with one pattern each; '
             'configurations within 1 change for 6 pairs',
    'thorough': 'as quick with 2 further lengths, every quadruple of 4 '
                'patterns, configurations within 2 changes for 12 pairs',
}
RULE = ('a state is the sequence of patterns with the configuration; '
        'non-trivial: the patterns differ')
BASE = dict(j1=1, j2=6, gamint=0.0, norm=1, weighted=True)
Q = np.array([2., -1., 0., 0.5])


def cases(tier):
    quick = tier == 'quick'
    ps = ['none', 'inf', '2', '1', '0.5']
    for n in (220,) if quick else (220, 201, 256):
        for wt, p in itertools.product(('db2', 'db1', 'db3'), ps):
            for a in GAPS:
                yield dict(BASE, t='pairs', first=a, wt=wt, p=p, n=n)
        for p in ps[:4]:
            for a in FEW:
                yield dict(BASE, t='triples', first=a, wt='db1', p=p, n=n)
        if not quick:
            for p, a in itertools.product(ps[:3], FEW[:4]):
                yield dict(BASE, t='quads', first=a, wt='db1', p=p, n=n)
        for R in (8, 17, 33, 65, 70):
            for p in ps[:3]:
                yield dict(BASE, t='many', R=R, wt='db1', p=p, n=n)
    two = [('none', 'mid'), ('mid', 'none'), ('half', 'run5'),
           ('two', 'first'), ('right', 'half'), ('comb', 'last')]
    if not quick:
        two += [(b, a) for a, b in two]
    for c in lib.space(1 if quick else 2, drop=['dim', 'reps', 'layout'],
                       n=[240, 256, 221], wt=['db1', 'db2', 'sym4'],
                       kind=['walk', 'noise', 'multi']):
        for gaps in two:
            yield dict(c, t='config', gaps=gaps)


def check(case, ctx):
    t = case['t']
    if t == 'pairs':
        seqs = [(case['first'], b) for b in GAPS]
    elif t == 'triples':
        seqs = [(case['first'], *r) for r in itertools.product(FEW, repeat=2)]
    elif t == 'quads':
        seqs = [(case['first'], *r)
                for r in itertools.product(FEW[:4], repeat=3)]
    elif t == 'many':
        names = list(GAPS)
        seqs = [[names[(k * s) % len(names)] for k in range(case['R'])]
                for s in (1, 3)]
    else:
        seqs = [case['gaps']]
    for s in seqs:
        batch(case, ctx, tuple(s))


def make(kind, n, gaps, k):
    x = sig.make(kind, n, k)
    for a, w in GAPS[gaps]:
        x[a:a + w or None] = np.nan
    return x


def analyse(case, x):
    from pymultifracs.wavelet import wavelet_analysis
    return wavelet_analysis(x, **lib.wt_args(case))


def batch(case, ctx, seq):
    n = case['n']
    kind = case.get('kind', 'walk')
    xs = [make(kind, n, g, 7 * i + 1) for i, g in enumerate(seq)]
    t = analyse(case, np.stack(xs, axis=1))
    alone = [analyse(case, x[:, None]) for x in xs]
    ctx.trace(1 + len(xs))
    key = case['t']
    common = None
    for name in ('wt_coefs', 'wt_leaders'):
        m, ms = getattr(t, name), [getattr(a, name) for a in alone]
        if m is None:
            ctx.true(key + ':none', all(a is None for a in ms))
            continue
        top = [len(a.values) for a in ms]
        got = sorted(int(j) for j in m.values)
        ctx.equal(key + ':scales', got, list(range(1, min(top) + 1)))
        common = len(got)
        ctx.equal(key + ':j2_eff', t.j2_eff,
                  min(common, int(min(case['j2'], 99))))
    ctx.state(seq, sorted(map(str, case.items())))
    ctx.outcome(common, t.j2_eff, lib.vals(t.wt_coefs))
    if common == 0:
        return
    # alone over the same range
    limited = [analyse(dict(case, j2=t.j2_eff), x[:, None]) for x in xs]
    for r, a in enumerate(limited):
        ctx.equal(key + ':range', a.j2_eff, t.j2_eff)
        for name in ('wt_coefs', 'wt_leaders'):
            m, b = getattr(t, name), getattr(a, name)
            if m is None:
                continue
            for j in m.values:
                v, w = m.values[j][:, r], b.values[j][:, 0]
                ok = w[~np.isnan(w)]
                at = 1e-10 * (np.abs(ok).max() if len(ok) else 0)
                ctx.close(f'{key}:{name}', v, w, rtol=1e-9, atol=at)
                ctx.equal(f'{key}:{name} nj', int(m.nj[j][r]),
                          int(b.nj[j][0]))
        if t.eta_p is not None:
            ctx.close(key + ':eta_p', t.eta_p[r], a.eta_p[0], rtol=1e-9,
                      atol=1e-9)
    if t.j2_eff <= case['j1']:
        return
    whole = lib.mfa(t, case['j1'], case['weighted'], 3, Q)
    J = common
    for r, a in enumerate(limited):
        one = lib.mfa(a, case['j1'], case['weighted'], 3, Q)
        for part in ('dwt', 'lwt'):
            d, e = getattr(whole, part), getattr(one, part)
            if d is None:
                ctx.true(key + ':lwt', e is None)
                continue
            tol = dict(rtol=1e-7, atol=1e-7)
            pairs = [
                ('zeta', d.structure.zeta[:, r], e.structure.zeta[:, 0]),
                ('logvalues', d.structure.logvalues[:, :J, r],
                 e.structure.logvalues[:, :J, 0]),
                ('intercept', d.structure.intercept[:, r],
                 e.structure.intercept[:, 0]),
                ('H', d.structure.H[r], e.structure.H[0]),
                ('C', d.cumulants.values[:, :J, r],
                 e.cumulants.values[:, :J, 0]),
                ('c', d.cumulants.log_cumulants[:, r],
                 e.cumulants.log_cumulants[:, 0]),
                ('Dq', d.spectrum.Dq[:, r], e.spectrum.Dq[:, 0]),
                ('hq', d.spectrum.hq[:, r], e.spectrum.hq[:, 0]),
                ('hmin', d.hmin[r], e.hmin[0]),
            ]
            for what, v, w in pairs:
                ctx.close(f'{key}:{part} {what}', v, w, **tol)
