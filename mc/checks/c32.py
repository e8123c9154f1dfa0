"""Every sequence of additions to multi-resolution quantities, up to a depth,
compared after each step with a dictionary."""
import copy
import itertools
import pickle

import numpy as np

from .. import engine, lib, ref, sig

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every sequence of up to 4 additions, of 3 scales x 3 arrays to '
             'one of 2 quantities (104976 sequences of 4), all observations '
             'after each step; every sequence of 4 additions of 1 to 3 '
             'realisations to 2 scales; every array of (3, 2) missing patterns; 40 '
             'formalism names; dictionaries with every subset of 4 unknown '
             'entries; 25 scales in 6 orders, up to 70 realisations and 70000 '
             'values',
    'thorough': 'every sequence of up to 5 additions',
}
RULE = ('a state is the content of the two quantities, in order; non-trivial: '
        'at least one scale')
CHUNK = 1
KINDS = ('wavelet leader', 'wavelet coef', 'wavelet p-leader')
SCALES = (2, 1, 4)


def arrays(m):
    """Three arrays for quantity m: its own number of realisations"""
    nrep = (1, 3)[m]
    out = []
    for k, n in enumerate((4, 2, 5)):
        a = np.arange(1., n * nrep + 1).reshape(n, nrep) + 10 * k + 100 * m
        if k == 1:
            a[0, 0] = np.nan
        if k == 2:
            a[1:4, -1] = np.nan
            a[2] = np.nan
        out.append(a)
    return out


ARRAYS = [arrays(0), arrays(1)]
OPS = [(m, j, k) for m in range(2) for j in SCALES for k in range(3)]


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for op in range(len(OPS)):
        for op2 in range(len(OPS)):
            yield dict(t='sequences', first=[op, op2], depth=depth)
    for i in range(16):
        yield dict(t='missing', i=i)
    for kind in KINDS:
        yield dict(t='copies', kind=kind)
        yield dict(t='numbers', kind=kind)
    for R in (1, 2, 70):
        for order in range(6):
            yield dict(t='many', R=R, order=order)
    yield dict(t='formalisms')
    yield dict(t='dicts')


def check(case, ctx):
    globals()[case['t']](case, ctx)


def observe(ctx, real, model):
    for m in range(2):
        r, w = real[m], model[m]
        if list(r.values) != list(w):
            ctx.fail('scales', f'{list(r.values)}, expected {list(w)}')
        for j, k in w.items():
            a = ARRAYS[m][k]
            if r.values[j] is not a and not np.array_equal(
                    r.values[j], a, equal_nan=True):
                ctx.fail('values', f'scale {j}: not the last values given')
            want = COUNTS[m][k]
            if np.shape(r.nj[j]) != want.shape or (r.nj[j] != want).any():
                ctx.fail('nj', f'scale {j}: {r.nj[j]}, expected {want}')
        if list(r.nj) != list(w):
            ctx.fail('nj:scales', f'{list(r.nj)}')
        got = r.get_nj()
        if len(got) != len(w) or any(
                (g != COUNTS[m][k]).any() for g, k in zip(got, w.values())):
            ctx.fail('get_nj', f'{got}')
        for j1, j2 in ((1, 1), (2, 2), (4, 4), (1, 2)):
            if any(j not in w for j in range(j1, j2 + 1)):
                continue
            g = r.get_nj_interv(j1, j2)
            want = np.array([COUNTS[m][w[j]] for j in range(j1, j2 + 1)])
            if np.shape(g) != want.shape or (np.asarray(g) != want).any():
                ctx.fail('get_nj_interv', f'[{j1}, {j2}]: {g}, '
                                          f'expected {want}')
        if w and r.nrep != ARRAYS[m][0].shape[1]:
            ctx.fail('nrep', f'{r.nrep}')
    ctx.step()


COUNTS = [[(~np.isnan(a)).sum(axis=0) for a in ARRAYS[m]] for m in range(2)]


def sequences(case, ctx):
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    whole = [engine.digest(a) for m in range(2) for a in ARRAYS[m]]
    for tail in itertools.product(range(len(OPS)),
                                  repeat=case['depth'] - 2):
        real = [M(KINDS[0], 0), M(KINDS[1], 0.5)]
        model = [{}, {}]
        seq = case['first'] + list(tail)
        for i, o in enumerate(seq):
            m, j, k = OPS[o]
            real[m].add_values(ARRAYS[m][k], j)
            model[m][j] = k
            # the shorter sequences have been observed as prefixes
            if i < len(seq) - 1 and any(x for x in seq[i + 1:]):
                continue
            observe(ctx, real, model)
        ctx.trace()
        ctx.state([list(d.items()) for d in model])
        ctx.outcome(sum(len(d) for d in model))
        if real[0].formalism != KINDS[0] or real[1].gamint != 0.5:
            ctx.fail('attributes', 'formalism or gamint changed')
    ctx.equal('arrays unchanged', whole,
              [engine.digest(a) for m in range(2) for a in ARRAYS[m]])


def missing(case, ctx):
    """Counts for every pattern of missing values of a (3, 2) array"""
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    for low in range(4):
        bits = case['i'] * 4 + low
        a = np.arange(6.).reshape(3, 2)
        mask = np.array([bits >> i & 1 for i in range(6)],
                        dtype=bool).reshape(3, 2)
        a[mask] = np.nan
        for other in (0, 5, 21, 63):
            b = np.arange(6.).reshape(3, 2)
            b[np.array([other >> i & 1 for i in range(6)],
                       dtype=bool).reshape(3, 2)] = np.nan
            r = M(KINDS[2], 0)
            r.add_values(b, 3)
            r.add_values(a, 3)
            r.add_values(b[:, :2], 4)
            ctx.trace()
            want = [[sum(not mask[i, k] for i in range(3)) for k in range(2)],
                    [sum(not np.isnan(b[i, k]) for i in range(3))
                     for k in range(2)]]
            ctx.close('missing', r.get_nj_interv(3, 4), want)
            ctx.close('missing list', np.array(r.get_nj()), want)
            ctx.close('missing values', r.values[3], a)
            ctx.state('missing', bits, other)


def copies(case, ctx):
    """Copies are equal and independent"""
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    for j, k, k2 in itertools.product(SCALES, range(3), range(3)):
        a = M(case['kind'], 0.25)
        a.add_values(ARRAYS[1][k].copy(), j)
        for how in (copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))):
            b = how(a)
            ctx.trace()
            ctx.equal('copy:nrep', b.nrep, 3)
            ctx.equal('copy:kind', (b.formalism, b.gamint),
                      (case['kind'], 0.25))
            ctx.close('copy:values', b.values[j], ARRAYS[1][k])
            b.add_values(ARRAYS[1][k2], j)
            b.add_values(ARRAYS[1][k2], j + 1)
            ctx.close('copy:independent', a.values[j], ARRAYS[1][k])
            ctx.close('copy:counts', a.nj[j], COUNTS[1][k])
            ctx.close('copy:new counts', b.nj[j], COUNTS[1][k2])
            ctx.equal('copy:scales', (list(a.values), list(b.values)),
                      ([j], [j, j + 1]))
            ctx.state('copy', case['kind'], j, k, k2)


def numbers(case, ctx):
    """Every sequence of additions of 1 to 3 realisations to two scales: the
    number of realisations is that of the first scale"""
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    ops = [(j, R) for j in (1, 2) for R in (1, 2, 3)]
    for seq in itertools.product(ops, repeat=4):
        m, model = M(case['kind'], 0), {}
        for j, R in seq:
            a = np.full((3, R), 1.0 + j)
            m.add_values(a, j)
            model[j] = R
            first = next(iter(model))
            ctx.equal('nrep', m.nrep, model[first])
            ctx.equal('nj', {k: len(v) for k, v in m.nj.items()}, model)
        ctx.trace()
        ctx.state('numbers', seq)
        ctx.outcome(seq)


def many(case, ctx):
    """25 scales, some with many values, in 6 orders, some given twice"""
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    R, k = case['R'], np.arange(1, 26)
    js = [k, k[::-1], np.roll(k, 9), np.concatenate([k[1::2], k[::2]]),
          (k * 7) % 25 + 1, np.array([10, 1, 11, 2, 9, 25, 3, 24, 12])][
              case['order']]
    for as_int in (int, np.int64):
        m, model = M(KINDS[case['order'] % 3], 0), {}
        for i, j in enumerate([*js, *js[::3]]):
            n = {3: 70000, 11: 300, 10: 65536}.get(int(j), 1 + int(j) % 4)
            a = np.cos(np.arange(n * R).reshape(n, R) + i) + j
            a[(i * 5) % n, i % R] = np.nan
            m.add_values(a, as_int(j))
            model[int(j)] = (a.copy() if n < 9 else a, n - (
                np.arange(R) == i % R))
            ctx.step()
        ctx.trace()
        ctx.equal('many:scales', ([int(j) for j in m.values],
                                  [int(j) for j in m.nj]), (list(model),) * 2)
        ctx.close('many:get_nj', np.array(m.get_nj()),
                  np.array([w for _, w in model.values()]))
        ctx.equal('many:nrep', m.nrep, R)
        for j, (a, w) in model.items():
            ctx.close('many:values', m.values[j], a)
            ctx.close('many:nj', m.nj[j], w)
        for j1, j2 in itertools.product(k, k):
            if j1 <= j2 and all(j in model for j in range(j1, j2 + 1)):
                ctx.close('many:interval', m.get_nj_interv(int(j1), int(j2)),
                          np.array([model[j][1] for j in range(j1, j2 + 1)]))
        ctx.state('many', R, case['order'], as_int.__name__)
    ctx.outcome(list(model))


def formalisms(case, ctx):
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    for kind in KINDS:
        for gam in (0, 0.5, 2):
            m = M(kind, gam)
            ctx.equal('accepted', (m.formalism, m.gamint, dict(m.values)),
                      (kind, gam, {}))
            ctx.trace()
            ctx.state(kind, gam)
    bad = ['', 'wavelet', 'leader', 'coef', 'p-leader', None, 0, 'WAVELET COEF',
           'wavelet leaders', 'wavelet coefs', 'wavelet p-leaders', 'wavelet',
           'wavelet  coef', 'wavelet_leader', 'wavelet pleader']
    for kind in KINDS:
        bad += [kind + ' ', ' ' + kind, kind[:-1], kind[1:], kind.title(),
                kind.upper(), kind.replace(' ', ''), kind + 'x']
    for b in bad:
        ctx.raises('refused', ValueError, lambda: M(b, 0))
        ctx.trace()
        ctx.state('bad', b)


def dicts(case, ctx):
    """from_dict of the quantity and of every estimator"""
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import \
        BiStructureFunction
    from pymultifracs.cumulants import Cumulants
    from pymultifracs.mfspectrum import MultifractalSpectrum
    from pymultifracs.multiresquantity import MultiResolutionQuantity as M
    from pymultifracs.structurefunction import StructureFunction
    x = sig.make('walk', 200, 1)
    v = ref.transform(x, np.inf, 'db2', 1, 10).leaders
    m = lib.mrq(v, 'wavelet leader')
    j2 = max(v)
    base = dict(mrq=m, j1=1, j2=j2, weighted=True)
    bi = dict(mrq1=m, mrq2=m, j1=1, j2=j2, weighted=True)
    q = np.array([1., 2.])
    q0 = np.array([0., 1., 2.])
    want = [(M, dict(formalism='wavelet coef', gamint=0.5)),
            (StructureFunction, dict(base, q=q)),
            (MultifractalSpectrum, dict(base, q=q)),
            (Cumulants, dict(base, n_cumul=3)),
            (BiStructureFunction, dict(bi, q1=q0, q2=q0)),
            (BiCumulants, dict(bi, n_cumul=2))]
    extra = dict(unknown=1, foo=[1], wavelet='db3', p_exp=2)
    for cls, d in want:
        direct = lib.flat(cls(**d))
        for k in range(len(extra) + 1):
            for names in itertools.combinations(extra, k):
                full = dict(d, **{n: extra[n] for n in names})
                for order in (full, dict(reversed(full.items()))):
                    keys = list(order)
                    got = lib.flat(cls.from_dict(order))
                    ctx.trace()
                    ctx.equal(f'from_dict:{cls.__name__}',
                              engine.digest(got), engine.digest(direct))
                    ctx.equal('dict unchanged', list(order), keys)
                    ctx.state(cls.__name__, names)
