"""Shared helpers of the checks"""
import itertools
import math
import warnings

import numpy as np

from . import ref, sig

NAMES = ['wavelet coef', 'wavelet leader', 'wavelet p-leader']


def caught(fun, *args, **kw):
    """(result, [warnings]) of a call"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = fun(*args, **kw)
    return r, w


def user(w):
    """Those a user is meant to see"""
    return [x for x in w if issubclass(x.category, UserWarning)]


def mrq(values, formalism='wavelet coef', gamint=0.0):
    """A quantity holding exactly these values (scale -> (n_j, nrep))"""
    from pymultifracs.multiresquantity import MultiResolutionQuantity
    m = MultiResolutionQuantity(formalism, gamint)
    for j, v in values.items():
        m.add_values(np.array(v, dtype=float), j)
    return m


def vals(m):
    return {int(j): np.asarray(v) for j, v in m.values.items()}


def wt(case, x=None):
    """wavelet_analysis for a case of the configuration space"""
    from pymultifracs.wavelet import wavelet_analysis
    return wavelet_analysis(signal(case) if x is None else x,
                            **wt_args(case))


def signal(case):
    x = sig.batch(case['kind'], case['n'], case.get('reps', 1),
                  case.get('k', 0))
    if case.get('dim', 2) == 1:
        x = x[:, 0]
    return sig.layout(x, case.get('layout', 'C'))


def wt_args(case):
    return dict(p_exp=sig.p_of(case['p']), wt_name=case['wt'],
                j1=case['j1'], j2=case['j2'], gamint=case['gamint'],
                normalization=norm_of(case['norm']),
                weighted=case['weighted'])


def norm_of(v):
    return np.inf if v == 'inf' else v


def ref_wt(case, x):
    return ref.transform(x, **wt_args(case))


SPACE = dict(
    p=['none', 'inf', '2', '1'],
    wt=['db3', 'db1', 'db2', 'db4', 'db6', 'sym4', 'coif1'],
    n=[256, 127, 100, 255, 512, 4100],
    kind=['walk', 'noise', 'smooth', 'multi', 'diff', 'big', 'tiny'],
    reps=[1, 2, 3],
    dim=[2, 1],
    layout=['C', 'F', 'strided', 'reversed', 'readonly', 'int', 'f32'],
    norm=[1, 2, 3, 'inf', 0.5],
    gamint=[0.0, 0.5, 1, -0.5, 1.5],
    j1=[1, 2],
    j2=[10, 3, 4, 5],
    weighted=[True, False],
)


def space(k, bases=({},), drop=(), **over):
    from . import engine
    dom = {**SPACE, **over}
    for d in drop:
        dom.pop(d, None)
    for c in engine.bounded(dom, k, bases):
        if c.get('dim') == 1 and c.get('reps', 1) > 1:
            continue
        if c.get('kind') == 'smooth' and c.get('n', 0) > 1000:
            continue                # its amplitude leaves no digits
        yield c


class Flat(dict):
    pass


def flat(obj, prefix=''):
    """Every number of a (nested) result, by path"""
    import dataclasses
    out = Flat()
    if obj is None or isinstance(obj, (str, bool, int, float, np.generic)):
        out[prefix] = obj
    elif isinstance(obj, np.ndarray):
        out[prefix] = obj
    elif isinstance(obj, dict):
        out[prefix + '#'] = [str(k) for k in obj]
        for k, v in obj.items():
            out.update(flat(v, f'{prefix}[{k}]'))
    elif hasattr(obj, '_asdict'):
        for k, v in obj._asdict().items():
            out.update(flat(v, f'{prefix}.{k}'))
    elif isinstance(obj, (list, tuple)):
        for k, v in enumerate(obj):
            out.update(flat(v, f'{prefix}[{k}]'))
    elif dataclasses.is_dataclass(obj):
        for k in sorted(vars(obj)):
            if not k.startswith('_') and k not in UNCLAIMED:
                out.update(flat(vars(obj)[k], f'{prefix}.{k}'))
    else:
        out[prefix] = repr(type(obj))
    return out


def arrays(o, seen=None):
    """Every array reachable from o"""
    seen = {} if seen is None else seen
    if id(o) in seen or o is None or isinstance(o, (str, int, float, type)):
        return
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, dict):
        for v in o.values():
            yield from arrays(v, seen)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays(v, seen)
    elif hasattr(o, '__dict__'):
        yield from arrays(vars(o), seen)


# "was not debugged", says its documentation
UNCLAIMED = ('var_log_cumulants',)


def same(ctx, key, got, want, rtol=1e-10, atol=1e-11):
    """Two results with the same numbers"""
    a = got if isinstance(got, Flat) else flat(got)
    b = want if isinstance(want, Flat) else flat(want)
    ctx.equal(key + ':fields', sorted(a), sorted(b))
    for k in b:
        if k not in a:
            continue
        x, y = a[k], b[k]
        if isinstance(y, (np.ndarray, float, np.floating)) and \
                np.asarray(y).dtype.kind in 'fiub':
            ctx.close(f'{key}:{k}', x, y, rtol=rtol, atol=atol)
        elif isinstance(y, list):
            ctx.equal(f'{key}:{k}', x, y)
        else:
            ctx.equal(f'{key}:{k}', x, y)


def column(res, r):
    """Realisation r of a result"""
    return {k: (v[..., r] if isinstance(v, np.ndarray) and v.ndim else v)
            for k, v in flat(res).items()}


def mfa(t, j1, weighted, n_cumul, q):
    from pymultifracs.mfa import mf_analysis
    return mf_analysis(t.wt_coefs, t.wt_leaders, t.j2_eff, j1, weighted,
                       n_cumul, q)
