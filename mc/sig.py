"""Fixed test signals. Deterministic, built from integers, no seed."""
import functools

import numpy as np


def _noise(n, k):
    """Irrational-looking noise, no zero, from an integer hash"""
    i = np.arange(1, n + 1, dtype=np.uint64)
    with np.errstate(over='ignore'):
        h = i * np.uint64(0x9E3779B97F4A7C15) + np.uint64(7919 * k + 13)
        h ^= h >> np.uint64(31)
        h *= np.uint64(0xBF58476D1CE4E5B9)
        h ^= h >> np.uint64(27)
        h *= np.uint64(0x94D049BB133111EB)
        h ^= h >> np.uint64(31)
    u = (h >> np.uint64(11)).astype(float) / 2.0 ** 53
    u = np.clip(u, 1e-9, 1 - 1e-9)
    v = np.roll(u, 1)
    return np.sqrt(-2 * np.log(u)) * np.cos(2 * np.pi * v)


@functools.lru_cache(maxsize=4096)
def _make(kind, n, k):
    e = _noise(n, k)
    if kind == 'noise':
        return e
    if kind == 'walk':
        return np.cumsum(e)
    if kind == 'smooth':
        return np.cumsum(np.cumsum(e)) / 16
    if kind == 'diff':                      # rough: eta_p < 0
        return np.diff(np.concatenate([[0.], e]))
    if kind == 'multi':                     # walk with lognormal volatility
        v = np.convolve(_noise(n + 64, k + 50), np.ones(64) / 8, 'valid')[:n]
        return np.cumsum(e * np.exp(0.5 * v))
    if kind == 'big':
        return 1e6 * np.cumsum(e)
    if kind == 'tiny':
        return 1e-6 * np.cumsum(e)
    raise ValueError(kind)


def make(kind, n, k=0):
    return _make(kind, n, k).copy()


def batch(kind, n, reps, k=0):
    """(n, reps); kind may be 'a+b': realisations cycle through the kinds"""
    kinds = kind.split('+')
    return np.stack([make(kinds[r % len(kinds)], n, k + r)
                     for r in range(reps)], axis=1)


def layout(x, how):
    """Same values, other container"""
    if how == 'C':
        return np.ascontiguousarray(x)
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.full((x.shape[0] * 2,) + x.shape[1:], 1e3)
        big[::2] = x
        return big[::2]
    if how == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == 'f32':
        return x.astype(np.float32)
    if how == 'int':
        return np.round(x * (5000 / np.abs(x).max())).astype(np.int64)
    raise ValueError(how)


P_EXP = {'none': None, 'inf': np.inf, '0.5': 0.5, '1': 1, '1.0': 1.0,
         '1.5': 1.5, '2': 2, '2.0': 2.0, '3': 3, '4': 4, '8': 8, '12': 12}


def p_of(name):
    return P_EXP[name]
