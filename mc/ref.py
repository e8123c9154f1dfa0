"""Reference model of the analysis: plain definitions, one realisation at a
time, no recursion shared with the implementation.

Only the filter taps come from a library (pywt).
"""
import math

import numpy as np
import pywt


# -- wavelet transform ------------------------------------------------------

def filters(wt_name):
    w = pywt.Wavelet(wt_name)
    return -np.array(w.dec_hi), np.array(w.dec_lo)


def max_level(n, wt_name):
    L = len(pywt.Wavelet(wt_name).dec_hi)
    return min(int(math.floor(math.log2(n / (L + 1)))),
               int(math.floor(math.log2(n))))


def filter_keep(x, f):
    """Centred filtering; samples within len(f) - 1 of an end are missing"""
    n, L = len(x), len(f)
    y = np.full(n, np.nan)
    s = (L - 1) // 2
    for i in range(L - 1, n - L + 1):
        acc = 0.0
        for t in range(L):
            acc += f[t] * x[i + s - t]
        y[i] = acc
    return y


def filter_keep_fast(x, f):
    """filter_keep, the inner sum done on arrays"""
    n, L = len(x), len(f)
    y = np.full(n, np.nan)
    s = (L - 1) // 2
    lo, hi = L - 1, n - L
    if hi >= lo:
        acc = np.zeros(hi - lo + 1)
        for t in range(L):
            acc += f[t] * x[lo + s - t:hi + s - t + 1]
        y[lo:hi + 1] = acc
    return y


def details(x, wt_name, levels):
    """Unnormalised details of the pyramid, scales 1..levels, one signal"""
    hi, lo = filters(wt_name)
    approx = np.asarray(x, dtype=float)
    out = []
    for _ in range(levels):
        out.append(filter_keep_fast(approx, hi)[1::2])
        approx = filter_keep_fast(approx, lo)[1::2]
    return out


def coefs_1(x, wt_name, levels, normalization=1, gamint=0.0):
    return [d * 2.0 ** (j * (0.5 - 1.0 / normalization + gamint))
            for j, d in enumerate(details(x, wt_name, levels), 1)]


def leader_range(j, k, jp):
    """Indices at scale jp <= j of the dyadic intervals inside 3 lambda(j,k),
    k counted from the left neighbour"""
    f = 2 ** (j - jp)
    return k * f, (k + 3) * f


def leaders_1(coefs, j, p_exp):
    """Leaders (p_exp inf) or uncorrected p-leaders at scale j, from the
    definition: sup (l^p sum) over every finer coefficient in 3 lambda"""
    n = len(coefs[j - 1])
    out = np.full(max(n - 2, 0), np.nan)
    for k in range(n - 2):
        best, tot, any_ = -np.inf, 0.0, False
        for jp in range(1, j + 1):
            a, b = leader_range(j, k, jp)
            seg = np.abs(coefs[jp - 1][a:b])
            seg = seg[~np.isnan(seg)]
            if len(seg) == 0:
                continue
            any_ = True
            if np.isinf(p_exp):
                best = max(best, seg.max())
            else:
                tot += 2.0 ** (jp - j) * (seg ** p_exp).sum()
        if any_:
            out[k] = best if np.isinf(p_exp) else tot ** (1.0 / p_exp)
    return out


def correction(eta, p_exp, j):
    """Finite resolution correction of p-leaders at scale j"""
    if eta <= 0:
        return 1.0
    return ((1 - 2.0 ** (-j * eta)) / (1 - 2.0 ** (-eta))) ** (-1.0 / p_exp)


class Transform:
    """coefs, leaders: scale -> (n_j, nrep); j2_eff; eta_p"""


def as2d(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def transform(x, p_exp=None, wt_name='db3', j1=1, j2=10, gamint=0.0,
              normalization=1, weighted=True):
    x = as2d(x).astype(float)
    n, R = x.shape
    levels = max_level(n, wt_name)
    cs = [coefs_1(x[:, r], wt_name, levels, normalization, gamint)
          for r in range(R)]
    t = Transform()
    t.coefs, t.leaders, t.eta_p = {}, None, None
    if p_exp is not None:
        t.leaders = {}
    last = levels
    for j in range(1, levels + 1):
        c = np.stack([cs[r][j - 1] for r in range(R)], axis=1)
        if (~np.isnan(c)).sum(axis=0).min() < 3:
            last = j - 1
            break
        t.coefs[j] = c
        if p_exp is None:
            continue
        ld = np.stack([leaders_1(cs[r], j, p_exp) for r in range(R)], axis=1)
        if (~np.isnan(ld)).sum(axis=0).min() < 3:
            last = j - 1
            break
        t.leaders[j] = ld
    t.levels = levels
    t.deepest = last
    t.j2_eff = int(min(last, j2)) if j2 is not None else last
    if p_exp is not None and not np.isinf(p_exp):
        t.eta_p = zeta(t.coefs, float(p_exp), j1, t.j2_eff, weighted)
        t.uncorrected = {j: v.copy() for j, v in t.leaders.items()}
        for j in t.leaders:
            fac = np.array([correction(e, p_exp, j) for e in t.eta_p])
            t.leaders[j] = t.leaders[j] * fac[None, :]
    return t


# -- estimators -------------------------------------------------------------

def counts(values):
    return {j: (~np.isnan(v)).sum(axis=0) for j, v in values.items()}


def regress(xs, ys, ws):
    """Weighted least squares of one series"""
    xs, ys, ws = (np.asarray(a, dtype=float) for a in (xs, ys, ws))
    W = ws.sum()
    xm, ym = (ws * xs).sum() / W, (ws * ys).sum() / W
    a = (ws * (xs - xm) * (ys - ym)).sum() / (ws * (xs - xm) ** 2).sum()
    return a, ym - a * xm


def fit(series, values, j1, j2, weighted):
    """series: scale -> (nrep,). Slope and intercept for each realisation"""
    n = counts(values)
    xs = np.arange(j1, j2 + 1)
    R = len(series[j1])
    out = np.zeros((2, R))
    for r in range(R):
        ws = [n[j][r] if weighted else 1.0 for j in xs]
        out[:, r] = regress(xs, [series[j][r] for j in xs], ws)
    return out


def columns(v):
    """Non-missing values of each realisation"""
    return [v[~np.isnan(v[:, r]), r] for r in range(v.shape[1])]


def power(a, q):
    return np.ones(len(a)) if q == 0 else np.abs(a) ** float(q)


def S(values, q):
    return {j: np.array([power(c, q).mean() for c in columns(v)])
            for j, v in values.items()}


def logS(values, q):
    return {j: np.log2(s) for j, s in S(values, q).items()}


def zeta(values, q, j1, j2, weighted):
    return fit(logS(values, q), values, j1, j2, weighted)[0]


def cumulants(values, n_cumul):
    """scale -> (n_cumul, nrep) cumulants of log|value|, from the moments"""
    out = {}
    for j, v in values.items():
        res = []
        for c in columns(v):
            lg = np.log(np.abs(c))
            res.append(cumulants_of(lg, n_cumul))
        out[j] = np.array(res).T.reshape(n_cumul, v.shape[1])
    return out


def cumulants_of(lg, n_cumul):
    """Cumulants through moments centred on the mean (shift invariance)"""
    m1 = lg.mean()
    d = lg - m1
    mu = [1.0, 0.0] + [(d ** m).mean() for m in range(2, n_cumul + 1)]
    k = [0.0, 0.0]
    for m in range(2, n_cumul + 1):
        k.append(mu[m] - sum(math.comb(m - 1, i - 1) * k[i] * mu[m - i]
                             for i in range(1, m)))
    return [m1] + k[2:]


LOG2E = math.log2(math.e)


def spectrum(values, q):
    """U(j,q), V(j,q): scale -> (nrep,)"""
    U, V = {}, {}
    for j, v in values.items():
        u, w = [], []
        for c in columns(v):
            a = np.abs(c)
            R = power(a, q)
            R = R / R.sum()
            # 0 log 0 = 0
            a, R, n = a[R != 0], R[R != 0], len(a)
            u.append(math.log2(n) + (R * np.log2(R)).sum())
            w.append((R * np.log2(a)).sum())
        U[j], V[j] = np.array(u), np.array(w)
    return U, V


def hmin(values, j1, j2, weighted):
    sup = {j: np.array([np.log2(np.abs(c).max()) for c in columns(v)])
           for j, v in values.items()}
    return fit(sup, values, j1, j2, weighted), sup


def stack(series, js):
    """scale -> (nrep,)  to (n_scales, nrep)"""
    return np.array([series[j] for j in js])
