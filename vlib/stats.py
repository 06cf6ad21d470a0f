"""Monitors of a law over recorded draws: every statistic is a z-score, compared with a limit of 7 (p < 3e-12 each)."""
import numpy as np
from scipy import special

LIMIT = 7.0


def zscore_mean(x, axis=0):
    """x: iid standard normal along axis 0 under the claim."""
    n = x.shape[0]
    return np.sqrt(n) * x.mean(axis=0)


def zscore_var(x):
    n = x.shape[0]
    return np.sqrt(n / 2.0) * ((x ** 2).mean(axis=0) - 1.0)


def zscore_cov(x, y):
    """x, y: (n, ...) independent standard normals under the claim; z of the mean product"""
    n = x.shape[0]
    return np.sqrt(n) * (x * y).mean(axis=0)


def zscore_kurt(x):
    n = x.shape[0]
    return np.sqrt(n / 96.0) * ((x ** 4).mean(axis=0) - 3.0)


def ks_normal(x):
    """sqrt(n) * Kolmogorov distance to the standard normal; P(> 4) ~ 2.5e-14, P(> 3.4) ~ 2e-10"""
    x = np.sort(np.ravel(x))
    n = len(x)
    u = special.ndtr(x)
    i = np.arange(1, n + 1)
    return float(np.sqrt(n) * max(np.max(i / n - u), np.max(u - (i - 1) / n)))


def standard_normal(mon, name, Z, key=None, lags=(1, 2, 3, 7), pairs=True):
    """Z: (runs, steps, coords), claimed iid N(0,1) over all three axes."""
    R, N, p = Z.shape
    flat = Z.reshape(R * N, p)
    kw = dict(key=key) if key else {}
    if not mon.finite(name + ":finite", Z, **kw):
        return
    mon.count("draws", flat.size)
    mon.bound(name + ":mean", np.abs(zscore_mean(flat)), LIMIT, **kw)
    mon.bound(name + ":variance", np.abs(zscore_var(flat)), LIMIT, **kw)
    if p > 1:
        mon.bound(name + ":pooled-variance", np.abs(zscore_var(flat.reshape(-1))), LIMIT, **kw)
        mon.bound(name + ":pooled-mean", np.abs(zscore_mean(flat.reshape(-1))), LIMIT, **kw)
    if flat.shape[0] >= 4000:
        mon.bound(name + ":kurtosis", np.abs(zscore_kurt(flat)), 2 * LIMIT, **kw)
    mon.bound(name + ":normality", ks_normal(flat), 4.0, **kw)
    n = flat.size
    for c, two_sided in ((2.0, .04550026389635842), (3.0, .0026997960632601866), (3.5, 4.652581580710498e-04), (4.0, 6.334248366623996e-05)):
        if n * two_sided >= 100:  # an (approximately normal) count; coordinates may not be exactly independent, hence the wider limit
            cnt = float(np.sum(np.abs(flat) > c))
            mon.bound(name + ":tail-counts", abs(cnt - n * two_sided) / np.sqrt(n * two_sided), LIMIT + 1, beyond=c, count=cnt, expected=n * two_sided, **kw)
    if n >= 20000:  # P(max |Z| < c) < 1e-11 under the claim
        mon.true(name + ":tail-reached", float(np.max(np.abs(flat))) > float(special.ndtri(1 - 12.5 / n)), largest=float(np.max(np.abs(flat))), **kw)
    if pairs and p > 1:
        for i in range(p):
            for j in range(i):
                mon.bound(name + ":coordinates-uncorrelated", abs(zscore_cov(flat[:, i], flat[:, j])), LIMIT, pair=[i, j], **kw)
                mon.bound(name + ":squares-uncorrelated", abs(zscore_cov(flat[:, i] ** 2 - 1, flat[:, j] ** 2 - 1)) / 2, 2 * LIMIT, pair=[i, j], **kw)
    for L in lags:
        if L < N and R * (N - L) >= 200:
            a, b = Z[:, :-L].reshape(-1, p), Z[:, L:].reshape(-1, p)
            for i in range(p):
                mon.bound(name + ":steps-uncorrelated", np.abs(zscore_cov(a, np.roll(b, i, axis=1))), LIMIT, lag=L, **kw)
    if R > 1:
        a, b = Z[:-1].reshape(-1, p), Z[1:].reshape(-1, p)
        if len(a) >= 200:
            mon.bound(name + ":runs-uncorrelated", np.abs(zscore_cov(a, b)), LIMIT, **kw)


def step_means(mon, name, Z, key=None):
    """per-step marginal: every step has mean 0 and variance 1 over the runs"""
    R, N, p = Z.shape
    kw = dict(key=key) if key else {}
    mon.bound(name + ":each-step-mean", np.abs(zscore_mean(Z)), LIMIT + 1, **kw)
    if R >= 1000:
        mon.bound(name + ":each-step-variance", np.abs(zscore_var(Z)), LIMIT + 3, **kw)


def distinct_rows(mon, name, rows, **kw):
    rows = np.ascontiguousarray(rows)
    n = len(rows)
    u = len(np.unique(rows, axis=0))
    mon.count("rows_compared", n)
    return mon.true(name, u == n, rows=n, distinct=u, **kw)
