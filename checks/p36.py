"""P36: forecast error measures against their definitions; generators against their law."""
import itertools
import warnings

import numpy as np

from vmon import gen
from vmon.core import W


def _err(T, P, kind, tsw, tw, multi):
    """Definition, one weighted sum at a time (no library helper)."""
    n, sz, d = T.shape
    tsw = [1.] * n if tsw is None else [float(v) for v in tsw]
    tw = [1.] * sz if tw is None else [float(v) for v in tw]
    per = []
    for k in range(d):
        num = den = 0.
        for i, t in itertools.product(range(n), range(sz)):
            e = abs(T[i, t, k] - P[i, t, k])
            num += tsw[i] * tw[t] * (e if kind == "mae" else e * e)
            den += tsw[i] * tw[t]
        per.append(num / den)
    if isinstance(multi, str):
        return np.array(per) if multi == "raw_values" else sum(per) / d
    w = [float(v) for v in multi]
    return sum(a * b for a, b in zip(w, per)) / sum(w)


def _weights(c, n):
    k = c.choice(["none", "none", "list", "array", "int", "zeros", "one-hot"])
    if k == "none":
        return None
    if k == "int":
        return [int(v) for v in c.rng.randint(1, 5, n)]
    w = c.rng.rand(n) + .1
    if k == "zeros":
        w[c.rng.rand(n) < .4] = 0.
        w[c.rng.randint(n)] = 1.
    if k == "one-hot":
        w = np.zeros(n)
        w[c.rng.randint(n)] = 2.
    if c.rng.rand() < .4:
        w = w * 10. ** int(c.rng.randint(-6, 7))     # only the proportions matter
    return w.tolist() if k == "list" else w


def _forms(c, A):
    k = c.choice(["array", "list", "flat", "fortran", "float32", "int"])
    if k == "list":
        return A.tolist()
    if k == "flat" and A.shape[2] == 1:
        return A[:, :, 0]
    if k == "fortran":
        return np.asfortranarray(A)
    return A


def errors(c):
    from tslearn.metrics import performance as pf
    n, sz, d = c.rng.randint(1, 6), c.rng.randint(1, 9), c.rng.randint(1, 4)
    scale = c.choice([1., 1., 1e-6, 1e6])
    T = c.rng.randn(n, sz, d) * scale
    P = T.copy() if c.rng.rand() < .15 else T + c.rng.randn(n, sz, d) * scale * c.choice([1., .01, 100.])
    if c.rng.rand() < .2:
        T, P = np.round(T / scale), np.round(P / scale)
    tsw, tw = _weights(c, n), _weights(c, sz)
    multi = c.choice(["uniform_average", "raw_values", "w", "w"])
    if multi == "w":
        multi = _weights(c, d)
        if multi is None:
            multi = np.ones(d)
    c.note(shape=[n, sz, d], tsw=None if tsw is None else list(tsw), tw=None if tw is None else list(tw),
           multi=multi if isinstance(multi, str) else list(multi))
    t0, p0 = T.copy(), P.copy()
    kw = dict(ts_weights=tsw, timestamps_weights=tw, multioutput=multi)
    for kind, fn in (("mae", pf.mae), ("mse", pf.mse)):
        want = _err(T, P, kind, tsw, tw, multi)
        got = fn(_forms(c, T), _forms(c, P), **kw)
        c.ok(np.shape(got) == np.shape(want), kind + " has the aggregated shape", got=np.shape(got))
        c.close(got, want, kind + " is its definition", rtol=1e-9, atol=1e-12 * np.max(np.abs(want)) + 1e-300)
        c.close(fn(P, T, **kw), got, kind + " is symmetric", rtol=1e-9, atol=1e-12 * np.max(np.abs(want)) + 1e-300)
        z = fn(T, T.copy(), **kw)
        c.ok(np.all(np.asarray(z) == 0), kind + " of a perfect forecast is zero", got=np.ravel(z).tolist())
        if isinstance(multi, str) and tsw is None and tw is None and not np.array_equal(T, P):
            c.ok(np.any(np.asarray(got) > 0), kind + " of another forecast is positive")
        c.event(kind)
    m = c.rng.randint(1, 4)
    R = c.rng.randn(c.rng.randint(1, 4), m + c.rng.randint(1, 12), d) * scale
    mae = _err(T, P, "mae", tsw, tw, multi)
    diffs = [[abs(R[i, t, k] - R[i, t - m, k]) for i in range(len(R)) for t in range(m, R.shape[1])]
             for k in range(d)]
    if isinstance(multi, str) and multi == "raw_values":
        s = np.array([np.mean(v) for v in diffs])
    else:
        s = np.mean(diffs)
    got = pf.mase(_forms(c, T), _forms(c, P), _forms(c, R), seasonal_period=m, **kw)
    c.ok(np.shape(got) == np.shape(mae / s), "mase has the aggregated shape", got=np.shape(got))
    c.close(got, mae / s, "mase is mae over the seasonal naive error", rtol=1e-9,
            atol=1e-12 * np.max(np.abs(mae / s)) + 1e-300)
    c.event("mase")
    # scaled data, same scaled error
    k = c.choice([3., -2., 1e-3])
    c.close(pf.mase(k * T, k * P, k * R, seasonal_period=m, **kw), got, "mase has no unit", rtol=1e-8,
            atol=1e-10 * np.max(np.abs(got)) + 1e-300)
    c.ok(np.array_equal(T, t0) and np.array_equal(P, p0), "inputs untouched")
    c.cover(n, sz, d, tsw is None, tw is None, isinstance(multi, str) and multi)


def mismatch(c):
    """Forecasts of another shape are refused, also when the number of values agrees."""
    from tslearn.metrics import performance as pf
    sh = [c.rng.randint(1, 5) for _ in range(3)]
    other = list(sh)
    how = c.choice(["permute", "grow", "refold"])
    if how == "permute":
        other = [sh[i] for i in c.rng.permutation(3)]
    elif how == "grow":
        other[c.rng.randint(3)] += 1
    else:
        other = c.choice([[sh[0], sh[1] * sh[2], 1], [sh[0] * sh[1], 1, sh[2]], [1, sh[0] * sh[1], sh[2]]])
    if other == sh:
        c.skip()
        return
    T, P = c.rng.randn(*sh), c.rng.randn(*other)
    c.note(true=sh, pred=other)
    for name in ("mae", "mse"):
        c.raises((ValueError,), lambda: getattr(pf, name)(T, P), "%s of %s and %s" % (name, sh, other))
    c.raises((ValueError,), lambda: pf.mase(T, P, c.rng.randn(2, 9, sh[2])), "mase of another shape")
    c.event("refused")
    for bad in (np.nan, np.inf):
        B = T.copy()
        B[0, 0, 0] = bad
        if B.shape[0] > 1 and B.shape[1] > 1:
            c.raises((ValueError,), lambda: pf.mae(T, B), "mae of a forecast with %r" % bad)


# ---------------------------------------------------------------- generators
def _gauss(c, z, what):
    """z should be standard normal draws: moments and Kolmogorov distance, 7-sigma bounds."""
    z = np.ravel(z)
    n = len(z)
    c.ok(abs(z.mean()) < 7 / np.sqrt(n), what + ": mean", got=z.mean(), n=n)
    c.ok(abs(z.var() - 1) < 7 * np.sqrt(2. / n), what + ": variance", got=z.var(), n=n)
    from scipy.stats import norm
    q = norm.cdf(np.sort(z))
    grid = np.arange(1, n + 1) / n
    ks = max(np.max(grid - q), np.max(q - grid + 1. / n))
    c.ok(ks < 4. / np.sqrt(n), what + ": distribution", ks=ks, n=n)


def _uncorrelated(c, a, b, what):
    a, b = np.ravel(a), np.ravel(b)
    r = np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std())
    c.ok(abs(r) < 7 / np.sqrt(len(a)), what, r=r, n=len(a))


def walks(c):
    from tslearn.generators import random_walks
    n, sz, d = c.choice([(40, 60, 2), (200, 12, 3), (3, 900, 1), (500, 5, 1), (1, 3000, 1)])
    mu, std = c.choice([0., 1., -3.]), c.choice([1., .1, 20.])
    seed = int(c.rng.randint(10 ** 6))
    c.note(shape=[n, sz, d], mu=mu, std=std, seed=seed)
    g = np.random.get_state()[1].copy(), np.random.get_state()[2]
    X = random_walks(n_ts=n, sz=sz, d=d, mu=mu, std=std, random_state=seed)
    g2 = np.random.get_state()
    c.ok(np.array_equal(g[0], g2[1]) and g[1] == g2[2], "a seeded generator leaves numpy's generator alone")
    c.ok(X.shape == (n, sz, d) and np.isfinite(X).all(), "finite values of the requested shape", got=X.shape)
    inc = np.concatenate([X[:, :1], np.diff(X, axis=1)], axis=1)
    z = (inc - mu) / std
    _gauss(c, z, "increments")
    _uncorrelated(c, z[:, 1:], z[:, :-1], "successive increments are independent")
    if n > 1:
        _uncorrelated(c, z[1:], z[:-1], "series are independent")
        _gauss(c, z[:, 0], "first values")
    if d > 1:
        _uncorrelated(c, z[..., 1:], z[..., :-1], "features are independent")
    c.equal(random_walks(n, sz, d, mu, std, random_state=seed), X, "same seed, same walks")
    c.equal(random_walks(n, sz, d, mu, std, random_state=np.random.RandomState(seed)), X, "generator object of that seed")
    c.ok(not np.array_equal(random_walks(n, sz, d, mu, std, random_state=seed + 1), X), "another seed, other walks")
    c.close(random_walks(n, sz, d, mu, 0., random_state=seed),
            np.broadcast_to(mu * np.arange(1, sz + 1)[None, :, None], (n, sz, d)), "std=0 is a straight line",
            rtol=1e-9, atol=1e-9)
    np.random.seed(seed % 1000)
    a, b = random_walks(2, 5, 1), random_walks(2, 5, 1)
    np.random.seed(seed % 1000)
    c.equal(random_walks(2, 5, 1), a, "without a seed numpy's generator is used")
    c.ok(not np.array_equal(a, b), "unseeded calls differ")
    rs = np.random.RandomState(seed)
    c.ok(not np.array_equal(random_walks(2, 5, 1, random_state=rs), random_walks(2, 5, 1, random_state=rs)),
         "a shared generator object advances")
    c.event("walks")
    c.cover("walk", n, sz, d, mu, std)


def blobs(c):
    from tslearn.generators import random_walk_blobs
    per, sz, d, nb = c.choice([(50, 30, 2, 3), (2, 200, 1, 6), (30, 10, 1, 30), (300, 6, 2, 2), (1, 40, 3, 40)])
    noise = c.choice([1., .05, 30.])
    seed = int(c.rng.randint(10 ** 6))
    c.note(per=per, sz=sz, d=d, blobs=nb, noise=noise, seed=seed)
    kw = dict(n_ts_per_blob=per, sz=sz, d=d, n_blobs=nb, random_state=seed)
    X, y = random_walk_blobs(noise_level=noise, **kw)
    c.ok(X.shape == (per * nb, sz, d) and np.isfinite(X).all(), "finite values of the requested shape", got=X.shape)
    c.ok(y.shape == (per * nb,) and sorted(set(y.tolist())) == list(range(nb))
         and all(np.sum(y == k) == per for k in range(nb)), "as many series of each label", got=np.bincount(y).tolist())
    B, yb = random_walk_blobs(noise_level=0., **kw)
    c.equal(yb, y, "labels do not depend on the noise")
    firsts = np.stack([B[yb == k][0] for k in range(nb)])
    c.ok(all(np.array_equal(B[yb == k], np.broadcast_to(firsts[k], (per, sz, d))) for k in range(nb)),
         "without noise the series of a blob are its seed series")
    z = np.concatenate([firsts[:, :1], np.diff(firsts, axis=1)], axis=1)
    if z.size >= 100:
        _gauss(c, z, "seed increments")
    e = (X - B) / noise      # same seed: the noise that was added
    if e.size >= 100:
        _gauss(c, e, "noise")
    _uncorrelated(c, e[:, 1:], e[:, :-1], "noise is white in time")
    if per > 1:
        w = np.stack([(X[y == k][0] - X[y == k][1]) for k in range(nb)]) / noise
        c.ok(np.abs(w).max() > 0, "series of a blob differ")
        _uncorrelated(c, e[1:], e[:-1], "noise is independent between series")
    X2, y2 = random_walk_blobs(noise_level=noise, **kw)
    c.ok(np.array_equal(X, X2) and np.array_equal(y, y2), "same seed, same blobs")
    c.event("blobs")
    c.cover("blob", per, sz, d, nb, noise)


def large(c):
    """Many or long forecasts; pooled errors computed by a vectorised oracle."""
    from tslearn.metrics import performance as pf
    n, sz, d = c.choice([(300, 9, 2), (3, 2500, 1), (40, 60, 12), (1500, 3, 1), (1, 1, 60)])
    off = c.choice([0., 0., 1e3, 1e6])
    T = c.rng.randn(n, sz, d) + off
    P = T + c.rng.randn(n, sz, d) * c.choice([1., .01])
    R = np.cumsum(c.rng.randn(int(c.choice([1, 200])), int(c.choice([30, 700])), d), 1) + off
    tsw, tw, multi = _weights(c, n), _weights(c, sz), c.choice(["uniform_average", "raw_values", "w"])
    if multi == "w":
        multi = c.rng.rand(d) + .1
    m = int(c.choice([1, 7, 12, 24]))
    c.note(shape=[n, sz, d], offset=off, multi=multi if isinstance(multi, str) else list(multi), m=m, R=R.shape)
    kw = dict(ts_weights=tsw, timestamps_weights=tw, multioutput=multi)
    a, b = np.ones(n) if tsw is None else np.asarray(tsw, float), np.ones(sz) if tw is None else np.asarray(tw, float)

    def agg(E):
        per = np.einsum("i,t,itk->k", a / a.sum(), b / b.sum(), E)
        if isinstance(multi, str):
            return per if multi == "raw_values" else per.mean()
        return float((per * multi).sum() / multi.sum())
    c.close(pf.mae(T, P, **kw), agg(np.abs(T - P)), "mae is its definition", rtol=1e-9, atol=1e-13)
    c.close(pf.mse(T, P, **kw), agg((T - P) ** 2), "mse is its definition", rtol=1e-9, atol=1e-13)
    sc = np.abs(R[:, m:] - R[:, :-m])
    sc = sc.mean((0, 1)) if isinstance(multi, str) and multi == "raw_values" else sc.mean()
    c.close(pf.mase(T, P, R, seasonal_period=m, **kw), agg(np.abs(T - P)) / sc, "mase is mae over the seasonal naive error", rtol=1e-9, atol=1e-13)
    c.cover("large", n, sz, d, off)


WORKLOADS = [W(large, 30), W(errors, 500), W(mismatch, 200), W(walks, 60), W(blobs, 60)]
META = dict(
    technique="runtime monitoring: definition oracle for the error measures, statistical and metamorphic monitors for the generators",
    rule="one violating call",
    note="error measures are recomputed term by term; generator laws are judged at 7 sigma",
    assumptions="the noise of random_walk_blobs is drawn after the seed walks from the same generator",
)
