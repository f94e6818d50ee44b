"""P17: scalers deliver the promised range or moments for every series."""
import warnings

import numpy as np

from vmon import gen
from vmon.core import W

warnings.simplefilter("ignore")


def _data(c, d=None, holes=None):
    d = d or gen.dim(c.rng, 4)
    u = c.rng.rand()      # now and then, many or long series
    ts = (gen.dataset(c.rng, int(c.rng.randint(60, 200)), 1, 15, d) if u < .02 else
          gen.dataset(c.rng, None, 1, 3000, d) if u < .04 else gen.dataset(c.rng, None, 1, 15, d))
    holes = c.rng.rand() < .35 if holes is None else holes
    for x in ts:
        if c.rng.rand() < .15:           # constants that do not sum exactly
            x[:] = c.choice([.1, .3, 1 / 3, -.7, 1e5 + .1, 2.2])
        elif c.rng.rand() < .15:
            x[:, c.rng.randint(d)] = c.choice([.1, -1.3, 7.])
        if holes and len(x) > 1:
            m = c.rng.rand(*x.shape) < .25
            m[-1] = False
            x[m] = np.nan
    if c.rng.rand() < .3:                # very small or very large units
        u = float(c.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e5, 1e9, 1e12]))
        for x in ts:
            x *= u
    return ts


def _form(c, ts):
    X = gen.pad(ts, int(c.choice([0, 0, 1, 3])))
    k = c.choice(["array", "fortran", "readonly", "list", "int", "f32"])
    if k == "fortran":
        return np.asfortranarray(X), k
    if k == "readonly":
        X.setflags(write=False)
    if k == "list":
        return X.tolist(), k
    if k == "int" and np.isfinite(X).all() and (X == np.round(X)).all() and np.abs(X).max() < 1e6:
        return X.astype(int), k
    return X, k


def _axis(per_ts, per_f):
    return (() if per_ts else (0,)) + (1,) + (() if per_f else (2,))


def _groups(X, per_ts, per_f):
    """Iterate over the index tuples of the blocks that share a scale."""
    n, _, d = X.shape
    for i in (range(n) if per_ts else [slice(None)]):
        for f in (range(d) if per_f else [slice(None)]):
            yield i, f


def _common(c, sc, X, Y, W_, what):
    c.ok(Y.shape == W_.shape, "%s: shape is that of the observed dataset" % what, got=Y.shape, want=W_.shape)
    c.ok(np.array_equal(np.isnan(Y), np.isnan(W_)), "%s: missing exactly where the input is" % what)
    c.ok(Y.dtype == np.float64, "%s: doubles" % what)


def _monotone(c, x, y, what):
    """y is a non-decreasing function of x on the block."""
    m = ~np.isnan(x)
    a, b = x[m], y[m]
    if len(a) > 1:
        o = np.argsort(a, kind="stable")
        a, b = a[o], b[o]
        c.ok(not (np.diff(b) < 0).any(), "%s: order preserved" % what, x=a, y=b)
        same = np.diff(a) == 0
        c.ok(not np.diff(b)[same].any(), "%s: equal values stay equal" % what)


def _watched(c, sc, X, what):
    B = np.array(X, dtype=float, copy=True)
    p = {k: v for k, v in sc.get_params().items()}
    Y = sc.fit_transform(X)
    c.ok(np.array_equal(np.array(X, dtype=float), B, equal_nan=True), "%s: caller's data untouched" % what)
    c.ok(sc.get_params() == p, "%s: parameters untouched" % what)
    if isinstance(X, np.ndarray):
        c.ok(not np.shares_memory(X, Y), "%s: result owns its memory" % what)
    Y2 = sc.transform(X)
    c.equal(Y2, Y, "%s: transform repeats fit_transform" % what)
    return Y


def minmax(c):
    from tslearn.preprocessing import TimeSeriesScalerMinMax
    ts = _data(c)
    W_ = gen.pad(ts)
    X, k = _form(c, ts)
    lo, hi = sorted([float(v) for v in c.rng.choice([-5., -1., 0., .25, 1., 2., 100.], 2, replace=False)])
    pt, pf = bool(c.rng.rand() < .6), bool(c.rng.rand() < .6)
    c.note(ts=ts, form=k, value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
    sc = TimeSeriesScalerMinMax(value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
    Y = _watched(c, sc, X, "min-max")
    _common(c, sc, X, Y, W_, "min-max")
    tol = 1e-12 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
    for i, f in _groups(W_, pt, pf):
        x, y = W_[i, :, f], Y[i, :, f]
        m = ~np.isnan(x)
        if not m.any():
            continue
        c.ok(abs(y[m].min() - lo) <= tol, "min-max: smallest value at the lower end", got=y[m].min(), want=lo)
        if x[m].max() > x[m].min():
            c.ok(abs(y[m].max() - hi) <= tol, "min-max: largest value at the upper end", got=y[m].max(), want=hi)
            e = lo + (hi - lo) * ((x - x[m].min()) / (x[m].max() - x[m].min()))
            c.close(y, e, "min-max: affine in between", rtol=1e-9, atol=1e3 * tol)
        else:
            c.ok((y[m] == lo).all(), "min-max: constant block at the lower end", got=y[m])
        _monotone(c, x, y, "min-max")
    _batch(c, sc, W_, Y, pt, "min-max")
    if not pt:
        _fresh(c, sc, W_, pf, "min-max", lambda x, T: lo + (hi - lo) * (x - np.nanmin(T)) / (
            (np.nanmax(T) - np.nanmin(T)) or 1.))
    a, b = (hi, lo) if c.rng.rand() < .5 else (lo, lo)
    c.raises((ValueError,), lambda: TimeSeriesScalerMinMax(value_range=(a, b)).fit_transform(X), "min-max: empty range refused")
    c.cover("mm", pt, pf, k, W_.shape[2], len(ts))


def meanvar(c):
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance
    ts = _data(c)
    W_ = gen.pad(ts)
    X, k = _form(c, ts)
    mu, std = float(c.choice([0., 0., -2., 3.5, 100.])), float(c.choice([1., 1., .5, 2., 30.]))
    pt, pf = bool(c.rng.rand() < .6), bool(c.rng.rand() < .6)
    c.note(ts=ts, form=k, mu=mu, std=std, per_timeseries=pt, per_feature=pf)
    sc = TimeSeriesScalerMeanVariance(mu=mu, std=std, per_timeseries=pt, per_feature=pf)
    Y = _watched(c, sc, X, "mean-variance")
    _common(c, sc, X, Y, W_, "mean-variance")
    for i, f in _groups(W_, pt, pf):
        x, y = W_[i, :, f], Y[i, :, f]
        m = ~np.isnan(x)
        if not m.any():
            continue
        s = np.std(x[m])
        rel = 1e-13 * np.abs(x[m]).max() * m.sum() / s if s else 0
        if x[m].max() == x[m].min():
            c.close(y[m], np.full(m.sum(), mu), "mean-variance: constant block at the requested mean", rtol=1e-9, atol=std * (1e-9 + 1e-14 * np.abs(x[m]).max()))
        elif rel < 1e-6:
            t = (1e-9 + rel) * (std + abs(mu))
            c.close(np.mean(y[m]), mu, "mean-variance: requested mean", rtol=0, atol=t)
            c.close(np.std(y[m]), std, "mean-variance: requested standard deviation", rtol=0, atol=t)
            c.close(y, (x - np.mean(x[m])) / s * std + mu, "mean-variance: affine", rtol=1e-8, atol=t * 10)
        _monotone(c, x, y, "mean-variance")
    _batch(c, sc, W_, Y, pt, "mean-variance")
    if not pt:
        def f(x, T):
            s = np.nanstd(T) if np.nanmax(T) > np.nanmin(T) else 1.
            return (x - np.nanmean(T)) / s * std + mu
        _fresh(c, sc, W_, pf, "mean-variance", f)
    c.cover("mv", pt, pf, k, W_.shape[2], len(ts))


def _batch(c, sc, W_, Y, pt, what):
    """Rows transformed alone, permuted, with more padding."""
    i = int(c.rng.randint(len(W_)))
    one = sc.transform(W_[i:i + 1])
    c.equal(np.isnan(one), np.isnan(Y[i:i + 1, :one.shape[1]]), "%s: a series alone, missing values" % what)
    c.close(one, Y[i:i + 1, :one.shape[1]], "%s: a series scaled alone" % what, rtol=1e-9, atol=1e-9)
    p = c.rng.permutation(len(W_))
    c.close(sc.transform(W_[p]), Y[p], "%s: permuted batch" % what, rtol=1e-9, atol=1e-9)
    wide = np.concatenate([W_, np.full((len(W_), 2, W_.shape[2]), np.nan)], axis=1)
    c.equal(sc.transform(wide), Y, "%s: more padding" % what)
    fresh = type(sc)(**sc.get_params()).fit(wide).transform(wide)
    c.equal(fresh, Y, "%s: fitted with more padding" % what)
    bad = np.zeros((2, 3, W_.shape[2] + 1))
    c.raises((ValueError,), lambda: sc.transform(bad), "%s: other feature counts refused" % what)
    if pt:      # stateless: the data seen when fitting does not matter
        other = type(sc)(**sc.get_params()).fit(np.arange(4. * W_.shape[2]).reshape(2, 2, -1))
        c.equal(other.transform(W_), Y, "%s: per series, whatever the fitted data" % what)


def _fresh(c, sc, W_, pf, what, f):
    """Data-set wide statistics come from the fitted data alone."""
    N = gen.pad(gen.dataset(c.rng, 2, 1, 6, W_.shape[2]))
    got = sc.transform(N)
    want = np.full(N.shape, np.nan)
    for j in range(N.shape[2]):
        T = W_[:, :, j] if pf else W_
        if np.isnan(T).all():
            return
        want[:, :, j] = f(N[:, :, j], T)
        s = np.nanmax(np.abs(T)) / (np.nanstd(T) or 1)
        if s > 1e5 and np.nanstd(T) > 0:
            return
    c.close(got, want, "%s: new data on the fitted scale" % what, rtol=1e-7, atol=1e-7)


WORKLOADS = [W(minmax, 900), W(meanvar, 900)]
META = dict(
    technique="runtime monitoring: range, moment, order and missing-value monitors on every scaled block",
    rule="datasets (holes, constants, offsets, padding, containers), targets and sharing options drawn per case",
    note="Every block that shares a scale (series, feature, dataset) is checked against the definition; rows are "
         "re-transformed alone, permuted and with more padding.",
    assumptions=["moments are asserted when the block's spread exceeds 1e-7 of its magnitude"])
