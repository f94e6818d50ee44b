"""P18: resampling and imputation respect the observed values."""
import warnings

import numpy as np

from vmon import gen
from vmon.core import W

warnings.simplefilter("ignore")


def _form(c, ts):
    k = c.choice(["array", "padded", "fortran", "list", "mixed", "readonly"])
    X = gen.pad(ts, int(c.rng.randint(1, 4)) if k == "padded" else 0)
    if k == "fortran":
        X = np.asfortranarray(X)
    if k == "readonly":
        X.setflags(write=False)
    if k == "list":
        X = [x.tolist() for x in ts]
    if k == "mixed":
        X = [x.copy() for x in ts]
    return X, k


def _keep(X):
    return [np.array(x, dtype=float) for x in X]


def _untouched(c, X, B, what):
    c.ok(all(np.array_equal(np.array(x, dtype=float), b, equal_nan=True) for x, b in zip(X, B)),
         "%s leaves the caller's data alone" % what)


def lerp(x, n):
    """Linear interpolation of x at n evenly spaced positions, from scratch."""
    L = len(x)
    out = np.empty((n, x.shape[1]))
    for k in range(n):
        p = 0. if n == 1 else k * (L - 1) / (n - 1)
        i = min(int(np.floor(p)), L - 1)
        j = min(i + 1, L - 1)
        out[k] = x[i] + (p - i) * (x[j] - x[i])
    return out


def resample(c):
    from tslearn.preprocessing import TimeSeriesResampler
    d = gen.dim(c.rng, 3)
    u = c.rng.rand()      # now and then, many or long series
    ts = gen.dataset(c.rng, int(c.rng.randint(60, 200)) if u < .02 else None, 1, 400 if .02 < u < .05 else 15, d)
    X, k = _form(c, ts)
    B = _keep(X)
    m = max(map(len, ts))
    sz = int(c.choice([2, 3, 5, m, max(2, m - 1), m + 1, 2 * m, 3 * m + 1, -1, 0, 1, 40]))
    c.note(ts=ts, form=k, sz=sz)
    r = TimeSeriesResampler(sz=sz)
    Y = r.fit_transform(X)
    _untouched(c, X, B, "resampling")
    n = sz if sz > 0 else m
    c.ok(Y.shape == (len(ts), n, d), "resampling: requested size", got=Y.shape)
    scale = max(1., max(np.abs(x).max() for x in ts))
    for i, x in enumerate(ts):
        if n == 1:
            c.close(Y[i, 0], x.mean(axis=0), "resampling to one value: the average", rtol=1e-9, atol=1e-9 * scale)
            continue
        c.close(Y[i], lerp(x, n), "resampling: linear interpolation at even positions", rtol=1e-9, atol=1e-9 * scale, series=i)
        c.ok((Y[i, 0] == x[0]).all() and (Y[i, -1] == x[-1]).all(), "resampling keeps the end points", got=Y[i, [0, -1]])
        c.ok((Y[i].max(0) <= x.max(0) + 1e-12 * scale).all() and (Y[i].min(0) >= x.min(0) - 1e-12 * scale).all(),
             "resampling stays in the observed range")
        if n == len(x):
            c.close(Y[i], x, "resampling to the same size is the identity", rtol=1e-12, atol=1e-12 * scale)
    i = int(c.rng.randint(len(ts)))
    if sz > 0:
        c.close(r.transform([ts[i]]), Y[i:i + 1], "resampling: a series alone", rtol=1e-12, atol=1e-12 * scale)
    p = c.rng.permutation(len(ts))
    c.close(r.transform([ts[q] for q in p]), Y[p], "resampling: permuted batch", rtol=1e-12, atol=1e-12 * scale)
    c.close(r.transform(gen.pad(ts, 3)), Y, "resampling: more padding", rtol=1e-12, atol=1e-12 * scale)
    c.raises((ValueError,), lambda: r.transform(np.zeros((1, 4, d + 1))), "resampling: other feature counts refused")
    c.cover("rs", n - m, len(ts), d, k, len({len(x) for x in ts}))


METHODS = ["mean", "median", "ffill", "bfill", "linear", "constant"]


def fill(method, x, value):
    """Reference imputation of one series (sz, d), value by value."""
    out = x.copy()
    for f in range(x.shape[1]):
        obs = [(t, x[t, f]) for t in range(len(x)) if not np.isnan(x[t, f])]
        v = sorted(o[1] for o in obs)
        for t in range(len(x)):
            if not np.isnan(x[t, f]):
                continue
            if method == "constant":
                out[t, f] = value
            elif not obs:
                pass
            elif method == "mean":
                out[t, f] = sum(v) / len(v)
            elif method == "median":
                h = len(v) // 2
                out[t, f] = v[h] if len(v) % 2 else (v[h - 1] + v[h]) / 2
            elif method == "ffill":
                b = [o[1] for o in obs if o[0] < t]
                if b:
                    out[t, f] = b[-1]
            elif method == "bfill":
                b = [o[1] for o in obs if o[0] > t]
                if b:
                    out[t, f] = b[0]
            elif method == "linear":
                b, a = [o for o in obs if o[0] < t], [o for o in obs if o[0] > t]
                if not b:
                    out[t, f] = a[0][1]
                elif not a:
                    out[t, f] = b[-1][1]
                else:
                    (t0, v0), (t1, v1) = b[-1], a[0]
                    out[t, f] = v0 + (v1 - v0) * (t - t0) / (t1 - t0)
    return out


def _holes(c, ts):
    """Punch holes: interior, leading, trailing in a feature, whole rows, whole features."""
    for x in ts:
        k = c.choice(["none", "sprinkle", "sprinkle", "sprinkle", "lead", "tail", "rows", "feature", "most"])
        if k == "sprinkle":
            x[c.rng.rand(*x.shape) < c.rng.rand() * .7] = np.nan
        elif k == "lead":
            x[:c.rng.randint(len(x)), c.rng.randint(x.shape[1])] = np.nan
        elif k == "tail" and x.shape[1] > 1:
            x[c.rng.randint(len(x)):, c.rng.randint(x.shape[1])] = np.nan
        elif k == "rows":
            x[c.rng.rand(len(x)) < .4] = np.nan
        elif k == "feature" and x.shape[1] > 1:
            x[:, c.rng.randint(x.shape[1])] = np.nan
        elif k == "most":
            x[c.rng.rand(*x.shape) < .9] = np.nan
        if np.isnan(x[-1]).all():
            x[-1, c.rng.randint(x.shape[1])] = c.choice([1.5, -2., 0.])


def impute(c):
    from tslearn.preprocessing import TimeSeriesImputer
    d = gen.dim(c.rng, 3)
    ts = gen.dataset(c.rng, None, 1, 12, d)
    _holes(c, ts)
    X, k = _form(c, ts)
    B = _keep(X)
    method = c.choice(METHODS + ["callable"])
    keep = bool(c.rng.rand() < .6)
    value = float(c.choice([0., -7.25, 1e9]))
    c.note(ts=ts, form=k, method=method, keep_trailing_nans=keep, value=value)
    seen = []
    if method == "callable":
        def m(a):
            seen.append(np.array(a))
            return np.where(np.isnan(a), 77., a)
        im = TimeSeriesImputer(m, keep_trailing_nans=keep)
    elif method == "constant":
        im = TimeSeriesImputer(method, value=value, keep_trailing_nans=keep)
    else:
        im = TimeSeriesImputer(method, keep_trailing_nans=keep)
    Y = im.fit_transform(X)
    _untouched(c, X, B, "imputation")
    W_ = gen.pad(ts)
    ref_m, ref_v = ("constant", 77.) if method == "callable" else (method, value)
    want = np.full(W_.shape, np.nan)
    for i, x in enumerate(ts):
        if keep:
            want[i, :len(x)] = fill(ref_m, x, ref_v)
        else:
            want[i] = fill(ref_m, W_[i], ref_v)
    c.close(Y, want, "imputation by the chosen rule", rtol=1e-9, atol=1e-9, method=method)
    if Y.shape == W_.shape:
        m = ~np.isnan(W_)
        c.ok((Y[m] == W_[m]).all(), "imputation never alters an observed value", method=method)
        if keep:
            c.ok(all(np.isnan(Y[i, len(x):]).all() for i, x in enumerate(ts)), "imputation keeps trailing padding")
    if method == "callable":
        c.ok(len(seen) == len(ts), "callable: called once per series", calls=len(seen))
        for s, x, w in zip(seen, ts, W_):
            c.equal(s, x if keep else w, "callable: given the series")
    i = int(c.rng.randint(len(ts)))
    if keep:
        one = im.transform([ts[i]])
        c.close(one[0], Y[i, :len(ts[i])], "imputation: a series alone", rtol=1e-12, atol=1e-12)
    p = c.rng.permutation(len(ts))
    c.close(im.transform([ts[q] for q in p]), Y[p], "imputation: permuted batch", rtol=1e-12, atol=1e-12)
    c.close(im.transform(gen.pad(ts, 2)), Y, "imputation: more padding", rtol=1e-12, atol=1e-12)
    c.raises((ValueError,), lambda: im.transform(np.zeros((1, 4, d + 1))), "imputation: other feature counts refused")
    if c.rng.rand() < .1:
        c.raises((ValueError,), lambda: TimeSeriesImputer("nope").fit(X).transform(X), "unknown method refused")
    c.cover("im", method, keep, d, len(ts), k)


WORKLOADS = [W(resample, 900), W(impute, 1500)]
META = dict(
    technique="runtime monitoring: value-by-value reference interpolation and imputation on generated hole patterns",
    rule="datasets, sizes, hole patterns (interior, leading, trailing, rows, features), methods and containers drawn per case",
    note="The oracle fills and interpolates value by value with explicit neighbours; the callable imputer records what it is given.",
    assumptions=["every series has an observed value; resampled series have no interior hole"])
