"""P19: feature synchronisation interpolates onto the reference feature's time axis."""
import warnings

import numpy as np

from vmon import gen
from vmon.core import W

warnings.simplefilter("ignore")


def _interp(q, t, v):
    """Piecewise linear through (t, v), constant outside, from scratch."""
    out = []
    for x in q:
        if x <= t[0]:
            out.append(v[0])
        elif x >= t[-1]:
            out.append(v[-1])
        else:
            k = max(i for i in range(len(t)) if t[i] <= x)
            if t[k] == x:
                out.append(v[k])
            else:
                out.append(v[k] + (v[k + 1] - v[k]) * (x - t[k]) / (t[k + 1] - t[k]))
    return np.array(out)


def _make(c, d, n):
    """Lists [series][feature] of values, of different lengths."""
    out = []
    top = 12 if c.rng.rand() > .04 else 150
    for _ in range(n):
        eq = c.rng.rand() < .25
        L = gen.length(c.rng, 1, top)
        out.append([gen.values(c.rng, L if eq else gen.length(c.rng, 1, top), 1)[:, 0] for _ in range(d)])
    return out


def _pad(feats, extra=0, sz=None):
    sz = sz or max(len(v) for s in feats for v in s) + extra
    X = np.full((len(feats), sz, len(feats[0])), np.nan)
    for i, s in enumerate(feats):
        for f, v in enumerate(s):
            X[i, :len(v), f] = v
    return X


def _stamps(c, feats):
    """Increasing time stamps per feature (days), sometimes shared, sometimes
    disjoint from the reference's."""
    out = []
    for s in feats:
        mode = c.choice(["shared", "free", "free", "disjoint", "fine"])
        base = np.sort(c.rng.permutation(40 if max(map(len, s)) <= 12 else 400)[:max(12, *map(len, s))])
        row = []
        for f, v in enumerate(s):
            if mode == "shared":
                t = base[:len(v)]
            elif mode == "disjoint":
                t = 1000 * f + np.arange(len(v))
            elif mode == "fine":
                t = np.cumsum(1 + c.rng.randint(0, 3, size=len(v)))
            else:
                t = np.sort(c.rng.permutation(30 if len(v) <= 12 else 400)[:len(v)])
            row.append(np.asarray(t, dtype=float))
        out.append(row)
    return out


def _dates(T):
    # half-day resolution
    D = np.full(T.shape, np.datetime64("nat"), dtype="datetime64[h]")
    m = ~np.isnan(T)
    D[m] = np.datetime64("2024-02-25", "h") + (T[m] * 24).astype("timedelta64[h]")
    return D


def synchronise(c):
    from tslearn.preprocessing import TimeSeriesFeatureSynchronizer
    d, n = int(c.rng.randint(1, 5)), int(c.rng.randint(1, 6))
    F = _make(c, d, n)
    r = int(c.rng.randint(-d, d)) if c.rng.rand() < .7 else 0
    kind = c.choice(["none", "none", "dates", "dates", "dates-ns", "list"])
    X = _pad(F, int(c.choice([0, 0, 2])))
    TS = _stamps(c, F)
    T = None
    if kind.startswith("dates"):
        T = _dates(_pad(TS, sz=X.shape[1]))
        if kind == "dates-ns":
            T = T.astype("datetime64[ns]")
    Xin = X.copy()
    if kind == "list":
        Xin = X.tolist()
    elif c.rng.rand() < .3:
        Xin = np.asfortranarray(X)
    T0 = None if T is None else T.copy()
    c.note(features=[[v.tolist() for v in s] for s in F], reference=r, stamps=kind,
           times=None if T is None else [[t.tolist() for t in s] for s in TS])
    s = TimeSeriesFeatureSynchronizer(reference_feature_index=r)
    Y = s.fit_transform(Xin, timestamps=T) if T is not None or c.rng.rand() < .5 else s.fit(Xin).transform(Xin)
    c.ok(np.array_equal(np.array(Xin, dtype=float), X, equal_nan=True), "synchronising leaves the caller's data alone")
    if T is not None:
        c.ok(T.dtype == T0.dtype and np.array_equal(T, T0, equal_nan=True), "synchronising leaves the time stamps alone")
    R = max(len(f[r]) for f in F)
    want = np.full((n, R, d), np.nan)
    for i in range(n):
        m = len(F[i][r])
        q = TS[i][r] if T is not None else np.linspace(0, 1, m)
        for f in range(d):
            t = TS[i][f] if T is not None else np.linspace(0, 1, len(F[i][f]))
            want[i, :m, f] = _interp(q, t, F[i][f])
    scale = max(1., np.nanmax(np.abs(X)))
    if not c.close(Y, want, "features interpolated on the reference's axis", rtol=1e-9, atol=1e-9 * scale):
        c.stop()
    for i in range(n):
        m = len(F[i][r])
        c.ok((Y[i, :m, r] == F[i][r]).all(), "the reference feature is unchanged", got=Y[i, :, r], want=F[i][r])
        c.ok(np.isnan(Y[i, m:]).all() and not np.isnan(Y[i, :m]).any(), "missing exactly beyond the reference")
    # independence of the series
    i = int(c.rng.randint(n))
    kw = {} if T is None else {"timestamps": T[i:i + 1]}
    m = len(F[i][r])
    c.equal(s.transform(X[i:i + 1], **kw)[0, :m], Y[i, :m], "a series synchronised alone")
    p = c.rng.permutation(n)
    kw = {} if T is None else {"timestamps": T[p]}
    c.equal(s.transform(X[p], **kw), Y[p], "permuted batch")
    if T is not None:     # only the order and spacing of the time stamps matter
        c.close(s.transform(X, timestamps=T + np.timedelta64(c.choice([24, -48, 24 * 365]), "h")), Y, "shifted time stamps",
                rtol=1e-7, atol=1e-7 * scale)
    c.cover(kind, d, n, r, tuple(len(f[r]) for f in F)[:3])


def refusals(c):
    from tslearn.preprocessing import TimeSeriesFeatureSynchronizer
    d, n = int(c.rng.randint(1, 4)), int(c.rng.randint(1, 4))
    F = [[gen.values(c.rng, int(c.rng.randint(2, 7)), 1)[:, 0] for _ in range(d)] for _ in range(n)]
    X = _pad(F)
    TS = _stamps(c, F)
    i, f = int(c.rng.randint(n)), int(c.rng.randint(d))
    how = c.choice(["swap", "equal", "reverse"])
    t = TS[i][f]
    j = int(c.rng.randint(1, len(t)))
    if how == "swap":
        t[[j - 1, j]] = t[[j, j - 1]]
    elif how == "equal":
        t[j] = t[j - 1]
    else:
        TS[i][f] = t[::-1].copy()
    c.note(times=[[u.tolist() for u in s] for s in TS], bad=(i, f, how))
    s = TimeSeriesFeatureSynchronizer(int(c.rng.randint(d))).fit(X)
    c.raises((ValueError,), lambda: s.transform(X, timestamps=_dates(_pad(TS, sz=X.shape[1]))), "non-increasing time stamps refused")
    good = _dates(_pad([[np.arange(len(v)) for v in s_] for s_ in F], sz=X.shape[1]))
    bad = c.choice([good[:-1] if n > 1 else np.concatenate([good, good]), good[:, :-1] if X.shape[1] > 1 else good,
                    np.concatenate([good, good], axis=2)])
    if bad.shape != good.shape:
        c.raises((ValueError,), lambda: s.transform(X, timestamps=bad), "mismatched time stamps refused", shape=bad.shape)
    c.raises((ValueError,), lambda: s.transform(np.zeros((1, 3, d + 1))), "other feature counts refused")
    c.ok(s.transform(X, timestamps=good).shape[0] == n, "a refusal leaves the synchroniser usable")
    c.cover("bad", how, d, n)


WORKLOADS = [W(synchronise, 1200), W(refusals, 400)]
META = dict(
    technique="runtime monitoring: from-scratch interpolation oracle per series and feature, refusal and independence monitors",
    rule="datasets of features of different lengths, references, and date stamps (shared, free, disjoint) drawn per case",
    note="The oracle interpolates point by point from the un-padded features the dataset was made of.",
    assumptions=["features are observed up to their own length; every feature has an observed value"])
