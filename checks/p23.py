"""P23: shape-based distance and k-shape are consistent."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import scale_of


def ncc(x, y):
    """Normalised cross-correlation at lags -(sz-1) .. sz-1, from its definition."""
    n = len(x)
    den = np.linalg.norm(x) * np.linalg.norm(y)
    out = []
    for lag in range(-(n - 1), n):
        s = 0.
        for t in range(n):
            if 0 <= t + lag < n:
                s += float(np.dot(x[t + lag], y[t]))
        out.append(s)
    return np.array(out) / den if den >= 1e-9 else np.zeros(2 * n - 1)


def sbd(x, y):
    return 1. - ncc(x, y).max()


def zn(x):
    m, s = x.mean(0), x.std(0)
    return (x - m) / np.where(s < 1e-12, 1., s)


def ncc_def(c):
    from tslearn.metrics.cycc import normalized_cc
    x, y = gen.pair(c.rng, 1, 20, same_len=True)
    c.note(s1=x, s2=y)
    want = ncc(x, y)
    if np.linalg.norm(x) * np.linalg.norm(y) < 1e-8:
        c.skip()
    got = normalized_cc(x, y)
    c.close(got, want, "cross-correlation at every lag is the one of its definition", rtol=1e-9, atol=1e-9)
    n1, n2 = float(np.linalg.norm(x)), float(np.linalg.norm(y))
    c.close(normalized_cc(x, y, norm1=n1, norm2=n2), want, "given norms change nothing", rtol=1e-9, atol=1e-9)
    c.close(normalized_cc(y, x)[::-1], want, "swapping the series mirrors the lags", rtol=1e-9, atol=1e-9)
    c.ok(got.shape == (2 * len(x) - 1,) and np.all(np.abs(got) <= 1 + 1e-9), "one value in [-1, 1] per lag", got=got)
    a = float(c.choice([.01, 3., 100.]))
    if a * n1 * n1 > 1e-8:
        c.close(1 - normalized_cc(x, a * x).max(), 0., "a scaled copy is at distance zero", atol=1e-9)
    c.close(normalized_cc(np.zeros_like(x), y), 0 * want, "a zero series correlates with nothing", atol=0)
    c.cover(len(x), x.shape[1], int(np.argmax(want)) - len(x) + 1)


def cdist(c):
    from tslearn.metrics import cdist_normalized_cc
    d, n = gen.dim(c.rng, 3), gen.length(c.rng, 1, 16)
    A = [gen.values(c.rng, n, d, c.choice(["gauss", "walk", "sine", "spikes"])) for _ in range(int(c.rng.randint(1, 6)))]
    B = [gen.values(c.rng, n, d, c.choice(["gauss", "walk", "sine"])) for _ in range(int(c.rng.randint(1, 8)))]
    XA, XB = np.array(A), np.array(B)
    c.note(dataset1=XA, dataset2=XB)
    nA, nB = np.linalg.norm(XA, axis=(1, 2)), np.linalg.norm(XB, axis=(1, 2))
    want = np.array([[ncc(x, y).max() for y in B] for x in A])
    c.close(cdist_normalized_cc(XA, XB, nA.copy(), nB.copy(), False), want, "largest cross-correlation of each pair", rtol=1e-9, atol=1e-9)
    c.close(cdist_normalized_cc(XA, XB, -np.ones(len(A)), -np.ones(len(B)), False), want, "norms are computed when not given", rtol=1e-9, atol=1e-9)
    S = cdist_normalized_cc(XA, XA, nA.copy(), nA.copy(), True)
    off = ~np.eye(len(A), dtype=bool)
    ws = np.array([[ncc(x, y).max() for y in A] for x in A])
    c.close(S[off], ws[off], "largest cross-correlation of each pair of one dataset", rtol=1e-9, atol=1e-9)
    D = 1 - want
    c.ok((D >= -1e-9).all() and (D <= 2 + 1e-9).all(), "shape-based distances lie in [0, 2]")
    c.cover(len(A), len(B), n, d)


def shifted(c):
    from tslearn.metrics import y_shifted_sbd_vec
    d, n = gen.dim(c.rng, 3), gen.length(c.rng, 1, 16)
    r = gen.values(c.rng, n, d, c.choice(["gauss", "walk"]))
    X = []
    for _ in range(int(c.rng.randint(1, 6))):
        if c.rng.rand() < .5:
            k = int(c.rng.randint(-n // 2, n // 2 + 1))
            y = np.zeros_like(r)
            if k >= 0:
                y[k:] = r[:n - k]
            else:
                y[:k] = r[-k:]
            if not y.any():
                y = r.copy()
            X.append(y)
        else:
            X.append(gen.values(c.rng, n, d, "gauss"))
    X = np.array(X)
    c.note(reference=r, dataset=X)
    nr, nX = (float(np.linalg.norm(r)), np.linalg.norm(X, axis=(1, 2))) if c.rng.rand() < .5 else (-1., -np.ones(len(X)))
    got = y_shifted_sbd_vec(r, X, nr, nX)
    for x, g in zip(X, got):
        cc = ncc(r, x)
        cands = []
        for i in np.nonzero(cc >= cc.max() - 1e-9)[0]:
            k = i - n + 1
            w = np.zeros_like(x)
            for t in range(n):
                if 0 <= t - k < n:
                    w[t] = x[t - k]
            cands.append(w)
        c.event("series aligned")
        c.ok(any(np.array_equal(g, w) for w in cands), "series are shifted by their best lag, filled with zeros", got=g, wanted=cands[0], series=x)
    c.cover(n, d, len(X))


def _data(c, n=None, sz=None, d=None):
    n, d = n or int(c.rng.randint(5, 14)), d or gen.dim(c.rng, 2)
    sz = sz or int(c.rng.randint(4, 14))
    protos = [gen.values(c.rng, sz, d, k) for k in ("walk", "gauss", "sine")]
    X = []
    for i in range(n):
        x = protos[i % 3] if c.rng.rand() < .7 else gen.values(c.rng, sz, d, c.choice(["walk", "gauss"]))
        x = np.roll(x, int(c.rng.randint(0, 3)), axis=0) + .3 * c.rng.randn(sz, d)
        X.append(zn(x))
    return np.array(X)


def _judge(c, ks, X):
    lab, cen = to_np(ks.labels_), to_np(ks.cluster_centers_)
    c.ok(set(lab.tolist()) == set(range(ks.n_clusters)), "labels are the clusters, none of them empty", labels=lab)
    c.ok(cen.shape == (ks.n_clusters,) + X.shape[1:] and np.isfinite(cen).all(), "centroids are proper series of the training length")
    D = np.array([[sbd(x, y) for y in cen] for x in X])
    c.ok((D[np.arange(len(X)), lab] <= D.min(1) + 1e-7).all(), "labels are the nearest returned centroids", labels=lab, distances=D)
    c.close(ks.inertia_, np.mean(D[np.arange(len(X)), lab] ** 2), "inertia is the one of the returned labels and centroids", rtol=1e-6, atol=1e-9)
    p = to_np(ks.predict(X))
    c.ok((D[np.arange(len(X)), p] <= D.min(1) + 1e-7).all(), "training predictions are the nearest centroids")
    tied = np.sort(D, 1)[:, :2]
    clear = np.ones(len(X), bool) if ks.n_clusters == 1 else tied[:, 1] - tied[:, 0] > 1e-7
    c.equal(p[clear], lab[clear], "predicting the training set repeats the labels")
    c.ok(1 <= ks.n_iter_ <= ks.max_iter, "number of iterations within its limit", n_iter=ks.n_iter_)
    return D


def _fit(c, X, **kw):
    from tslearn.clustering import KShape
    par = dict(n_clusters=int(c.rng.randint(1, 4)), max_iter=int(c.choice([1, 2, 5, 30])), n_init=int(c.choice([1, 2])),
               random_state=int(c.rng.randint(1000)))
    par.update(kw)
    c.note(params={k: v for k, v in par.items() if not isinstance(v, np.ndarray)}, X=X)
    ks = KShape(**par).fit(X)
    if getattr(ks, "_X_fit", 0) is None:
        c.event("no clustering without an empty cluster was found")
        c.skip()
    c.event("clusterings observed")
    return ks


def _fit_predict(c, ks, X):
    """fit_predict, talkative or not, gives the labels of fit."""
    import contextlib
    import io
    from sklearn.base import clone
    other = clone(ks).set_params(verbose=bool(c.rng.randint(0, 2)))
    with contextlib.redirect_stdout(io.StringIO()):
        lab = to_np(other.fit_predict(X))
    c.equal(lab, ks.labels_, "fit_predict gives the labels of fit")
    c.equal(other.labels_, ks.labels_, "fit_predict leaves the model of fit")
    c.close(other.cluster_centers_, ks.cluster_centers_, "fit_predict leaves the model of fit", rtol=1e-9, atol=1e-9)


def kshape(c):
    X = _data(c)
    ks = _fit(c, X)
    D = _judge(c, ks, X)
    if c.rng.rand() < .4:
        _fit_predict(c, ks, X)
    # predictions on other series: any batch size, any scale, one by one or not
    Y = _data(c, n=int(c.choice([1, 2, 20])), sz=X.shape[1], d=X.shape[2])
    DY = np.array([[sbd(x, y) for y in ks.cluster_centers_] for x in Y])
    p = to_np(ks.predict(Y))
    c.ok((DY[np.arange(len(Y)), p] <= DY.min(1) + 1e-7).all(), "new series are given their nearest centroid", predicted=p, distances=DY)
    S = np.sort(DY, 1)
    clear = np.ones(len(Y), bool) if ks.n_clusters == 1 else S[:, 1] - S[:, 0] > 1e-6
    one = np.array([int(ks.predict(y[None])[0]) for y in Y])
    c.equal(one[clear], p[clear], "a series alone gets the label it gets in a batch")
    c.equal(to_np(ks.predict(Y * 7.5 + 3.))[clear], p[clear], "scale and offset of a series do not change its label")
    perm = c.rng.permutation(len(Y))
    c.equal(to_np(ks.predict(Y[perm]))[clear[perm]], p[perm][clear[perm]], "permuting the batch permutes the labels")
    c.cover(ks.n_clusters, ks.n_iter_, X.shape, tuple(np.bincount(ks.labels_)), len(Y))


def descent(c):
    X = _data(c)
    k = int(c.rng.randint(2, 4))
    init = X[c.rng.choice(len(X), k, replace=False)]
    u = c.rng.rand()
    if u < .3:
        init = np.round(2 * init).astype(int)
        init[:, 0] += 1
    elif u < .5:
        init = init + .3 * c.rng.randn(*init.shape)
    c.note(init=init)
    keep = init.copy()
    last, seen = None, 0
    for t in (1, 2, 3, 4, 8):
        from tslearn.clustering import KShape
        ks = KShape(n_clusters=k, max_iter=t, init=init, tol=0.).fit(X)
        if getattr(ks, "_X_fit", 0) is None:
            break
        if last is not None:
            c.ok(ks.inertia_ <= last + 1e-9, "the objective does not rise with more iterations", before=last, after=ks.inertia_, iterations=t)
        last = ks.inertia_
        seen += 1
        _judge(c, ks, X)
    c.equal(init, keep, "given centroids untouched")
    c.event("iterations observed", seen)
    c.cover(k, seen, u < .3)


def restarts(c):
    X = _data(c)
    seed, k, it = int(c.rng.randint(1000)), int(c.rng.randint(2, 4)), int(c.choice([1, 3, 20]))
    last = None
    for n in (1, 2, 5):
        from tslearn.clustering import KShape
        ks = KShape(n_clusters=k, max_iter=it, n_init=n, random_state=seed).fit(X)
        c.note(X=X, seed=seed, k=k, n_init=n)
        if getattr(ks, "_X_fit", 0) is None:
            continue
        if last is not None:
            c.ok(ks.inertia_ <= last + 1e-12, "more restarts never worsen the inertia", fewer=last, more=ks.inertia_)
        last = ks.inertia_
        _judge(c, ks, X)
    c.cover(k, it, last is None)


def copies(c):
    """Scaled copies of one shape: the centroid is that shape."""
    sz, d = int(c.rng.randint(5, 14)), gen.dim(c.rng, 2)
    base = zn(gen.values(c.rng, sz, d, c.choice(["walk", "gauss"])))
    n = int(c.rng.randint(2, 6))
    X = np.array([base.copy() for _ in range(n)])
    c.note(X=X)
    ks = _fit(c, X, n_clusters=1, max_iter=10)
    c.close(ks.cluster_centers_[0], base, "the centroid of copies of one shape is that shape", rtol=1e-6, atol=1e-6)
    c.close(ks.inertia_, 0., "copies of the centroid have no inertia", atol=1e-9)
    c.cover(sz, d, n)



def large(c):
    """Long series and large datasets."""
    if c.rng.rand() < .5:
        n, sz, d = int(c.rng.randint(8, 14)), int(c.choice([60, 100, 128, 129, 200])), gen.dim(c.rng, 2)
    else:
        n, sz, d = int(c.choice([70, 130, 260])), int(c.rng.randint(6, 12)), 1
    X = _data(c, n=n, sz=sz, d=min(d, 3))
    ks = _fit(c, X, n_clusters=int(c.choice([2, 3, 6])), max_iter=int(c.choice([1, 3, 10])), n_init=1)
    _judge(c, ks, X)
    c.event("series in large clusterings", n)
    c.cover("large", n, sz, ks.n_clusters)


WORKLOADS = [W(large, 10), W(ncc_def, 120), W(cdist, 40), W(shifted, 60), W(kshape, 50), W(descent, 25), W(restarts, 20), W(copies, 15)]
META = dict(
    technique="runtime monitors comparing cross-correlations, shifts and fitted k-shape models with a reference program of their "
              "definitions; history monitors over iterations and restarts",
    rule="distinct (size, dimension, best lag, cluster sizes, iterations) combinations observed",
    note="normalized_cc, cdist_normalized_cc and y_shifted_sbd_vec against the definition lag by lag; fitted KShape models (labels, "
         "inertia, predictions for batches smaller and larger than the training set) against recomputed shape-based distances.",
    assumptions=["k-shape is fitted on series scaled to zero mean and unit variance, as its documentation asks",
                 "near-ties within 1e-7 may go either way",
                 "the diagonal of cdist_normalized_cc with self_similarity=True is not judged (left at zero by the library)"])
