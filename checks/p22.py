"""P22: k-means and kernel k-means report consistent clusterings."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import scale_of

METRICS = ["euclidean", "dtw", "dtw", "softdtw"]


def _dist(metric, x, y, mp):
    """The documented distance of a series to a center, recomputed."""
    C = ref.sqdist(x, y)
    if metric == "euclidean":
        return np.sqrt(C.trace())
    mask = None
    if "sakoe_chiba_radius" in mp:
        mask = ref.sakoe_mask(len(x), len(y), mp["sakoe_chiba_radius"])
    if metric == "dtw":
        return np.sqrt(max(ref.align_min(C, mask), 0.))
    return ref.soft_dtw(C, mp.get("gamma", 1.))


def _matrix(metric, A, centers, mp):
    return np.array([[_dist(metric, x, y, mp) for y in centers] for x in A])


def _data(c, metric, n=None, hi=9, d=None, groups=True):
    """Series scattered around a few prototypes (or not)."""
    d = d or gen.dim(c.rng, 2)
    n = n or int(c.rng.randint(6, 15))
    equal = metric == "euclidean" or c.rng.rand() < .4
    A = gen.dataset(c.rng, n, 3, hi, d, equal=equal, kind=c.choice(["gauss", "walk", "sine", "ties"]))
    if groups and c.rng.rand() < .6:
        protos = [4 * c.rng.randn(d) for _ in range(3)]
        A = [x + protos[i % 3] for i, x in enumerate(A)]
    return [x + 1e-6 * c.rng.randn(*x.shape) for x in A]


def _form(c, A):
    return gen.pad(A, int(c.rng.randint(0, 3)) if c.rng.rand() < .3 and len({len(x) for x in A}) > 1 else 0)


def _model(c, metric, **over):
    from tslearn.clustering import TimeSeriesKMeans
    mp = {}
    if metric == "dtw" and c.rng.rand() < .3:
        mp = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 6}
    if metric == "softdtw":
        mp = {"gamma": float(c.choice([.1, 1., 3.]))} if c.rng.rand() < .7 else {}
    kw = dict(n_clusters=int(c.rng.randint(1, 5)), metric=metric, max_iter=int(c.choice([1, 1, 2, 3, 8])),
              n_init=int(c.choice([1, 1, 2])), max_iter_barycenter=4, metric_params=mp or None,
              random_state=int(c.rng.randint(1000)), n_jobs=c.choice([None, 2]),
              init=c.choice(["k-means++", "random"]), dtw_inertia=bool(c.rng.rand() < .25))
    kw.update(over)
    c.note(params={k: v for k, v in kw.items() if not isinstance(v, np.ndarray)})
    return TimeSeriesKMeans(**kw), mp


def _judge(c, km, A, X, metric, mp):
    """Monitors on a fitted k-means."""
    k = km.n_clusters
    lab = to_np(km.labels_)
    c.ok(lab.shape == (len(A),) and lab.dtype.kind == "i", "one integer label per series")
    c.ok(set(lab.tolist()) == set(range(k)), "labels are the clusters, none of them empty", labels=lab)
    cen = [ref_len(x) for x in to_np(km.cluster_centers_)]
    c.ok(len(cen) == k and all(np.isfinite(x).all() and len(x) for x in cen), "centers are proper series")
    D = _matrix(metric, A, cen, mp)
    s = scale_of(*A)
    tol = 1e-7 * (s if metric != "softdtw" else 1 + s * s) * 10
    mine = D[np.arange(len(A)), lab]
    c.ok((mine <= D.min(1) + tol).all(), "labels are the nearest returned centers", labels=lab, distances=D)
    c.close(km.transform(X), D, "transform gives the distances to the centers", rtol=1e-6, atol=tol)
    c.equal(km.predict(X), lab, "predicting the training set repeats the labels")
    DI = D if metric == "dtw" or not km.dtw_inertia else _matrix("dtw", A, cen, {})
    want = np.mean(DI[np.arange(len(A)), lab] ** 2)
    c.close(km.inertia_, want, "inertia is the one of the returned labels and centers", rtol=1e-6,
            atol=1e-9 * (1 + s) ** (2 if metric != "softdtw" else 4))
    c.ok(1 <= km.n_iter_ <= km.max_iter, "number of iterations within its limit", n_iter=km.n_iter_)
    return D


def ref_len(x):
    return x[:ref.real_len(x)]


def _fitted(c, km, X, y=None):
    km.fit(X)
    if getattr(km, "_X_fit", 0) is None:
        c.event("no clustering without an empty cluster was found")
        return False
    c.event("clusterings observed")
    return True


def _fit_predict(c, km, X):
    """fit_predict, talkative or not, gives the labels of fit."""
    import contextlib
    import io
    from sklearn.base import clone
    other = clone(km).set_params(verbose=int(c.rng.randint(0, 3)))
    with contextlib.redirect_stdout(io.StringIO()):
        lab = to_np(other.fit_predict(X))
    c.equal(lab, km.labels_, "fit_predict gives the labels of fit")
    c.equal(other.labels_, km.labels_, "fit_predict leaves the model of fit")
    c.close(other.inertia_, km.inertia_, "fit_predict leaves the model of fit", rtol=1e-9)


def kmeans(c):
    metric = c.choice(METRICS)
    A = _data(c, metric)
    X = _form(c, A)
    c.note(metric=metric, X=X)
    km, mp = _model(c, metric)
    if not _fitted(c, km, X):
        c.skip()
    D = _judge(c, km, A, X, metric, mp)
    c.ok(km.cluster_centers_.shape[1:] == (max(len(x) for x in A), X.shape[2]), "centers have the length of the training data")
    if c.rng.rand() < .4:
        _fit_predict(c, km, X)
    # new series of other lengths go to their nearest center
    B = _data(c, metric, n=4, hi=8, d=A[0].shape[1], groups=False)
    if metric == "euclidean":
        B = [np.resize(x, A[0].shape) for x in B]
    DB = _matrix(metric, B, [ref_len(x) for x in km.cluster_centers_], mp)
    XB = gen.pad(B)
    pb = to_np(km.predict(XB))
    s = scale_of(*(A + B))
    tol = 1e-6 * (s if metric != "softdtw" else 1 + s * s)
    c.ok((DB[np.arange(4), pb] <= DB.min(1) + tol).all(), "new series are given their nearest center", predicted=pb, distances=DB)
    c.close(km.transform(XB), DB, "transform gives the distances to the centers", rtol=1e-6, atol=tol)
    c.cover(metric, km.n_clusters, km.max_iter, km.n_iter_, km.init, km.dtw_inertia, tuple(np.bincount(km.labels_)))


def converged(c):
    """Once converged, a Euclidean center is the mean of its cluster."""
    A = _data(c, "euclidean")
    X = gen.pad(A)
    c.note(X=X)
    km, mp = _model(c, "euclidean", max_iter=60, tol=0. if c.rng.rand() < .3 else 1e-10)
    if not _fitted(c, km, X):
        c.skip()
    _judge(c, km, A, X, "euclidean", mp)
    for k in range(km.n_clusters):
        c.close(km.cluster_centers_[k], X[km.labels_ == k].mean(0), "a converged center is the mean of its cluster",
                rtol=1e-9, atol=1e-9 * scale_of(X))
    c.cover(km.n_clusters, km.n_iter_, tuple(np.bincount(km.labels_)))


def descent(c):
    """Same initial centers, more and more iterations."""
    metric = c.choice(["euclidean", "dtw"])
    A = _data(c, metric)
    X = _form(c, A)
    k = int(c.rng.randint(2, 4))
    m = X.shape[1] if metric == "euclidean" else int(c.rng.randint(3, 8))
    init = np.stack([np.resize(A[i], (m, A[0].shape[1])) for i in c.rng.choice(len(A), k, replace=False)])
    init = init + (0. if c.rng.rand() < .5 else c.rng.randn(*init.shape))
    c.note(metric=metric, X=X, init=init)
    over = {"metric_params": None} if metric == "dtw" else {}
    last, seen, start = None, [], None
    d0 = _matrix(metric, A, init, {})
    start = np.mean(d0.min(1) ** 2)
    for t in range(1, 6):
        km, mp = _model(c, metric, n_clusters=k, init=init, max_iter=t, n_init=1, tol=0., dtw_inertia=False, **over)
        km.fit(X)
        if getattr(km, "_X_fit", 0) is None:
            break
        v = float(km.inertia_)
        c.ok(v <= (start if last is None else last) * (1 + 1e-9) + 1e-12, "the objective does not rise with more iterations",
             before=start if last is None else last, after=v, iterations=t)
        c.ok(km.cluster_centers_.shape == init.shape, "centers keep the shape of the given ones")
        last = v
        seen.append(v)
    c.event("iterations observed", len(seen))
    if seen:
        _judge(c, km, A, X, metric, {}) if getattr(km, "_X_fit", 0) is not None else None
    c.cover(metric, k, len(seen), len(set(np.round(seen, 9))))


def restarts(c):
    kind = c.choice(["euclidean", "dtw", "softdtw", "kernel", "kernel"])
    A = _data(c, "euclidean" if kind == "euclidean" else "dtw", hi=7)
    X = gen.pad(A)
    seed = int(c.rng.randint(1000))
    c.note(kind=kind, X=X, seed=seed)
    from tslearn.clustering import KernelKMeans
    over = dict(n_clusters=int(c.rng.randint(2, 4)), max_iter=int(c.choice([1, 2, 4])), dtw_inertia=False,
                init=c.choice(["random", "k-means++"]))
    mp_ = None
    if kind == "softdtw":
        over["n_clusters"] = 2
    last = None
    for n in (1, 2, 4):
        if kind == "kernel":
            km = KernelKMeans(n_clusters=over["n_clusters"], max_iter=over["max_iter"] * 5, n_init=n, random_state=seed,
                              kernel_params={"sigma": 2.})
        else:
            if mp_ is None:
                km, mp_ = _model(c, kind, n_init=n, random_state=seed, **over)
            else:
                km.set_params(n_init=n)
        km.fit(X)
        if getattr(km, "_X_fit", 0) is None:
            continue
        if last is not None:
            c.ok(km.inertia_ <= last * (1 + 1e-12), "more restarts never worsen the inertia", fewer=last, more=km.inertia_, n_init=n)
        last = km.inertia_
        if kind != "kernel":
            lab, cen = km.labels_, [ref_len(x) for x in km.cluster_centers_]
            D = _matrix(kind, A, cen, mp_)
            s = scale_of(*A)
            c.close(km.inertia_, np.mean(D[np.arange(len(A)), lab] ** 2), "inertia is the one of the returned labels and centers",
                    rtol=1e-6, atol=1e-8 * (1 + s) ** 2)
    c.cover(kind, over["n_clusters"], over["max_iter"], last is None)


def kernel(c):
    from tslearn.clustering import KernelKMeans
    ker = c.choice(["gak", "gak", "rbf", "cosine", "callable"])
    A = _data(c, "dtw" if ker == "gak" else "euclidean", hi=7)
    X = gen.pad(A)
    k = int(c.rng.randint(1, 4))
    s = float(np.std(np.vstack(A))) or 1.
    sw = None if c.rng.rand() < .5 else c.rng.rand(len(A)) + .1
    kp = {"gak": {"sigma": s * float(c.choice([1., 2.]))}, "rbf": {"gamma": .3 / (s * s * X.shape[1])},
          "cosine": None, "callable": {"p": .5}}[ker]

    def mine(u, v, p):
        return float(np.exp(-p * np.abs(u - v).mean() / s))
    auto = ker == "gak" and c.rng.rand() < .25
    c.note(kernel=ker, X=X, params=kp, auto=auto, sample_weight=sw)
    par = {"sigma": "auto"} if auto else (dict(kp) if kp is not None else None)
    km = KernelKMeans(n_clusters=k, kernel=mine if ker == "callable" else ker, kernel_params=par, max_iter=60, tol=1e-12,
                      n_init=int(c.choice([1, 3])), random_state=int(c.rng.randint(1000)), n_jobs=c.choice([None, 2]) if ker != "callable" else None)
    km.fit(X, sample_weight=sw)
    c.ok(par == ({"sigma": "auto"} if auto else kp), "kernel parameters untouched", params=par)
    if getattr(km, "_X_fit", 0) is None:
        c.event("no clustering without an empty cluster was found")
        c.skip()
    c.event("clusterings observed")
    w = np.ones(len(A)) if sw is None else sw
    if sw is None and c.rng.rand() < .4:
        _fit_predict(c, km, X)
    if auto:
        sig = km.sigma_gak_
        c.ok(isinstance(sig, float) and sig > 0, "automatic sigma is a positive number", sigma=sig)
    else:
        sig = kp.get("sigma") if kp else None

    def K(P, Q):
        if ker == "gak":
            return np.array([[ref.gak(x, y, sig) for y in Q] for x in P])
        P, Q = [np.array([x.ravel() for x in S]) for S in (P, Q)]
        if ker == "rbf":
            return np.exp(-kp["gamma"] * ((P[:, None] - Q[None]) ** 2).sum(-1))
        if ker == "cosine":
            return (P / np.linalg.norm(P, axis=1)[:, None]) @ (Q / np.linalg.norm(Q, axis=1)[:, None]).T
        return np.array([[mine(x, y, .5) for y in Q] for x in P])

    def D(P):
        KK = K(P, A)
        return np.stack([2 - 2 * (KK[:, km.labels_ == j] * w[km.labels_ == j]).sum(1) / w[km.labels_ == j].sum()
                         for j in range(k)], axis=1)
    lab = km.labels_
    c.ok(set(lab.tolist()) == set(range(k)), "labels are the clusters, none of them empty", labels=lab)
    d = D(A)
    c.close(km.sample_weight_, w, "the weights used are the ones given")
    B = _data(c, "dtw", n=4, hi=7, d=A[0].shape[1], groups=False)
    if ker != "gak":
        B = [np.resize(x, A[0].shape) for x in B]
    pb, db = to_np(km.predict(gen.pad(B))), D(B)
    c.ok((db[np.arange(4), pb] <= db.min(1) + 1e-7).all(), "new series are given their nearest kernel centroid", predicted=pb, distances=db)
    pa = to_np(km.predict(X))
    c.ok((d[np.arange(len(A)), pa] <= d.min(1) + 1e-7).all(), "training series are given their nearest kernel centroid", predicted=pa, distances=d)
    if km.n_iter_ < km.max_iter:
        c.event("converged kernel clusterings")
        c.ok((d[np.arange(len(A)), lab] <= d.min(1) + 1e-7).all(), "converged labels are the nearest kernel centroids", labels=lab, distances=d)
        c.equal(pa, lab, "predicting the training set repeats the labels")
        c.close(km.inertia_, d.min(1).sum(), "inertia is the one of the returned labels", rtol=1e-6, atol=1e-7)
    c.cover(ker, k, km.n_iter_, sw is None, auto, tuple(np.bincount(lab)))


def refits(c):
    """A k-means fitted before answers like a new one."""
    from tslearn.clustering import KernelKMeans
    from sklearn.base import clone
    kind = c.choice(["kmeans", "kernel", "kernel"])
    A, B = _data(c, "dtw", hi=7), _data(c, "dtw", hi=7)
    B = [x[:, :1] for x in B]
    X, Y = gen.pad(A), gen.pad(B)
    if kind == "kernel":
        km = KernelKMeans(n_clusters=2, max_iter=10, random_state=3, kernel_params=c.choice([None, {"sigma": "auto"}, {"sigma": 3.}]))
        km.fit(X)
        if c.rng.rand() < .5:
            km.set_params(kernel_params={"sigma": float(c.choice([.7, 5.]))})
    else:
        km, _ = _model(c, "dtw", n_clusters=2)
        km.fit(X)
    c.note(kind=kind, X=X, Y=Y, params=km.get_params())
    fresh = clone(km).fit(Y)
    km.fit(Y)
    c.equal(km.labels_, fresh.labels_, "a refitted model equals a new one")
    c.ok((getattr(km, "_X_fit", 0) is None) == (getattr(fresh, "_X_fit", 0) is None), "a refitted model equals a new one")
    if getattr(km, "_X_fit", 0) is not None:
        c.close(km.inertia_, fresh.inertia_, "a refitted model equals a new one", rtol=1e-12)
        c.equal(km.predict(Y), fresh.predict(Y), "a refitted model equals a new one")
    if kind == "kernel":
        c.close(km.sigma_gak_, fresh.sigma_gak_, "a refitted model equals a new one")
    c.cover(kind, str(km.get_params().get("kernel_params")))



def large(c):
    """Hundreds of series, a dozen clusters."""
    metric = c.choice(["euclidean", "dtw", "softdtw"])
    d = gen.dim(c.rng, 2)
    n = int(c.choice([130, 200, 300])) if metric != "softdtw" else 70
    A = [x + 1e-6 * c.rng.randn(*x.shape) for x in gen.dataset(c.rng, n, 3, 6, d, equal=metric == "euclidean", kind="walk")]
    protos = [5 * c.rng.randn(d) for _ in range(8)]
    A = [x + protos[i % 8] for i, x in enumerate(A)]
    X = _form(c, A)
    c.note(metric=metric, X=X)
    km, mp = _model(c, metric, n_clusters=int(c.choice([3, 7, 12])), max_iter=int(c.choice([1, 3, 12])))
    if not _fitted(c, km, X):
        c.skip()
    D = _judge(c, km, A, X, metric, mp)
    c.event("series in large clusterings", n)
    c.cover("large", metric, n, km.n_clusters, km.n_iter_)


WORKLOADS = [W(large, 8), W(kmeans, 60), W(converged, 25), W(descent, 20), W(restarts, 30), W(kernel, 40), W(refits, 16)]
META = dict(
    technique="runtime monitors on fitted k-means models (labels, centers, inertia, transform) against recomputed distances; "
              "history monitors over iterations and restarts",
    rule="distinct (metric, number of clusters, iterations, initialisation, cluster sizes) combinations observed",
    note="Labels, transform, predictions and inertia of fitted models are compared with distances recomputed from the returned "
         "centers by reference DTW, soft-DTW, Euclidean and kernel programs; runs with the same initial centers and more iterations, "
         "or the same seed and more restarts, are compared with each other.",
    assumptions=["near-ties within 1e-6 of the data scale may go either way",
                 "runs in which no attempt avoids empty clusters are only counted",
                 "kernel k-means uses its documented distance 2 - 2 mean k(x, cluster); label/prediction agreement on the "
                 "training set is judged on converged runs",
                 "descent is judged for Euclidean and DTW (soft-DTW centers come from a bounded number of optimiser steps)"])
