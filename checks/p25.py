"""P25: nearest-neighbour search, classification and regression are exact."""
import numpy as np
from scipy.stats import norm

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import same_arrays

METRICS = ["dtw", "dtw", "dtw", "softdtw", "frechet", "ctw", "sax", "sax", "euclidean", "sqeuclidean", "cityblock", "precomputed"]
FLAT = ("euclidean", "sqeuclidean", "cityblock", "precomputed")


def _sax_word(X, seg, bp):
    n, sz, d = X.shape
    P = X.reshape(n, seg, sz // seg, d).mean(2)
    return np.searchsorted(bp, P, side="left"), P


def _distances(c, metric, Q, T, mp):
    if metric == "sax":
        k, seg = mp.get("alphabet_size_avg", 4), mp.get("n_segments", 10)
        bp = norm.ppf(np.arange(1, k) / k)
        QX, TX = np.array(Q), np.array(T)
        if mp.get("scale"):
            mu, sd = TX.reshape(-1, TX.shape[2]).mean(0), TX.reshape(-1, TX.shape[2]).std(0)
            QX, TX = (QX - mu) / sd, (TX - mu) / sd
        a, P = _sax_word(QX, seg, bp)
        b, P2 = _sax_word(TX, seg, bp)
        if min(np.abs(np.append(P.ravel(), P2.ravel())[:, None] - bp[None]).min(), 1) < 1e-9:
            c.skip()
        D = np.zeros((len(Q), len(T)))
        for i in range(len(Q)):
            for j in range(len(T)):
                s = 0.
                for u, v in zip(a[i].ravel(), b[j].ravel()):
                    lo, hi = min(u, v), max(u, v)
                    if hi - lo > 1:
                        s += (bp[hi - 1] - bp[lo]) ** 2
                D[i, j] = np.sqrt(s * TX.shape[1] / seg)
        return D
    D = np.zeros((len(Q), len(T)))
    for i, x in enumerate(Q):
        for j, y in enumerate(T):
            if metric in ("euclidean", "precomputed"):
                D[i, j] = np.sqrt(((x - y) ** 2).sum())
            elif metric == "sqeuclidean":
                D[i, j] = ((x - y) ** 2).sum()
            elif metric == "cityblock":
                D[i, j] = np.abs(x - y).sum()
            elif metric == "ctw":
                from tslearn.metrics import ctw
                D[i, j] = ctw(x, y, **mp)
            else:
                C = ref.sqdist(x, y)
                mask = ref.sakoe_mask(len(x), len(y), mp["sakoe_chiba_radius"]) if "sakoe_chiba_radius" in mp else None
                if metric == "softdtw":
                    D[i, j] = ref.soft_dtw(C, mp.get("gamma", mp.get("gamma_sdtw", 1.)), mask)
                else:
                    D[i, j] = np.sqrt(max(0., ref.align_min(C, mask, "sum" if metric == "dtw" else "max")))
    return D


def _draw(c, metric=None, nmin=2, nmax=12, d=None):
    """metric, parameters, training series, queries."""
    metric = metric or c.choice(METRICS)
    d = d or (2 if metric == "ctw" else gen.dim(c.rng, 2))
    n, q = int(c.rng.randint(nmin, nmax)), int(c.choice([1, 2, 3, 5]))
    mp = {}
    if metric == "ctw":
        n, q = min(n, 5), min(q, 2)
        T = [c.rng.randn(int(c.rng.randint(5, 9)), d) for _ in range(n)]
        Q = [c.rng.randn(int(c.rng.randint(5, 9)), d) for _ in range(q)]
        if c.rng.rand() < .4:
            mp["max_iter"] = 3
    elif metric == "sax":
        seg = int(c.choice([1, 2, 4, 5]))
        sz = seg * int(c.rng.randint(1, 5))
        mp = {"n_segments": seg, "alphabet_size_avg": int(c.choice([3, 5, 8]))}
        if c.rng.rand() < .5:
            mp["scale"] = True
        if c.rng.rand() < .25:
            sz, mp = 20, {}
        off = c.choice([0., 5.]) if mp.get("scale") else 0.
        T = [c.rng.randn(sz, d) + off + c.rng.randn() for _ in range(n)]
        Q = [c.rng.randn(sz, d) + off + c.rng.randn() for _ in range(q)]
    else:
        equal = metric in FLAT or c.rng.rand() < .3
        T = gen.dataset(c.rng, n, 2, 8, d, equal=equal)
        if equal:
            Q = [gen.values(c.rng, len(T[0]), d) for _ in range(q)]
        else:
            Q = gen.dataset(c.rng, q, 2, 8, d)
        if c.rng.rand() < .3:
            Q[0] = T[int(c.rng.randint(n))].copy()
        T = [x + 1e-3 * c.rng.randn(*x.shape) for x in T] if c.rng.rand() < .7 else T
        if metric in ("dtw", "frechet", "softdtw") and c.rng.rand() < .4:
            mp["sakoe_chiba_radius"] = 6 if not equal else int(c.choice([0, 1, 3]))
            if c.rng.rand() < .5:
                mp["global_constraint"] = "sakoe_chiba"
        if metric == "softdtw" and c.rng.rand() < .7:
            mp[c.choice(["gamma", "gamma_sdtw"])] = float(c.choice([.01, 1., 5.]))
    return metric, mp, T, Q


def _params(c, mp):
    p = dict(mp)
    if c.rng.rand() < .2:
        p.update(n_jobs=1, verbose=0)        # documented as overridden
    return p or None


def _inputs(c, metric, T, Q):
    if metric == "precomputed":
        D = _distances(c, "euclidean", T, T, {})
        return D, _distances(c, "euclidean", Q, T, {})
    e1, e2 = (int(c.choice([0, 0, 2])) for _ in range(2)) if metric not in FLAT + ("sax",) else (0, 0)
    return gen.pad(T, e1), gen.pad(Q, e2)


def _judge_neighbors(c, dist, ind, D, k, what, tol, banned=None):
    """dist/ind against the distance matrix D (rows: queries)."""
    k = min(k, D.shape[1] - (banned is not None))
    c.ok(ind.shape == (len(D), k) and dist.shape == (len(D), k), what + ": as many neighbours as asked for (and available)", got=ind.shape, k=k)
    if ind.shape != (len(D), k):
        return
    rows = np.arange(len(D))[:, None]
    c.ok(all(len(set(r.tolist())) == k for r in ind), what + ": neighbours are distinct", ind=ind)
    if banned is not None:
        c.ok(not (ind == np.asarray(banned)[:, None]).any(), what + ": a series is not its own neighbour", ind=ind)
    c.close(dist, D[rows, ind], what + ": distances are those of the neighbours", rtol=1e-6, atol=tol)
    c.ok((np.diff(dist, axis=1) >= -1e-12).all(), what + ": neighbours come in order", dist=dist)
    E = D.astype(float).copy()
    if banned is not None:
        E[np.arange(len(D)), banned] = np.inf
    c.close(dist, np.sort(E, axis=1)[:, :k], what + ": they are the closest ones", rtol=1e-6, atol=tol)


def _tol(metric, D):
    s = float(np.abs(D[np.isfinite(D)]).max()) if D.size else 1.
    return 1e-6 * max(s, 1e-3)


def search(c):
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    metric, mp, T, Q = _draw(c)
    k = int(c.rng.randint(1, 6))
    D = _distances(c, metric, Q, T, mp)
    X, Y = _inputs(c, metric, T, Q)
    c.note(metric=metric, metric_params=mp, train=X, query=Y, k=k)
    cls = c.choice([KNeighborsTimeSeries, KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor])
    if metric == "precomputed":
        cls = KNeighborsTimeSeries
    m = cls(n_neighbors=k, metric=metric, metric_params=_params(c, mp), n_jobs=c.choice([None, 2]) if metric == "dtw" else None)
    par = repr(m.get_params())
    keep = [X.copy(), Y.copy()]
    m.fit(X) if cls is KNeighborsTimeSeries else m.fit(X, np.arange(len(T)) % 3)
    tol = _tol(metric, D)
    dist, ind = m.kneighbors(Y)
    _judge_neighbors(c, dist, ind, D, k, "search", tol)
    k2 = int(c.rng.randint(1, len(T) + 2))
    dist, ind = m.kneighbors(Y, n_neighbors=k2)
    _judge_neighbors(c, dist, ind, D, k2, "search", tol)
    i2 = m.kneighbors(Y, n_neighbors=k2, return_distance=False)
    c.close(D[np.arange(len(D))[:, None], i2], dist, "search: indices alone are the same neighbours", rtol=1e-6, atol=tol)
    # the training series themselves
    if len(T) > 1:
        DT = _distances(c, metric, T, T, mp)
        if metric == "ctw":
            pass
        dist, ind = m.kneighbors(n_neighbors=k2)
        _judge_neighbors(c, dist, ind, DT, k2, "self search", _tol(metric, DT), banned=np.arange(len(T)))
    c.ok(same_arrays(keep, [X, Y]), "data untouched")
    c.ok(repr(m.get_params()) == par, "parameters untouched", before=par, after=repr(m.get_params()))
    c.cover(metric, cls.__name__, len(T), len(Q), min(k, 3), tuple(sorted(mp)))


def _weights(c):
    w = c.choice(["uniform", "uniform", "distance", "callable"])
    return w, (lambda d: 1. / (1. + d)) if w == "callable" else w


def _vote_weights(w, d):
    if w == "uniform":
        return np.ones_like(d)
    if w == "callable":
        return 1. / (1. + d)
    out = np.zeros_like(d)
    for i, r in enumerate(d):
        out[i] = (r == 0).astype(float) if (r == 0).any() else 1. / r
    return out


def predictions(c):
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    metric, mp, T, Q = _draw(c, c.choice([m for m in METRICS if m != "precomputed"]), nmin=3)
    k = int(c.rng.randint(1, len(T) + 1))
    D = _distances(c, metric, Q, T, mp)
    tol = _tol(metric, D)
    wname, w = _weights(c)
    if metric in ("softdtw", "sax"):
        wname, w = "uniform", "uniform"
    S = np.sort(D, 1)
    # neighbours well separated from the others, distances away from zero (or exact)
    if k < len(T) and (S[:, k] - S[:, k - 1]).min() < 10 * tol:
        c.skip()
    if wname == "distance" and (S[:, 0] < 10 * tol).any():
        c.skip()
    order = np.argsort(D, 1)[:, :k]
    VW = _vote_weights(wname, np.take_along_axis(D, order, 1))
    X, Y = _inputs(c, metric, T, Q)
    regress = c.rng.rand() < .4
    c.note(metric=metric, metric_params=mp, train=X, query=Y, k=k, weights=wname, regress=regress)
    if regress:
        m = KNeighborsTimeSeriesRegressor(n_neighbors=k, weights=w, metric=metric, metric_params=_params(c, mp))
        y = c.rng.randn(len(T)) if c.rng.rand() < .6 else c.rng.randn(len(T), 2)
        m.fit(X, y)
        got = to_np(m.predict(Y))
        want = np.array([(VW[i][:, None] * y.reshape(len(T), -1)[order[i]]).sum(0) / VW[i].sum() for i in range(len(Q))])
        c.close(got.reshape(len(Q), -1), want, "regression is the weighted mean over the neighbours", rtol=1e-6, atol=1e-6 * (1 + np.abs(y).max()))
        c.ok(got.shape == (len(Q),) + y.shape[1:], "one prediction per series")
    else:
        lab = c.choice([np.array(["a", "b", "c"]), np.array([3, 7, 11]), np.array([-1., 1., 2.])])
        y = lab[c.rng.randint(0, 3, size=len(T))]
        m = KNeighborsTimeSeriesClassifier(n_neighbors=k, weights=w, metric=metric, metric_params=_params(c, mp), n_jobs=c.choice([None, 2]) if metric == "dtw" else None)
        m.fit(X, y)
        cl = np.unique(y)
        c.ok(np.array_equal(m.classes_, cl), "classes are those of the training labels")
        votes = np.array([[VW[i][y[order[i]] == v].sum() for v in cl] for i in range(len(Q))])
        proba = votes / votes.sum(1, keepdims=True)
        gp = to_np(m.predict_proba(Y))
        c.close(gp, proba, "class probabilities are the weighted vote shares", rtol=1e-6, atol=1e-7)
        gy = to_np(m.predict(Y))
        for i in range(len(Q)):
            s = np.sort(proba[i])
            if len(s) > 1 and s[-1] - s[-2] < 1e-6:
                tied = cl[proba[i] > s[-1] - 1e-6]
                c.ok(gy[i] in tied, "tied votes give one of the tied classes", got=gy[i], tied=list(tied))
            else:
                c.ok(gy[i] == cl[np.argmax(proba[i])], "classification is the weighted vote", got=gy[i], votes=votes[i])
    c.cover(metric, regress, wname, len(T), k == len(T), tuple(sorted(mp)))


def history(c):
    """Failures, refits and re-parameterisation between fit and predict."""
    from sklearn.base import clone
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    cls = c.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor])
    d = int(c.rng.randint(1, 3))
    pool = ["dtw", "frechet", "softdtw", "euclidean", "cityblock", "sax"]
    metric = c.choice(pool)
    sax = {"n_segments": 2, "alphabet_size_avg": 5, "scale": True}

    def data():
        T = gen.dataset(c.rng, int(c.rng.randint(3, 8)), 4, 8, d, equal=True, kind="gauss")
        sz = 2 * (len(T[0]) // 2)
        T = np.array([x[:sz] for x in T]) + float(c.rng.randn())
        Q = np.array([gen.values(c.rng, sz, d, "gauss") for _ in range(3)])
        return T, Q, np.arange(len(T)) % 2
    m = cls(n_neighbors=2, metric=metric, metric_params=dict(sax) if metric == "sax" else None)
    T, Q, y = data()
    log = []

    def fit():
        m.fit(T) if cls is KNeighborsTimeSeries else m.fit(T, y)

    def ask(e, Z):
        if cls is KNeighborsTimeSeries:
            return list(e.kneighbors(Z))
        out = [e.predict(Z)] + list(e.kneighbors(Z))
        if cls is KNeighborsTimeSeriesClassifier:
            out.append(e.predict_proba(Z))
        return out
    fit()
    fitted_metric = metric
    for _ in range(int(c.rng.randint(2, 6))):
        step = c.choice(["bad dimension", "nan", "garbage", "refit", "metric", "ask", "clone", "bad fit", "self"])
        log.append(step)
        if step == "bad dimension":
            bad = np.zeros((2, Q.shape[1], d + 1))
            try:
                ask(m, bad)
                c.violate("a wrong feature count is refused", log=log, metric=metric)
            except ValueError:
                c.event("a wrong feature count is refused")
        elif step == "nan":
            bad = Q.copy()
            bad[0, 0, 0] = np.inf
            try:
                ask(m, bad)
            except Exception:
                c.event("failed calls")
        elif step == "garbage":
            try:
                ask(m, [[["x"]]])
            except Exception:
                c.event("failed calls")
        elif step == "bad fit":
            try:
                m.fit([["x", "y"]]) if cls is KNeighborsTimeSeries else m.fit(T, y[:-1])
            except Exception:
                c.event("failed calls")
            fit()
            fitted_metric = m.metric
        elif step == "refit":
            T, Q, y = data()
            fit()
            fitted_metric = m.metric
        elif step == "metric":
            metric = c.choice(pool)
            m.set_params(metric=metric, metric_params=dict(sax) if metric == "sax" else None, n_neighbors=int(c.rng.randint(1, 4)))
            fit()
            fitted_metric = metric
        elif step == "clone":
            m = clone(m)
            fit()
        elif step == "self":
            m.kneighbors()
        else:
            ask(m, Q)
    c.note(log=log, cls=cls.__name__, metric=fitted_metric, T=T, Q=Q)
    c.ok(m.metric == metric, "the metric parameter is the one that was set", got=m.metric, want=metric, log=log)
    fresh = cls(n_neighbors=m.n_neighbors, metric=metric, metric_params=dict(sax) if metric == "sax" else None)
    fresh.fit(T) if cls is KNeighborsTimeSeries else fresh.fit(T, y)
    for a, b in zip(ask(m, Q), ask(fresh, Q)):
        c.close(to_np(a), to_np(b), "answers like a freshly built model", rtol=1e-12, atol=0, log=log)
    c.cover(cls.__name__, metric, tuple(log)[-3:])


def flat_queries(c):
    """Two-dimensional arrays are univariate series."""
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier
    metric, mp, T, Q = _draw(c, c.choice(["dtw", "euclidean", "frechet"]), d=1)
    sz = min(len(x) for x in T + Q)
    T, Q = np.array([x[:sz, 0] for x in T]), np.array([x[:sz, 0] for x in Q])
    D = _distances(c, metric, T[:, :, None][:0], T[:, :, None], mp) if False else _distances(c, metric, Q[:, :, None], T[:, :, None], mp)
    c.note(metric=metric, metric_params=mp, train=T, query=Q)
    cls = c.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier])
    m = cls(n_neighbors=2, metric=metric, metric_params=mp or None)
    m.fit(T) if cls is KNeighborsTimeSeries else m.fit(T.tolist(), np.arange(len(T)) % 2)
    dist, ind = m.kneighbors(Q)
    _judge_neighbors(c, dist, ind, D, 2, "two-dimensional queries", _tol(metric, D))
    c.cover(metric, cls.__name__, T.shape, len(Q))


def large(c):
    """Searches among thousands of series, with ranks in the hundreds."""
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    n, q, sz = int(c.rng.randint(300, 3000)), int(c.rng.randint(1, 40)), int(c.rng.randint(1, 4))
    T, Q = c.rng.randn(n, sz, 1), c.rng.randn(q, sz, 1)
    metric = c.choice(["euclidean", "sqeuclidean", "cityblock", "precomputed"])
    k = int(c.choice([2, 10, 50, 200, n // 2, n - 1, n]))
    D = np.abs(Q[:, None, :, 0] - T[None, :, :, 0])
    D = D.sum(-1) if metric == "cityblock" else (D ** 2).sum(-1) if metric == "sqeuclidean" else np.sqrt((D ** 2).sum(-1))
    c.note(n=n, q=q, sz=sz, metric=metric, k=k)
    cls = c.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor])
    y = c.rng.randint(0, 3, n)
    m = cls(n_neighbors=k, metric=metric)
    if metric == "precomputed":
        m.fit(np.zeros((n, n)), y) if cls is not KNeighborsTimeSeries else m.fit(np.zeros((n, n)))
        dist, ind = m.kneighbors(D)
    else:
        m.fit(T, y) if cls is not KNeighborsTimeSeries else m.fit(T)
        dist, ind = m.kneighbors(Q)
    _judge_neighbors(c, dist, ind, D, k, "large search", _tol(metric, D))
    c.event("large searches")
    # many queries against one pool: selecting the k smallest of many goes
    # wrong for few rows only
    q, n, k = 500, int(c.choice([300, 600, 1200])), int(c.choice([100, 150, 200, 250]))
    D = c.rng.rand(q, n)
    m = KNeighborsTimeSeries(n_neighbors=k, metric="precomputed").fit(np.zeros((n, n)))
    dist, ind = m.kneighbors(D)
    c.equal(np.asarray(dist), np.sort(D, axis=1)[:, :k], "distances of the nearest neighbours, in order")
    c.equal(np.take_along_axis(D, np.asarray(ind), 1), np.asarray(dist), "indices belong to the distances")
    c.event("queries against a pool", q)
    c.cover("large", metric, k > 100, n > 1500)


WORKLOADS = [W(large, 24), W(search, 110), W(predictions, 90), W(history, 60), W(flat_queries, 20)]
META = dict(
    technique="runtime monitors comparing neighbours, distances, votes and means with brute force over recomputed distances; "
              "history monitors over failing calls, refits and changed parameters",
    rule="distinct (metric, estimator, sizes, parameters) combinations and histories observed",
    note="KNeighborsTimeSeries, the classifier and the regressor on DTW, soft-DTW, Frechet, CTW, SAX, Euclidean, squared Euclidean, "
         "city-block and precomputed distances, self queries included, against brute force; random histories of failing calls, "
         "refits, clones and metric changes against a freshly built model.",
    assumptions=["predictions are judged where the k-th and (k+1)-th neighbours are not tied; any of the classes with tied votes is accepted",
                 "SAX inputs have lengths that are multiples of the number of segments"])
