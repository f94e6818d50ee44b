"""P27: early classification never looks ahead."""
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np


def _data(c, n=None, ties=None):
    """Equal-length classes that share their beginning and separate later."""
    rng = c.rng
    n = n or int(rng.randint(10, 26))
    sz, d, k = int(rng.randint(3, 9)), gen.dim(rng, 2), int(c.choice([2, 2, 3]))
    big = rng.rand()
    if big < .05:
        n = 3 * n
    elif big < .1:
        sz = int(rng.randint(14, 30))
    elif big < .15:
        k = int(rng.randint(4, 6))
        n = max(n, 6 * k)
    sep = int(rng.randint(0, sz))
    ties = rng.rand() < .25 if ties is None else ties
    base = rng.randint(-2, 3, size=(sz, d)).astype(float)
    lab = np.arange(n) % k
    rng.shuffle(lab)
    X = np.repeat(base[None], n, 0)
    off = rng.randint(-3, 4, size=(k, sz, d))
    X[:, sep:] += off[lab][:, sep:]
    if not ties:
        X = X + .4 * rng.randn(n, sz, d)
    names = c.choice([None, np.array(["u", "v", "a", "zz", "b"]), np.array([5, -2, 9, 0, 100])])
    y = lab if names is None else names[lab]
    return X, y, k, sz, d, ties


def _recorder():
    """A 1-NN whose fit and predict calls are recorded (by hooked state)."""
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier
    log = []

    class Recorder(KNeighborsTimeSeriesClassifier):
        def fit(self, X, y):
            log.append(("fit", id(self), np.array(X, float), np.array(y)))
            return super().fit(X, y)

        def predict(self, X):
            p = super().predict(X)
            log.append(("predict", id(self), np.array(X, float), np.array(p)))
            return p
    Recorder._get_param_names = classmethod(lambda cls: KNeighborsTimeSeriesClassifier._get_param_names())
    return Recorder(n_neighbors=1, metric="euclidean"), log


def _model(c, sz, base=None, lamb=None, alpha=None):
    from tslearn.early_classification import NonMyopicEarlyClassifier
    kw = dict(n_clusters=int(c.choice([1, 2, 2, 3])), min_t=int(c.rng.randint(1, max(2, sz))),
              lamb=float(c.choice([0., 1., 10., 100.])) if lamb is None else lamb,
              cost_time_parameter=float(c.choice([0., 1e-3, .02, .1, .5])) if alpha is None else alpha,
              random_state=int(c.rng.randint(100)))
    return NonMyopicEarlyClassifier(base_classifier=base, **kw), kw


def _base(c):
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier
    from tslearn.svm import TimeSeriesSVC
    k = c.choice(["none", "none", "knn", "knn3", "svc"])
    return {"none": None, "knn": KNeighborsTimeSeriesClassifier(n_neighbors=1, metric="dtw"),
            "knn3": KNeighborsTimeSeriesClassifier(n_neighbors=3, metric="euclidean"),
            "svc": TimeSeriesSVC(kernel="rbf", gamma=.2, probability=False)}[k], k


def _fit(c, m, X, y):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return m.fit(X, y)
    except ValueError as e:
        # too few members in a cluster for a stratified split, or one class left
        if "least populated" in str(e) or "number of classes" in str(e) or "test_size" in str(e) or "train_size" in str(e):
            c.skip()
        raise


def _probas(m, kw, x):
    """Documented soft assignment of a prefix to the clusters."""
    C = to_np(m.cluster_.cluster_centers_)[:, :len(x)]
    dist = np.array([np.sqrt(((x - ck) ** 2).sum()) for ck in C])
    avg = dist.mean()
    delta = (avg - dist) / avg if avg > 0 else np.zeros(len(C))
    with np.errstate(over="ignore"):
        s = 1. / (1. + np.exp(-kw["lamb"] * delta))
    return s / s.sum()


def _costs(m, kw, x, sz, P):
    """Expected costs of the documented formula for the horizons t..sz."""
    p = _probas(m, kw, x)
    out = []
    for t in range(len(x), sz + 1):
        v = 0.
        for k in range(len(p)):
            for i in range(P.shape[2]):
                v += p[k] * m.pyck_[i, k] * sum(P[t - kw["min_t"], k, i, j] for j in range(P.shape[3]) if j != i)
        out.append(v + kw["cost_time_parameter"] * t)
    return np.array(out)


def _first(costs, tol=1e-9):
    """Index of the minimum, and whether it is not a near tie between
    horizons (exact ties are resolved by the first)."""
    i = int(np.argmin(costs))
    near = np.abs(costs - costs[i]) < tol
    return i, near.sum() == 1


def _decision(m, kw, x, sz, P):
    clear = True
    for t in range(kw["min_t"], sz + 1):
        i, ok = _first(_costs(m, kw, x[:t], sz, P))
        clear = clear and ok
        if i == 0 or t == sz:
            return t, clear
    return None, clear


def definition(c):
    """Decision times, classes, delays and costs follow the documented formulas."""
    X, y, k, sz, d, ties = _data(c)
    base, bk = _base(c)
    m, kw = _model(c, sz, base)
    c.note(X=X, y=y, params=kw, base=bk)
    c.ok(m.classes_ is None, "no classes before fit")
    _fit(c, m, X, y)
    tmin, K = kw["min_t"], kw["n_clusters"]
    c.ok(sorted(m.classifiers_) == list(range(tmin, sz + 1)), "one classifier per time from min_t to the length of the series")
    lab = to_np(m.cluster_.labels_)
    cls = np.unique(y)
    with np.errstate(invalid="ignore"):
        want = np.array([[np.mean(y[lab == q] == v) if (lab == q).any() else 0. for q in range(K)] for v in cls])
    c.close(m.pyck_, want, "class probabilities given a cluster are the training frequencies", rtol=1e-12)
    P = to_np(m.pyhatyck_)
    c.ok(P.shape == (sz - tmin + 1, K, k, k), "shape of the confusion probabilities")
    c.ok(np.isfinite(P).all() and (P >= 0).all() and (P.sum(-1) <= 1 + 1e-12).all(), "errors given a class are probabilities")
    Xt, _ = X[c.rng.permutation(len(X))[:4]] + (0 if ties else .3 * c.rng.randn(1, sz, d)), None
    n_clear = 0
    pred, times = m.predict_class_and_earliness(Xt)
    for x, p, t in zip(Xt, pred, times):
        for u in range(1, sz + 1):
            q = to_np(m.get_cluster_probas(x[:u]))
            c.close(q, _probas(m, kw, x[:u]), "cluster probabilities follow the documented formula", rtol=1e-9, atol=1e-12)
        tw, clear = _decision(m, kw, x, sz, P)
        if clear:
            n_clear += 1
            c.equal(int(t), tw, "the decision time is the first at which waiting is not expected to pay off")
        c.ok(tmin <= t <= sz, "decision times lie between min_t and the length of the series")
        c.equal(p, m.classifiers_[int(t)].predict(x[None, :int(t)])[0], "the class is that of the classifier of the decision time")
    c.event("clear decisions", n_clear)
    c.equal(list(m.predict(Xt)), list(pred), "predict gives the classes")
    yt = np.where(c.rng.rand(len(Xt)) < .5, pred, y[:len(Xt)])
    c.close(m.early_classification_cost(Xt, yt), 1 - np.mean(pred == yt) + kw["cost_time_parameter"] * np.mean(times),
            "early classification cost", rtol=1e-12, atol=1e-12)
    for u in range(1, sz + 1):
        pr, dl = m.early_predict(Xt[:, :u])
        for x, p, w in zip(Xt, pr, dl):
            if u < tmin:
                # with labels that are not numbers the placeholder is still not a class
                c.ok(w != w and (p != p or str(p) == "nan"), "no prediction before min_t")
                continue
            i, clear = _first(_costs(m, kw, x[:u], sz, P))
            if clear:
                c.equal(int(w), i, "the delay minimises the expected cost")
            c.equal(p, m.classifiers_[u].predict(x[None, :u])[0], "early prediction is that of the classifier of the current time")
    c.cover("def-%s-K%d-l%g-a%g-%s" % (bk, K, kw["lamb"], kw["cost_time_parameter"], "ties" if ties else "gen"))
    for t in set(int(t) for t in times):
        c.cover("decision at %s" % ("min_t" if t == tmin else "end" if t == sz else "between"))


def trained(c):
    """Recorded training calls: the classifier of time t sees prefixes of
    length t only, and the confusion tables are those of its recorded predictions."""
    X, y, k, sz, d, _ = _data(c, n=int(c.rng.randint(16, 30)), ties=False)
    base, log = _recorder()
    m, kw = _model(c, sz, base)
    c.note(X=X, y=y, params=kw)
    _fit(c, m, X, y)
    calls = list(log)
    tmin, K = kw["min_t"], kw["n_clusters"]
    by_id = {id(v): t for t, v in m.classifiers_.items()}
    lab, cls = to_np(m.cluster_.labels_), list(np.unique(y))
    index = lambda r: int(np.argmin([np.abs(r - x[:len(r)]).max() for x in X]))
    seen = {}
    for what, who, A, lb in calls:
        if who not in by_id:
            continue
        t = by_id[who]
        A = A.reshape(A.shape[0], -1, d)
        c.ok(A.shape[1] == t, "the classifier of time t only sees the first t time stamps")
        idx = [index(r) for r in A]
        c.ok(all(np.array_equal(r, X[i, :t]) for r, i in zip(A, idx)), "training prefixes are those of the training series")
        if what == "fit":
            c.equal(list(lb), list(y[idx]), "prefixes are paired with their own labels")
            seen.setdefault(t, {})["fit"] = set(idx)
        else:
            seen.setdefault(t, {}).setdefault("pred", []).extend(zip(idx, lb))
    c.ok(all("fit" in seen.get(t, {}) and seen[t].get("pred") for t in range(tmin, sz + 1)), "every classifier is trained and evaluated")
    P = to_np(m.pyhatyck_)
    for t in range(tmin, sz + 1):
        want = np.zeros((K, k, k))
        for i, p in seen[t]["pred"]:
            want[lab[i], cls.index(y[i]), cls.index(p)] += 1
        tot = want.sum(-1, keepdims=True)
        want = want / np.where(tot == 0, 1, tot)
        for q in range(K):
            np.fill_diagonal(want[q], 0.)
        c.close(P[t - tmin], want, "error probabilities given class and cluster are the recorded frequencies", rtol=1e-12, atol=1e-12)
        held = [i for i, _ in seen[t]["pred"]]
        c.ok(not set(held) & seen[t]["fit"], "confusion tables use held-out series")
    c.cover("trained-K%d" % K)


def _swap_future(c, X, t):
    """The same prefix with another, possibly extreme, continuation."""
    Z = X.copy()
    kind = c.choice(["noise", "huge", "const", "other"])
    tail = Z[:, t:]
    if kind == "noise":
        tail[:] = 5 * c.rng.randn(*tail.shape)
    elif kind == "huge":
        tail[:] = 1e6 * c.choice([-1, 1])
    elif kind == "const":
        tail[:] = 0.
    else:
        tail[:] = tail[::-1].copy()
    return Z


def causal(c):
    """Any continuation leaves earlier decisions, delays and classes alone;
    streaming gives what batch prediction on each prefix gives."""
    X, y, k, sz, d, ties = _data(c)
    base, bk = _base(c)
    proba = bk != "svc"
    m, kw = _model(c, sz, base, alpha=float(c.choice([1e-3, .02, .05, .1])))
    c.note(X=X, y=y, params=kw, base=bk)
    _fit(c, m, X, y)
    Xt = X[c.rng.permutation(len(X))[:5]]
    if not ties:
        Xt = Xt + .3 * c.rng.randn(*Xt.shape)
    pred, times = m.predict_class_and_earliness(Xt)
    if proba:
        pp, tt = m.predict_proba_and_earliness(Xt)
        c.equal([int(t) for t in tt], [int(t) for t in times], "probabilities are given at the same times")
        c.close(to_np(pp).sum(1), np.ones(len(Xt)), "probabilities are normalised", rtol=1e-9)
        c.close(m.predict_proba(Xt), pp, "predict_proba gives the probabilities", rtol=0, atol=0)
        if bk == "none":
            c.equal(list(np.asarray(m.classes_)[np.argmax(pp, 1)]), list(pred), "the class is the most probable one")
    for x, p, t in zip(Xt, pred, times):
        t = int(t)
        if t < sz:
            for _ in range(2):
                q, u = m.predict_class_and_earliness(_swap_future(c, x[None], t))
                c.ok(int(u[0]) == t and q[0] == p, "a continuation leaves an earlier decision unchanged")
                c.event("futures swapped")
        # the decision is the first prefix with no delay, with its class
        for u in range(kw["min_t"], t + 1):
            e, w = m.early_predict(x[None, :u])
            c.ok((w[0] == 0) == (u == t) or (u == sz and t == sz), "the decision time is the first prefix without delay")
        c.equal(e[0], p, "the class is that of early_predict on the prefix")
    # batch versus alone
    for i in range(len(Xt)):
        q, u = m.predict_class_and_earliness(Xt[i:i + 1])
        c.ok(q[0] == pred[i] and u[0] == times[i], "a series alone gets the decision it gets in a batch")
    # streaming, in chunks, with ignored and invalid messages
    n = len(Xt)
    g = m.get_early_predict_generator(n_ts=n)
    gp = m.get_early_predict_proba_generator(n_ts=n) if proba else None
    other = m.get_early_predict_generator(n_ts=1)
    at = 0
    while at < sz:
        step = int(c.choice([1, 1, 2]))
        chunk = Xt[:, at:min(at + step, sz)]
        chunk = c.choice([chunk, chunk.tolist()])
        if c.rng.rand() < .3:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                r = g.send(c.choice([1, np.zeros((n + 1, 1, d)), np.zeros((n, 1, d + 1))]))
            c.ok(any(issubclass(w.category, RuntimeWarning) for w in ws), "ill-formed time stamps give a warning")
            if at:
                _same_pred(c, r, m.early_predict(Xt[:, :at]), "ill-formed time stamps are ignored")
        at = min(at + step, sz)
        r = g.send(chunk)
        _same_pred(c, r, m.early_predict(Xt[:, :at]), "streaming gives the predictions of the prefix")
        if gp is not None:
            _same_pred(c, gp.send(chunk), m.early_predict_proba(Xt[:, :at]), "streaming gives the probabilities of the prefix")
        if c.rng.rand() < .5:
            other.send(np.full((1, 1, d), 9.)) if at <= sz - 1 and other is not None else None
            other = m.get_early_predict_generator(n_ts=1)
        c.event("chunks streamed")
    c.raises((ValueError,), lambda: g.send(Xt[:, :1]), "more time stamps than the training series are refused")
    c.cover("causal-%s-%s" % (bk, "ties" if ties else "gen"))


def _same_pred(c, got, want, what):
    for a, b in zip(got, want):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "fi" and b.dtype.kind in "fi":
            c.close(a.astype(float), b.astype(float), what, rtol=0, atol=0)
        else:
            c.equal(list(a), list(b), what)


def varlen(c):
    """Batches of prefixes of different lengths give each series what it gets alone."""
    X, y, k, sz, d, ties = _data(c)
    y = np.unique(y, return_inverse=True)[1]
    m, kw = _model(c, sz)
    c.note(X=X, y=y, params=kw)
    _fit(c, m, X, y)
    L = [int(c.rng.randint(kw["min_t"], sz + 1)) for _ in range(4)]
    A = [X[i, :l] for i, l in enumerate(L)]
    for x, l in zip(A, L):
        p1 = m.early_predict(x[None])
        p2 = m.early_predict(x[None].tolist())
        _same_pred(c, p2, p1, "lists and arrays of prefixes agree")
        for other in range(len(X)):
            if np.array_equal(X[other, :l], x):
                _same_pred(c, m.early_predict(X[other, :l][None]), p1, "equal prefixes get equal predictions")
    c.cover("varlen")


def stopped(c):
    """Series followed together, some of which stop (missing from then on),
    get what they get when followed alone up to where they stopped."""
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier
    X, y, k, sz, d, ties = _data(c)
    y = np.unique(y, return_inverse=True)[1]
    bk = c.choice(["none", "dtw"])
    m, kw = _model(c, sz, KNeighborsTimeSeriesClassifier(n_neighbors=1, metric="dtw") if bk == "dtw" else None)
    c.note(X=X, y=y, params=kw, base=bk)
    _fit(c, m, X, y)
    n = int(c.rng.randint(2, 6))
    Xt = X[c.rng.permutation(len(X))[:n]]
    if not ties:
        Xt = Xt + .3 * c.rng.randn(*Xt.shape)
    stop = c.rng.randint(1, sz + 1, n)
    stop[c.rng.randint(n)] = sz
    g, gp = m.get_early_predict_generator(n_ts=n), m.get_early_predict_proba_generator(n_ts=n)
    for t in range(sz):
        chunk = Xt[:, t:t + 1].copy()
        chunk[stop <= t] = np.nan
        got, gotp = g.send(chunk), gp.send(chunk)
        for i in range(n):
            x = Xt[i, :min(t + 1, int(stop[i]))]
            want, wantp = m.early_predict(x[None]), m.early_predict_proba(x[None])
            _same_pred(c, [got[0][i:i + 1], got[1][i:i + 1]], want, "a stopped series keeps the prediction of its own prefix")
            _same_pred(c, [gotp[0][i:i + 1], gotp[1][i:i + 1]], wantp, "a stopped series keeps the probabilities of its own prefix")
        c.event("stopped series followed", int((stop <= t).sum()))
    c.cover("stopped-%s-%d" % (bk, int((stop < sz).sum())))


def refuse(c):
    from sklearn.exceptions import NotFittedError
    X, y, k, sz, d, _ = _data(c)
    m, kw = _model(c, sz)
    for f in ("predict", "predict_proba", "early_predict", "early_predict_proba", "predict_class_and_earliness"):
        c.raises((NotFittedError,), lambda: getattr(m, f)(X), "an unfitted model is refused by %s" % f)
    c.raises((NotFittedError,), lambda: m.get_early_predict_generator(), "an unfitted model is refused by the generator")
    _fit(c, m, X, y)
    c.raises((ValueError,), lambda: m.predict(np.concatenate([X, X], 2)), "a wrong number of features is refused")
    c.raises((ValueError,), lambda: m.early_predict(np.concatenate([X, X], 1)), "too long series are refused")
    p = m.predict(X)
    m2, _ = _model(c, sz)
    m2.set_params(**m.get_params())
    _fit(c, m2, X, y)
    c.equal(list(m2.predict(X)), list(p), "a seeded model is reproducible")
    c.cover("refuse")


WORKLOADS = [W(definition, 40), W(trained, 24), W(causal, 40), W(varlen, 8), W(stopped, 16), W(refuse, 8)]

META = dict(
    technique="runtime monitoring: causality monitor that swaps the future of each decided series, recorded training calls, and a step-by-step checker of the documented decision rule",
    rule="With the exposed cluster centres and tables, each decision time is the first t>=min_t whose documented expected cost is minimal at t, the class is that of "
         "classifier t on the prefix, and replacing everything after t changes neither; streams equal early_predict on each prefix; the tables are the "
         "frequencies of the recorded training-time predictions.",
    note="Decision times are judged against the formula only when no two horizons tie within 1e-9 (ties are judged by the causality and streaming monitors).",
    assumptions="the clustering and the base classifiers are judged by their own properties (P22, P25, P26)",
)
