"""A zoo of configured estimators with data, used by the generic monitors
(persistence, histories, batches, padding, threads)."""
import inspect
import warnings

import numpy as np

from vmon import gen
from vmon.core import to_np


def fast_shapelet_init():
    """Fewer candidate windows for the initial clustering (speed only)."""
    import tslearn.shapelets.shapelets as S
    f = getattr(S, "_kmeans_init_shapelets", None)
    if f is not None and not getattr(f, "fast", False):
        try:
            if "n_draw" in inspect.signature(f).parameters:
                def g(*a, **k):
                    k.setdefault("n_draw", 120)
                    return f(*a, **k)
                g.fast = True
                S._kmeans_init_shapelets = g
        except (TypeError, ValueError):
            pass


class Model:
    """One estimator configuration.

    make()      a new unfitted estimator
    A, y, Q     training series, targets (or None), query series (lists)
    calls       name -> function(estimator, padded queries)
    state       name -> function(estimator): fitted results
    ragged      whether A / Q may have unequal lengths
    flags       free-form facts used by the checks
    """

    def __init__(self, name, cls, params, A, y, Q, calls, state=(), **flags):
        self.name, self.cls, self.params = name, cls, params
        self.A, self.y, self.Q, self.calls = A, y, Q, calls
        self.state = dict(state)
        self.flags = flags

    def make(self):
        return self.cls(**_clone(self.params))

    def fit(self, est, A=None, y="own", extra=0):
        X = gen.pad(self.A if A is None else A, extra)
        y = self.y if isinstance(y, str) else y
        with quiet():
            if y is None:
                return est.fit(X)
            return est.fit(X, y)

    def outputs(self, est, Q=None, extra=0, names=None):
        Qp = gen.pad(self.Q if Q is None else Q, extra)
        out = {}
        with quiet():
            for k, f in self.calls.items():
                if names is None or k in names:
                    out[k] = as_np(f(est, Qp.copy()))
        return out

    def fitted(self, est):
        with quiet():
            return {k: as_np(f(est)) for k, f in self.state.items()}


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        return self.w.__exit__(*a)


def _clone(p):
    if isinstance(p, dict):
        return {k: _clone(v) for k, v in p.items()}
    if isinstance(p, np.ndarray):
        return p.copy()
    if hasattr(p, "get_params"):
        from sklearn.base import clone
        return clone(p)
    return p


def as_np(v):
    if isinstance(v, (tuple, list)) and not (len(v) and np.isscalar(v[0])):
        return [as_np(x) for x in v]
    if isinstance(v, dict):
        return {k: as_np(x) for k, x in v.items()}
    if v is None or isinstance(v, str):
        return v
    return to_np(v)


def same(a, b, rtol=0., atol=0.):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        if a.ndim == 0:
            x, y = a.item(), b.item()
            return x is y or type(x) is type(y) and (not hasattr(x, "__eq__") or bool(np.all(x == y)))
        return all(same(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "fc" and b.dtype.kind in "fciu" or b.dtype.kind in "fc" and a.dtype.kind in "iu":
        if rtol == 0. and atol == 0.:
            # parallel reductions may differ in the last bits
            return np.array_equal(a, b, equal_nan=True) or np.allclose(a, b, rtol=1e-12, atol=0., equal_nan=True)
        return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    return np.array_equal(a, b)


# -- data ------------------------------------------------------------------
def blobs(rng, n, k=2, lo=4, hi=9, d=None, equal=None, ties=False, noise=.25):
    """n labelled series around k random prototypes; at least one is longest."""
    d = d or gen.dim(rng, 2)
    equal = rng.rand() < .4 if equal is None else equal
    L = int(rng.randint(lo, hi + 1))
    proto = [np.cumsum(rng.randn(hi, d), 0) + 1.5 * rng.randn(1, d) for _ in range(k)]
    lab = np.arange(n) % k
    A = []
    for i in range(n):
        l = L if equal else int(rng.randint(lo, L + 1))
        x = proto[lab[i]][:l] + noise * rng.randn(l, d)
        if ties:
            x = np.round(x)
        A.append(x)
    if not equal:
        l = L
        A[0] = proto[0][:l] + noise * rng.randn(l, d)
        if ties:
            A[0] = np.round(A[0])
    return A, lab, d, L


NAMES = [None, np.array(["zeta", "alpha", "mid"]), np.array([7, -1, 3]), np.array([1., 0., 5.])]


def _labels(rng, lab):
    names = NAMES[rng.randint(len(NAMES))]
    return lab if names is None else names[lab]


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def _split(rng, n, nq, k=2, **kw):
    A, lab, d, L = blobs(rng, n + nq, k, **kw)
    return A[:n], lab[:n], A[n:], d, L


VL_METRICS = ["dtw", "softdtw", "frechet", "ctw", "sax"]
FLAT_METRICS = ["euclidean", "sqeuclidean", "cityblock"]


def _metric(rng, equal, heavy=True):
    """metric, metric_params usable with (equal or ragged) series >= 4 long."""
    ms = ["dtw", "dtw", "softdtw", "frechet", "sax"] + (["ctw"] if heavy else [])
    if equal:
        ms += FLAT_METRICS
    m = pick(rng, ms)
    mp = None
    if m == "dtw" and rng.rand() < .4:
        mp = pick(rng, [{"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}, {"sakoe_chiba_radius": 3}] + ([{"itakura_max_slope": 2.5}] if equal else []))
    elif m == "softdtw" and rng.rand() < .6:
        mp = {"gamma": float(pick(rng, [.1, 1., 2.]))}
    elif m == "sax" and rng.rand() < .85:
        mp = {"n_segments": int(rng.randint(1, 4)), "alphabet_size_avg": int(rng.randint(2, 9))}
    elif m == "ctw" and rng.rand() < .3:
        mp = {"max_iter": 2, "n_components": 1}
    elif m == "frechet" and rng.rand() < .3:
        mp = {"sakoe_chiba_radius": 3}
    return m, mp


def _knn_common(rng, n, equal, heavy=True):
    m, mp = _metric(rng, equal, heavy)
    return dict(n_neighbors=int(rng.randint(1, min(n, 4) + 1)), metric=m, metric_params=mp)


def _data_ab(rng, ties=None, k=None, n=None, **kw):
    equal = rng.rand() < .45
    k = k or int(rng.randint(2, 4))
    n = n or int(rng.randint(k + 3, 10))
    ties = rng.rand() < .2 if ties is None else ties
    A, lab, Q, d, L = _split(rng, n, int(rng.randint(2, 6)), k, equal=equal, ties=ties, **kw)
    return A, lab, Q, d, L, equal, n, k, ties


def knn(rng, ties=None, heavy=True):
    from tslearn.neighbors import KNeighborsTimeSeries
    A, lab, Q, d, L, equal, n, k, ties = _data_ab(rng, ties)
    p = _knn_common(rng, n, equal, heavy and not ties)   # no canonical correlations of constants
    return Model("knn", KNeighborsTimeSeries, p, A, None, Q,
                 {"kneighbors": lambda e, X: e.kneighbors(X)},
                 {"kneighbors_self": lambda e: e.kneighbors(n_neighbors=min(p["n_neighbors"], n - 1))},
                 ragged=p["metric"] in VL_METRICS, save=True, det=True, metric=p["metric"], may_fail=p["metric"] == "ctw")


def knn_clf(rng, ties=None, heavy=True):
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier
    A, lab, Q, d, L, equal, n, k, ties = _data_ab(rng, ties)
    p = _knn_common(rng, n, equal, heavy and not ties)   # no canonical correlations of constants
    p["weights"] = "distance" if rng.rand() < .4 and p["metric"] != "softdtw" else "uniform"
    return Model("knn_clf", KNeighborsTimeSeriesClassifier, p, A, _labels(rng, lab), Q,
                 {"predict": lambda e, X: e.predict(X), "predict_proba": lambda e, X: e.predict_proba(X), "kneighbors": lambda e, X: e.kneighbors(X)},
                 {"classes_": lambda e: e.classes_},
                 ragged=p["metric"] in VL_METRICS, save=True, det=True, metric=p["metric"], may_fail=p["metric"] == "ctw")


def knn_reg(rng, ties=None, heavy=True):
    from tslearn.neighbors import KNeighborsTimeSeriesRegressor
    A, lab, Q, d, L, equal, n, k, ties = _data_ab(rng, ties)
    p = _knn_common(rng, n, equal, heavy and not ties)   # no canonical correlations of constants
    p["weights"] = "distance" if rng.rand() < .4 and p["metric"] != "softdtw" else "uniform"
    y = rng.randn(n) if rng.rand() < .7 else rng.randn(n, 2)
    return Model("knn_reg", KNeighborsTimeSeriesRegressor, p, A, y, Q,
                 {"predict": lambda e, X: e.predict(X), "kneighbors": lambda e, X: e.kneighbors(X)},
                 ragged=p["metric"] in VL_METRICS, save=True, det=True, metric=p["metric"], may_fail=p["metric"] == "ctw")


def svc(rng, ties=None, **_):
    from tslearn.svm import TimeSeriesSVC
    A, lab, Q, d, L, equal, n, k, ties = _data_ab(rng, False, n=int(rng.randint(8, 13)))
    kern = pick(rng, ["gak", "gak", "gak", "linear", "rbf", "poly"] if equal else ["gak"])
    p = dict(kernel=kern, C=float(pick(rng, [.3, 1., 10.])), gamma=pick(rng, ["auto", "auto", 1., .3]), random_state=int(rng.randint(100)))
    if kern == "poly":
        p.update(degree=2, coef0=1.)
    return Model("svc", TimeSeriesSVC, p, A, _labels(rng, lab), Q,
                 {"predict": lambda e, X: e.predict(X), "decision_function": lambda e, X: e.decision_function(X)},
                 {"support_": lambda e: e.support_, "dual_coef_": lambda e: e.dual_coef_},
                 ragged=kern == "gak", det=True, metric=kern, libsvm=True)


def svr(rng, ties=None, **_):
    from tslearn.svm import TimeSeriesSVR
    A, lab, Q, d, L, equal, n, k, ties = _data_ab(rng, False, n=int(rng.randint(6, 12)))
    kern = pick(rng, ["gak", "gak", "linear", "rbf"] if equal else ["gak"])
    p = dict(kernel=kern, C=float(pick(rng, [.3, 1., 5.])), gamma=pick(rng, ["auto", 1.]), epsilon=float(pick(rng, [.1, .01])), random_state=int(rng.randint(100)))
    y = np.array([x.mean() for x in A]) + .2 * rng.randn(n)
    return Model("svr", TimeSeriesSVR, p, A, y, Q, {"predict": lambda e, X: e.predict(X)},
                 {"support_": lambda e: e.support_, "dual_coef_": lambda e: e.dual_coef_},
                 ragged=kern == "gak", det=True, metric=kern, libsvm=True)


def kmeans(rng, ties=None, **_):
    from tslearn.clustering import TimeSeriesKMeans
    equal = rng.rand() < .5
    m = pick(rng, ["dtw", "dtw", "softdtw"] + (["euclidean", "euclidean"] if equal else []))
    k = int(rng.randint(1, 4))
    n = int(rng.randint(k + 3, 10))
    A, lab, Q, d, L = _split(rng, n, 4, max(k, 2), equal=equal, hi=7)
    p = dict(n_clusters=k, metric=m, max_iter=int(pick(rng, [1, 3])), n_init=int(pick(rng, [1, 1, 2])), random_state=int(rng.randint(100)),
             init=pick(rng, ["k-means++", "random"]), max_iter_barycenter=int(pick(rng, [2, 5])))
    if m == "softdtw" and rng.rand() < .5:
        p["metric_params"] = {"gamma": .5}
    if m == "dtw" and rng.rand() < .3:
        p["metric_params"] = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 3}
    if rng.rand() < .15:
        L0 = max(len(x) for x in A)
        c = [x for x in A if len(x) == L0]
        p["init"] = np.array([c[i % len(c)] + .1 * i for i in range(k)])
    return Model("kmeans", TimeSeriesKMeans, p, A, None, Q,
                 {"predict": lambda e, X: e.predict(X), "transform": lambda e, X: e.transform(X)},
                 {"labels_": lambda e: e.labels_, "cluster_centers_": lambda e: e.cluster_centers_, "inertia_": lambda e: e.inertia_, "n_iter_": lambda e: e.n_iter_},
                 ragged=m != "euclidean", save=True, seeded=True, metric=m)


def kernel_kmeans(rng, ties=None, **_):
    from tslearn.clustering import KernelKMeans
    equal = rng.rand() < .5
    kern = pick(rng, ["gak", "gak", "gak"] + (["rbf", "linear"] if equal else []))
    k = int(rng.randint(1, 4))
    n = int(rng.randint(k + 3, 10))
    A, lab, Q, d, L = _split(rng, n, 4, max(k, 2), equal=equal)
    p = dict(n_clusters=k, kernel=kern, max_iter=20, n_init=int(pick(rng, [1, 2, 5])), random_state=int(rng.randint(100)))
    if kern == "gak" and rng.rand() < .6:
        p["kernel_params"] = {"sigma": pick(rng, ["auto", 2.])}
    if kern == "rbf":
        p["kernel_params"] = {"gamma": .1}
    return Model("kernel_kmeans", KernelKMeans, p, A, None, Q, {"predict": lambda e, X: e.predict(X)},
                 {"labels_": lambda e: e.labels_, "inertia_": lambda e: e.inertia_},
                 ragged=kern == "gak", save=True, seeded=True, metric=kern, may_fail=True)


def kshape(rng, ties=None, **_):
    from tslearn.clustering import KShape
    k = int(rng.randint(1, 4))
    n = int(rng.randint(k + 3, 10))
    A, lab, Q, d, L = _split(rng, n, 4, max(k, 2), equal=True, lo=5)
    Q = [x[:len(A[0])] for x in Q]
    p = dict(n_clusters=k, max_iter=int(pick(rng, [2, 10])), n_init=int(pick(rng, [1, 2])), random_state=int(rng.randint(100)))
    return Model("kshape", KShape, p, A, None, Q, {"predict": lambda e, X: e.predict(X)},
                 {"labels_": lambda e: e.labels_, "cluster_centers_": lambda e: e.cluster_centers_, "inertia_": lambda e: e.inertia_},
                 ragged=False, save=True, seeded=True, metric="sbd", may_fail=True)


def dbscan(rng, ties=None, **_):
    from tslearn.clustering import TimeSeriesDBSCAN
    equal = rng.rand() < .5
    m = pick(rng, ["dtw", "frechet", "softdtw_normalized"] + (["euclidean"] if equal else []))
    n = int(rng.randint(4, 12))
    A, lab, Q, d, L = _split(rng, n, 2, 3, equal=equal)
    p = dict(eps=float(pick(rng, [.8, 1.7, 3.])), min_ts=int(rng.randint(1, 5)), metric=m)
    return Model("dbscan", TimeSeriesDBSCAN, p, A, None, Q, {},
                 {"labels_": lambda e: e.labels_, "core": lambda e: e.core_ts_indices_},
                 ragged=m != "euclidean", save=True, det=True, metric=m)


def shapelets(rng, ties=None, **_):
    from tslearn.shapelets import LearningShapelets
    fast_shapelet_init()
    k = int(rng.randint(2, 4))
    n = int(rng.randint(k + 3, 9))
    equal = rng.rand() < .4
    A, lab, Q, d, L = _split(rng, n, 4, k, equal=equal, lo=4)
    p = dict(n_shapelets_per_size={int(rng.randint(2, 4)): int(rng.randint(1, 3))}, max_iter=1, batch_size=int(pick(rng, [4, 256])),
             optimizer=pick(rng, ["sgd", "adam"]), weight_regularizer=float(pick(rng, [0., .01])), scale=bool(rng.rand() < .35), random_state=int(rng.randint(1000)))
    if rng.rand() < .3:
        p["n_shapelets_per_size"][4] = 1
    if rng.rand() < .5:
        p["max_size"] = L + int(rng.randint(0, 4))
    return Model("shapelets", LearningShapelets, p, A, _labels(rng, lab), Q,
                 {"predict": lambda e, X: e.predict(X), "predict_proba": lambda e, X: e.predict_proba(X), "transform": lambda e, X: e.transform(X), "locate": lambda e, X: e.locate(X)},
                 {"shapelets_": lambda e: list(e.shapelets_), "weights": lambda e: e.get_weights()},
                 ragged=True, save=["json", "pickle"], seeded=True, metric="shapelets", float32=True, slow=True)


def mlp_clf(rng, ties=None, **_):
    from tslearn.neural_network import TimeSeriesMLPClassifier
    k = int(rng.randint(2, 4))
    A, lab, Q, d, L = _split(rng, int(rng.randint(8, 14)), 4, k, equal=True)
    p = dict(hidden_layer_sizes=(int(rng.randint(2, 6)),), max_iter=int(pick(rng, [3, 10])), random_state=int(rng.randint(100)), solver=pick(rng, ["adam", "lbfgs", "sgd"]))
    return Model("mlp_clf", TimeSeriesMLPClassifier, p, A, _labels(rng, lab), Q,
                 {"predict": lambda e, X: e.predict(X), "predict_proba": lambda e, X: e.predict_proba(X)},
                 {"coefs_": lambda e: e.coefs_}, ragged=False, seeded=True, metric="mlp")


def mlp_reg(rng, ties=None, **_):
    from tslearn.neural_network import TimeSeriesMLPRegressor
    A, lab, Q, d, L = _split(rng, int(rng.randint(8, 14)), 4, 2, equal=True)
    p = dict(hidden_layer_sizes=(int(rng.randint(2, 6)),), max_iter=int(pick(rng, [3, 10])), random_state=int(rng.randint(100)), solver=pick(rng, ["adam", "lbfgs"]))
    return Model("mlp_reg", TimeSeriesMLPRegressor, p, A, np.array([x.mean() for x in A]), Q,
                 {"predict": lambda e, X: e.predict(X)}, {"coefs_": lambda e: e.coefs_}, ragged=False, seeded=True, metric="mlp")


def early(rng, ties=None, **_):
    from tslearn.early_classification import NonMyopicEarlyClassifier
    from tslearn.neighbors import KNeighborsTimeSeriesClassifier
    k = int(rng.randint(2, 4))
    A, lab, Q, d, L = _split(rng, int(rng.randint(10, 16)), 4, k, equal=True, noise=.6)
    p = dict(n_clusters=int(rng.randint(1, 4)), base_classifier=KNeighborsTimeSeriesClassifier(n_neighbors=1, metric="euclidean"), min_t=int(rng.randint(1, 4)),
             lamb=float(pick(rng, [1., 10., 100.])), cost_time_parameter=float(pick(rng, [0., .01, .3])), random_state=int(rng.randint(100)))
    return Model("early", NonMyopicEarlyClassifier, p, A, _labels(rng, lab), Q,
                 {"predict": lambda e, X: e.predict(X), "predict_proba": lambda e, X: e.predict_proba(X),
                  "predict_class_and_earliness": lambda e, X: e.predict_class_and_earliness(X)},
                 {"classes_": lambda e: e.classes_}, ragged=False, seeded=True, metric="early", may_fail=True)


def varima(rng, ties=None, **_):
    from tslearn.forecasting import VARIMA
    p = dict(p=int(rng.randint(0, 3)), d=int(pick(rng, [0, 0, 1, 2])), q=int(pick(rng, [0, 0, 0, 1])), with_constant=bool(rng.rand() < .6), max_iter=3)
    if rng.rand() < .25:
        p["seasonal_period"] = int(rng.randint(1, 4))
    lo = 14
    n = int(rng.randint(1, 5))
    d = gen.dim(rng, 2)
    equal = rng.rand() < .5
    L = int(rng.randint(lo, 22))
    mk = lambda: np.cumsum(rng.randn(L if equal else int(rng.randint(lo, L + 1)), d) * .5, 0)
    A = [mk() for _ in range(n)]
    Q = [mk() for _ in range(3)]
    h = int(rng.randint(1, 5))
    return Model("varima", VARIMA, p, A, None, Q, {"predict": lambda e, X: e.predict(X, n=h)},
                 {"forecast": lambda e: e.predict(n=h), "ar": lambda e: e.ar_coeffs_, "ma": lambda e: e.ma_coeffs_, "cst": lambda e: e.intercept_, "lle": lambda e: e.lle_},
                 ragged=True, save=True, det=True, metric="varima", mean_fit=True)


def autovarima(rng, ties=None, **_):
    from tslearn.forecasting import AutoVARIMA
    p = dict(max_p=int(rng.randint(1, 3)), max_q=int(pick(rng, [0, 1])), max_d=1)
    n = int(rng.randint(1, 3))
    d = 1
    equal = rng.rand() < .5
    L = int(rng.randint(24, 32))
    mk = lambda: np.cumsum(rng.randn(L if equal else int(rng.randint(24, L + 1)), d) * .5, 0)
    A, Q = [mk() for _ in range(n)], [mk() for _ in range(2)]
    h = int(rng.randint(1, 4))
    return Model("autovarima", AutoVARIMA, p, A, None, Q, {"predict": lambda e, X: e.predict(X, n=h)},
                 {"forecast": lambda e: e.predict(n=h)}, ragged=True, save=True, det=True, metric="varima", slow=True, mean_fit=True)


def _transformer(name, cls, p, rng, ragged=True, lo=3, d=None, transform=None, state=(), **flags):
    equal = rng.rand() < .4
    A, lab, Q, d, L = _split(rng, int(rng.randint(1, 6)), int(rng.randint(1, 5)), 2, equal=equal or not ragged, lo=lo, ties=rng.rand() < .2, d=d)
    if not ragged:
        Q = [x[:len(A[0])] for x in Q]
    calls = {"transform": transform or (lambda e, X: e.transform(X))}
    return Model(name, cls, p, A, None, Q, calls, state, ragged=ragged, det=True, metric=name, **flags)


def minmax(rng, **_):
    from tslearn.preprocessing import TimeSeriesScalerMinMax
    p = dict(value_range=pick(rng, [(0., 1.), (-1., 2.)]), per_timeseries=bool(rng.rand() < .5), per_feature=bool(rng.rand() < .5))
    return _transformer("minmax", TimeSeriesScalerMinMax, p, rng, keeps_time=True)


def meanvar(rng, **_):
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance
    p = dict(mu=float(pick(rng, [0., 3.])), std=float(pick(rng, [1., 2.])), per_timeseries=bool(rng.rand() < .5), per_feature=bool(rng.rand() < .5))
    return _transformer("meanvar", TimeSeriesScalerMeanVariance, p, rng, keeps_time=True)


def resampler(rng, **_):
    from tslearn.preprocessing import TimeSeriesResampler
    return _transformer("resampler", TimeSeriesResampler, dict(sz=int(rng.randint(2, 12))), rng)


def imputer(rng, **_):
    from tslearn.preprocessing import TimeSeriesImputer
    p = dict(method=pick(rng, ["mean", "median", "linear", "ffill", "bfill", "constant"]))
    if p["method"] == "constant":
        p["value"] = 7.
    m = _transformer("imputer", TimeSeriesImputer, p, rng, keeps_time=True)
    for x in m.A + m.Q:     # inner gaps; first and last stay observed
        for i in range(1, len(x) - 1):
            if rng.rand() < .3:
                x[i] = np.nan
    return m


def synchronizer(rng, **_):
    from tslearn.preprocessing import TimeSeriesFeatureSynchronizer
    m = _transformer("synchronizer", TimeSeriesFeatureSynchronizer, dict(reference_feature_index=int(rng.randint(0, 2))), rng, d=2)
    m.flags["keeps_time"] = True
    return m


def paa(rng, **_):
    from tslearn.piecewise import PiecewiseAggregateApproximation
    return _transformer("paa", PiecewiseAggregateApproximation, dict(n_segments=int(rng.randint(1, 4))), rng, save=True)


def sax(rng, **_):
    from tslearn.piecewise import SymbolicAggregateApproximation
    p = dict(n_segments=int(rng.randint(1, 4)), alphabet_size_avg=int(rng.randint(2, 9)), scale=bool(rng.rand() < .4))
    return _transformer("sax", SymbolicAggregateApproximation, p, rng, save=True)


def sax1d(rng, **_):
    from tslearn.piecewise import OneD_SymbolicAggregateApproximation
    p = dict(n_segments=int(rng.randint(1, 4)), alphabet_size_avg=int(rng.randint(2, 9)), alphabet_size_slope=int(rng.randint(2, 7)), scale=bool(rng.rand() < .4))
    if rng.rand() < .4:
        p["sigma_l"] = .5
    return _transformer("sax1d", OneD_SymbolicAggregateApproximation, p, rng, save=True)


def matrix_profile(rng, **_):
    from tslearn.matrix_profile import MatrixProfile
    p = dict(subsequence_length=int(rng.randint(2, 5)), implementation="numpy", scale=bool(rng.rand() < .5))
    return _transformer("matrix_profile", MatrixProfile, p, rng, save=True, d=1, lo=5, keeps_time=True)


ALL = {f.__name__: f for f in [knn, knn_clf, knn_reg, svc, svr, kmeans, kernel_kmeans, kshape, dbscan, shapelets, mlp_clf, mlp_reg, early, varima, autovarima,
                               minmax, meanvar, resampler, imputer, synchronizer, paa, sax, sax1d, matrix_profile]}
SAVED = ["knn", "knn_clf", "knn_reg", "kmeans", "kernel_kmeans", "kshape", "dbscan", "shapelets", "varima", "autovarima", "paa", "sax", "sax1d", "matrix_profile"]
WEIGHTS = {"shapelets": .35, "autovarima": .3, "early": .5}


def draw(c, names=None, ties=None, heavy=True):
    """A random configured estimator with data; noted for replay."""
    names = list(names or ALL)
    w = np.array([WEIGHTS.get(k, 1.) for k in names])
    name = names[int(c.rng.choice(len(names), p=w / w.sum()))]
    m = ALL[name](c.rng, ties=ties, heavy=heavy) if ALL[name].__code__.co_argcount > 1 else ALL[name](c.rng)
    c.note(model=name, params={k: v for k, v in m.params.items()}, X=m.A, y=m.y, Q=m.Q)
    c.cover(name, m.flags.get("metric"), tuple(sorted((k, str(v)) for k, v in m.params.items() if isinstance(v, (str, bool)))), len({len(x) for x in m.A}) > 1)
    return m
