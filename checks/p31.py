"""P31: random call histories on one estimator, with failing calls and injected faults."""
import copy
import sys

import numpy as np

from checks.p16 import _deep, _params, _same_params
from vmon import gen, zoo
from vmon.core import W

REPO_MARK = "tslearn"


class Injected(RuntimeError):
    pass


class _Inject:
    """Raise at the k-th call of a tslearn Python function (k=None: only count)."""

    def __init__(self, k=None):
        self.k, self.n, self.where = k, 0, None

    def _hook(self, frame, event, arg):
        if event != "call":
            return
        co = frame.f_code
        if "/tslearn/" in co.co_filename and not co.co_name.startswith("<"):
            self.n += 1
            if self.n == self.k:
                sys.setprofile(None)
                self.where = "%s:%s" % (co.co_filename.rsplit("/", 1)[-1], co.co_name)
                raise Injected("injected at call %d, %s" % (self.n, self.where))

    def __enter__(self):
        sys.setprofile(self._hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def _public(e):
    """Public fitted attributes (copied)."""
    out = {}
    for k, v in vars(e).items():
        if k.endswith("_") and not k.startswith("_") and not k.startswith("model"):
            try:
                out[k] = copy.deepcopy(v)
            except Exception:
                pass
    return out


def _changed(a, b):
    return sorted(k for k in set(a) | set(b) if not (k in a and k in b and _deep(a[k], b[k])))


class _Data:
    """An input handed to the library, with the copy it must still equal afterwards."""

    def __init__(self, obj):
        self.obj, self.ref = obj, copy.deepcopy(obj)

    def intact(self):
        a, b = self.obj, self.ref
        if isinstance(a, list):
            return len(a) == len(b) and all(zoo.same(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))
        return a.dtype == b.dtype and zoo.same(a, b)


def _form(c, A, m):
    """The same dataset as an array (C, Fortran or strided) or a list of arrays."""
    X = gen.pad(A)
    k = c.choice(["array", "array", "fortran", "strided", "nested"])
    if k == "fortran":
        return np.asfortranarray(X)
    if k == "strided":
        B = np.full((len(X), 2 * X.shape[1], X.shape[2] + 1), 9.)
        B[:, ::2, :-1] = X
        return B[:, ::2, :-1]
    return X


def _queries(m, A=None):
    return gen.pad(m.Q if A is None else A)


def _bad_queries(c, m):
    """Inputs that calls should not accept (or at least survive)."""
    X = gen.pad(m.Q)
    k = c.choice(["features", "features", "nan", "empty", "string", "none", "ndim4", "object", "inf"])
    if k == "features":
        return k, np.concatenate([X, X[:, :, :1]], 2)
    if k == "nan":
        return k, np.full_like(X, np.nan)
    if k == "empty":
        return k, X[:0]
    if k == "string":
        return k, [["a", "b"], ["c"]]
    if k == "none":
        return k, None
    if k == "ndim4":
        return k, X[..., None, None]
    if k == "object":
        return k, [[1., object()], [2., 3.]]
    Y = X.copy()
    Y[0, 0] = np.inf
    return k, Y


def _same_out(a, b):
    return set(a) == set(b) and all(zoo.same(a[k], b[k]) for k in a)


def _differs(a, b):
    return [k for k in a if k not in b or not zoo.same(a[k], b[k])]


def _fit(c, m, e, A, y):
    X = _Data(_form(c, A, m))
    yd = None if y is None else _Data(np.array(y))
    with zoo.quiet():
        r = e.fit(X.obj) if yd is None else e.fit(X.obj, yd.obj)
    c.ok(r is e, "fit returns the estimator")
    c.ok(X.intact(), "fit leaves the training series unchanged")
    c.ok(yd is None or yd.intact(), "fit leaves the targets unchanged")
    c.event("fits")


def _outputs(c, m, e):
    try:
        return m.outputs(e)
    except Exception:
        if m.flags.get("may_fail"):      # no usable model on these data
            c.skip()
        raise


def _second(c, m):
    """Another training set for the same estimator."""
    k = c.rng.randint(3)
    s = float(c.choice([1., -1., 2.]))
    A = [s * x + .1 * (c.rng.randn(*x.shape) if not np.isnan(x).any() else 0.) for x in m.A]
    y = m.y
    if k == 0 and len(A) > 6 and not m.flags.get("mean_fit"):
        A, y = A[:-1], None if y is None else y[:-1]
    elif k == 1 and m.flags.get("ragged") and not m.flags.get("mean_fit") and not m.flags.get("keeps_time"):
        A = [np.concatenate([x, x[-1:]]) for x in A]
    return A, y


ALT = {
    "n_neighbors": [1, 2, 3], "metric": None, "n_clusters": [1, 2, 3], "gamma": [.5, 2.], "C": [.1, 5.],
    "max_iter": [1, 2, 5], "p": [1, 2], "d": [0, 1], "n_segments": [1, 2, 3], "alphabet_size_avg": [2, 3, 6],
    "sz": [2, 5, 9], "subsequence_length": [2, 3], "eps": [.5, 2.], "min_ts": [1, 3], "mu": [1., 2.],
    "value_range": [(0., 2.), (-3., 1.)], "scale": [True, False], "with_constant": [True, False],
    "random_state": [3, 4], "lamb": [.5, 50.], "min_t": [1, 2], "hidden_layer_sizes": [(3,), (4,)],
    "weights": ["uniform", "distance"], "method": ["mean", "ffill"], "n_init": [1, 3], "per_feature": [True, False],
    "sigma_l": [.5, 1.], "epsilon": [.05, .2], "max_iter_barycenter": [1, 4], "weight_regularizer": [0., .1],
    "n_shapelets_per_size": [{2: 1}, {3: 2}], "reference_feature_index": [0, 1], "max_p": [1, 2],
}


def _alternative(c, m):
    ks = [k for k in sorted(m.params) if k in ALT and ALT[k] is not None]
    if m.name in ("knn", "knn_clf", "knn_reg", "kmeans", "dbscan") and c.rng.rand() < .4:
        new = c.choice(["dtw", "softdtw"] if m.name == "kmeans" else ["dtw", "frechet"])
        return {"metric": new, "metric_params": None}
    if not ks:
        return None
    k = c.choice(ks)
    if k == "weights" and m.params.get("metric") == "softdtw":
        return None
    return {k: c.choice([v for v in ALT[k] if v != m.params[k]] or ALT[k])}


def _fresh(m, params, A, y):
    f = m.cls(**zoo._clone(params))
    X = gen.pad(A)
    with zoo.quiet():
        if y is None:
            f.fit(X)
        else:
            f.fit(X, y)
    return f


def _refuse(fn):
    """(raised, exception or value)"""
    try:
        with zoo.quiet():
            return True, fn() and None
    except Exception as e:
        return True, e


def history(c, names=None):
    m = zoo.draw(c, names)
    params = dict(m.params)
    given = zoo._clone(params)               # the objects handed to the constructor
    kept = zoo._clone(params)
    e = m.cls(**given)
    p0 = _params(e)
    tol = dict(rtol=1e-5, atol=1e-6) if m.flags.get("float32") else {}
    trace = []
    c.note(trace=trace)
    A, y = m.A, m.y
    try:
        _fit(c, m, e, A, y)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
        raise
    c.ok(_same_params(_params(e), p0), "fit leaves the parameters unchanged", got=_params(e), want=p0)
    base, pub = _outputs(c, m, e), _public(e)
    state = m.fitted(e)
    good = True                             # the last fit succeeded: outputs must equal base

    def settled(what):
        c.ok(_same_params(_params(e), p0), what + " leaves the parameters unchanged", trace=trace, got=_params(e), want=p0)
        if good:
            bad = _changed(pub, _public(e))
            c.ok(not bad, what + " leaves the fitted attributes unchanged", trace=trace, changed=bad)

    for step in range(c.rng.randint(4, 8)):
        op = c.choice(["predict", "predict", "batch", "bad-predict", "bad-predict", "inject-predict", "refit",
                       "bad-fit", "inject-fit", "set-params", "clone", "edit-result"])
        if m.flags.get("slow") and op in ("refit", "set-params", "clone", "inject-fit") and c.rng.rand() < .6:
            op = "predict"
        if op in ("refit", "bad-fit", "inject-fit", "set-params") and op != "refit" and not good:
            op = "refit"
        names_ = list(m.calls)
        if not names_ and op in ("predict", "batch", "bad-predict", "inject-predict", "edit-result"):
            op = "refit"
        if not good and op != "clone":
            op = "refit"
        c.event("op_" + op)
        if op == "predict":
            k = c.choice(names_)
            X = _Data(_form(c, m.Q, m))
            with zoo.quiet():
                got = zoo.as_np(m.calls[k](e, X.obj))
            trace.append((op, k, type(X.obj).__name__))
            c.ok(X.intact(), "%s leaves its input unchanged" % k, trace=trace)
            c.ok(zoo.same(got, base[k], **tol), "%s gives the same result again" % k, trace=trace, got=got, want=base[k])
            settled(k)
        elif op == "batch":
            k = c.choice(names_)
            B = [m.Q[i] for i in c.rng.randint(0, len(m.Q), c.rng.randint(1, 5))]
            X = _Data(gen.pad(B) if m.flags.get("ragged") else np.stack(B))
            trace.append((op, k, len(B)))
            try:
                with zoo.quiet():
                    m.calls[k](e, X.obj)
            except Exception:
                trace[-1] += ("raised",)
            c.ok(X.intact(), "%s leaves its input unchanged" % k, trace=trace)
            settled(k)
        elif op == "edit-result":
            k = c.choice(names_)
            with zoo.quiet():
                r = m.calls[k](e, _queries(m))
            for a in (r if isinstance(r, (tuple, list)) else [r]):
                if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "fi":
                    a[...] = 77
            trace.append((op, k))
            settled("editing the result of " + k)
        elif op == "bad-predict":
            k = c.choice(names_)
            kind, X = _bad_queries(c, m)
            trace.append((op, k, kind))
            keep = copy.deepcopy(X) if isinstance(X, np.ndarray) else None
            try:
                with zoo.quiet():
                    m.calls[k](e, X)
                trace[-1] += ("returned",)
            except Exception as x:
                trace[-1] += (type(x).__name__,)
                c.event("failed_calls")
            c.ok(keep is None or zoo.same(X, keep), "%s of bad series leaves them unchanged" % k, trace=trace)
            settled("a failing " + k)
        elif op == "inject-predict":
            k = c.choice(names_)
            with zoo.quiet(), _Inject() as cnt:
                m.calls[k](e, _queries(m))
            if cnt.n:
                at = int(c.rng.randint(1, cnt.n + 1))
                X = _Data(_queries(m))
                try:
                    with zoo.quiet(), _Inject(at) as inj:
                        m.calls[k](e, X.obj)
                except Exception as x:
                    trace.append((op, k, inj.where, type(x).__name__))
                    c.event("injected_faults")
                c.ok(X.intact(), "an interrupted %s leaves its input unchanged" % k, trace=trace)
                settled("an interrupted " + k)
        elif op == "refit":
            A, y = (m.A, m.y) if c.rng.rand() < .4 else _second(c, m)
            trace.append((op, len(A), max(len(x) for x in A)))
            try:
                f = _fresh(m, params, A, y)
            except Exception as x:
                trace[-1] += ("fresh fit refused: %s" % type(x).__name__,)
                A, y = m.A, m.y
                f = _fresh(m, params, A, y)
            _fit(c, m, e, A, y)
            try:
                want = m.outputs(f)
            except Exception:               # e.g. queries longer than the new training series
                A, y = m.A, m.y
                f = _fresh(m, params, A, y)
                _fit(c, m, e, A, y)
                want = m.outputs(f)
            base, good = m.outputs(e), True
            c.ok(all(zoo.same(base[k], want[k], **tol) for k in want), "refitting equals fitting anew", trace=trace,
                 differs=_differs(base, want), got=base, want=want)
            fa, fb = state, _ = m.fitted(e), m.fitted(f)
            c.ok(all(zoo.same(fa[k], fb[k], **tol) for k in fb), "refitting gives the fitted results of a fresh fit",
                 trace=trace, differs=_differs(fa, fb))
            pub = _public(e)
            settled("fit")
        elif op == "bad-fit":
            kind, X = _bad_queries(c, m)
            trace.append((op, kind))
            try:
                with zoo.quiet():
                    e.fit(X) if y is None else e.fit(X, y)
                trace[-1] += ("returned",)
            except Exception as x:
                trace[-1] += (type(x).__name__,)
                c.event("failed_fits")
            good = False
            settled("a failing fit")
        elif op == "inject-fit":
            with zoo.quiet(), _Inject() as cnt:
                _fresh(m, params, A, y)
            at = int(c.rng.randint(1, cnt.n + 1)) if cnt.n else 1
            X = _Data(gen.pad(A))
            try:
                with zoo.quiet(), _Inject(at) as inj:
                    e.fit(X.obj) if y is None else e.fit(X.obj, y)
            except Exception as x:
                trace.append((op, inj.where, type(x).__name__))
                c.event("injected_faults")
            c.ok(X.intact(), "an interrupted fit leaves the training series unchanged", trace=trace)
            good = False
            settled("an interrupted fit")
        elif op == "set-params":
            alt = _alternative(c, m)
            if alt is None:
                continue
            new = dict(params)
            new.update(alt)
            trace.append((op, alt))
            try:
                f = _fresh(m, new, A, y)
                want = m.outputs(f)
            except Exception as x:
                trace[-1] += ("not usable: %s" % type(x).__name__,)
                continue
            e.set_params(**zoo._clone(alt))
            params, kept = new, zoo._clone(new)
            p0 = _params(e)
            _fit(c, m, e, A, y)
            base, pub = m.outputs(e), None
            c.ok(all(zoo.same(base[k], want[k], **tol) for k in want), "refitting with other parameters equals fitting anew",
                 trace=trace, differs=_differs(base, want), got=base, want=want)
            fa, fb = state, _ = m.fitted(e), m.fitted(f)
            c.ok(all(zoo.same(fa[k], fb[k], **tol) for k in fb), "refitting with other parameters gives the fitted results of a fresh fit",
                 trace=trace, differs=_differs(fa, fb))
            pub = _public(e)
            settled("fit")
        elif op == "clone":
            from sklearn.base import clone
            trace.append((op,))
            f = clone(e)
            c.ok(_same_params(_params(f), p0), "a clone has the same parameters", trace=trace)
            if good:
                with zoo.quiet():
                    f.fit(gen.pad(A)) if y is None else f.fit(gen.pad(A), y)
                got = m.outputs(f)
                c.ok(all(zoo.same(got[k], base[k], **tol) for k in base), "a clone fitted alike gives the same results",
                     trace=trace, differs=_differs(got, base))
                settled("cloning")
        if good:
            now = m.outputs(e)
            c.ok(all(zoo.same(now[k], base[k], **tol) for k in base), "results are those of the last fit", trace=trace,
                 differs=_differs(now, base))
            left = m.fitted(e)
            c.ok(all(zoo.same(left[k], state[k], **tol) for k in state), "the fitted results are those of the last fit", trace=trace,
                 differs=_differs(left, state))
            if not all(zoo.same(now[k], base[k], **tol) for k in base):
                c.stop()
    c.ok(all(_plain_same(given[k], kept.get(k, given[k])) or k not in m.params or params[k] is not m.params[k]
             for k in given), "objects passed as parameters are unchanged", given=given)
    c.cover(m.name, tuple(t[0] for t in trace))


def _plain_same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_plain_same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return zoo.same(a, b)
    if hasattr(a, "get_params"):
        return type(a) is type(b)
    return type(a) is type(b) and a == b


def unfitted(c):
    """Every result method refuses an unfitted estimator; wrong feature counts are refused."""
    from sklearn.exceptions import NotFittedError
    m = zoo.draw(c)
    if not m.calls:
        c.skip()
        return
    e = m.make()
    X = _queries(m)
    for k, f in m.calls.items():
        c.raises((NotFittedError,), lambda: f(e, X.copy()), "%s before fit" % k)
        c.event("unfitted_calls")
    from sklearn.base import clone
    try:
        m.fit(e)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
            return
        raise
    e2 = clone(e)
    k = c.choice(list(m.calls))
    c.raises((NotFittedError,), lambda: m.calls[k](e2, X.copy()), "%s of a clone before fit" % k)
    base = _outputs(c, m, e)
    more = np.concatenate([X, X[:, :, :1]], 2)
    bads = [("one more feature", more)]
    if X.shape[2] > 1:
        bads.append(("one feature less", X[:, :, :-1]))
    for k, f in m.calls.items():
        for what, Z in bads:
            c.raises((Exception,), lambda: f(e, Z.copy()), "%s with %s" % (k, what))
            c.event("wrong_features")
    now = m.outputs(e)
    c.ok(all(zoo.same(now[k], base[k]) for k in base), "results are those of the fit", differs=_differs(now, base))


def shared_params(c):
    """Dictionaries and arrays passed as parameters are read, never written."""
    m = zoo.draw(c, ["knn", "knn_clf", "knn_reg", "kmeans", "dbscan", "kernel_kmeans"])
    key = "kernel_params" if m.name == "kernel_kmeans" else "metric_params"
    p = zoo._clone(m.params)
    mp = dict(p.get(key) or {})
    extra = {}
    if m.name != "kernel_kmeans" and p.get("metric") not in ("sax", "ctw") and p.get("metric") not in zoo.FLAT_METRICS:
        extra = c.choice([{"n_jobs": 1}, {"verbose": 0}, {"n_jobs": 1, "verbose": 0}, {}])
    if p.get("metric") == "softdtw":
        extra["gamma"] = .5
    mp.update(extra)
    if not mp:
        c.skip()
        return
    p[key] = mp
    ref = copy.deepcopy(mp)
    e = m.cls(**p)
    c.note(shared=dict(mp))
    for rounds in range(2):
        try:
            m.fit(e)
            m.outputs(e)
        except Exception as x:
            if extra and rounds == 0 and isinstance(x, (TypeError, ValueError)):
                c.event("options_refused")
                break
            if m.flags.get("may_fail"):
                break
            raise
        c.event("shared_dicts")
    c.ok(mp == ref and list(mp) == list(ref), "a dictionary passed as a parameter is unchanged", got=mp, want=ref)
    c.ok(e.get_params()[key] is mp or e.get_params()[key] == ref, "and still the parameter", got=e.get_params()[key])


TOP = ["kmeans", "knn", "knn_clf", "knn_reg", "varima", "kernel_kmeans", "svc", "svr"]


def history_top(c):
    history(c, TOP)


def side_inputs(c):
    """Weights, initial guesses, labels, precomputed matrices and the like are read, never written."""
    import tslearn.barycenters as TB
    import tslearn.clustering as TC
    import tslearn.metrics as TM
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    rng = c.rng
    n, sz, d = int(rng.randint(6, 12)), int(rng.randint(4, 9)), gen.dim(rng, 2)
    what = c.choice(["kernel_kmeans", "svc", "svr", "kmeans", "kshape", "knn", "knn_clf", "dbscan", "silhouette", "silhouette",
                     "euclidean_barycenter", "dba", "dba", "subgradient", "softdtw_barycenter", "cdist", "path"])
    X = gen.pad([x + 1e-3 * rng.randn(*x.shape) for x in gen.dataset(rng, n, sz, sz, d, equal=True, kind="gauss")])
    wt = rng.rand(n) * c.choice([1., 30.]) + .1
    y = np.arange(n) % 2
    k = int(rng.randint(2, 4))
    order = lambda a: np.asfortranarray(a) if rng.rand() < .3 else a.copy()
    D = TM.cdist_dtw(X)
    held = {"X": order(X)}
    if what == "kernel_kmeans":
        held["sample_weight"] = order(wt)
        run = lambda h: TC.KernelKMeans(n_clusters=k, kernel=c.choice(["gak", "rbf"]), max_iter=5, random_state=0).fit(h["X"], sample_weight=h["sample_weight"])
    elif what in ("svc", "svr"):
        held.update(sample_weight=order(wt), y=y if what == "svc" else rng.randn(n))
        cls = TimeSeriesSVC if what == "svc" else TimeSeriesSVR
        run = lambda h: cls(kernel=c.choice(["gak", "rbf", "linear"]), gamma=2.).fit(h["X"], h["y"], sample_weight=h["sample_weight"]).predict(h["X"])
    elif what == "kmeans":
        held["init"] = order(X[:k] + .1)
        run = lambda h: TC.TimeSeriesKMeans(n_clusters=k, metric=c.choice(["euclidean", "dtw", "softdtw"]), init=h["init"], max_iter=3,
                                            max_iter_barycenter=2).fit(h["X"]).predict(h["X"])
    elif what == "kshape":
        held["init"] = order(X[:k])
        run = lambda h: TC.KShape(n_clusters=k, init=h["init"], max_iter=3).fit(h["X"]).predict(h["X"])
    elif what in ("knn", "knn_clf"):
        held.update(D=order(D), Q=order(D[:3]), y=y)

        def run(h):
            if what == "knn":
                return KNeighborsTimeSeries(n_neighbors=2, metric="precomputed").fit(h["D"]).kneighbors(h["Q"])
            e = KNeighborsTimeSeriesClassifier(n_neighbors=2, metric="precomputed", weights=c.choice(["uniform", "distance"])).fit(h["D"], h["y"])
            return e.predict(h["Q"]), e.predict_proba(h["Q"])
    elif what == "dbscan":
        held.update(D=order(D))
        run = lambda h: TC.TimeSeriesDBSCAN(eps=float(np.median(D)), min_ts=2, metric="precomputed").fit(h["D"])
    elif what == "silhouette":
        D0 = D.copy()
        D0[np.arange(n), np.arange(n)] = 0.
        held.update(D=order(D0), labels=y)
        met = c.choice(["precomputed", "dtw", "softdtw", "euclidean"])
        mp = {"n_jobs": 1} if met == "dtw" else {"gamma": .7} if met == "softdtw" else {}
        ref = dict(mp)

        def run(h):
            TC.silhouette_score(h["D"] if met == "precomputed" else h["X"], h["labels"], metric=met, metric_params=mp)
            c.ok(mp == ref, "metric_params of silhouette_score are left alone", got=mp, want=ref)
    elif what in ("dba", "subgradient", "softdtw_barycenter", "euclidean_barycenter"):
        held.update(weights=order(wt), init_barycenter=order(X[0] + .1))
        fs = {"dba": c.choice([TB.dtw_barycenter_averaging, TB.dtw_barycenter_averaging_petitjean]),
              "subgradient": TB.dtw_barycenter_averaging_subgradient, "softdtw_barycenter": TB.softdtw_barycenter}
        if what == "euclidean_barycenter":
            run = lambda h: TB.euclidean_barycenter(h["X"], weights=h["weights"])
        elif what == "softdtw_barycenter":
            run = lambda h: TB.softdtw_barycenter(h["X"], weights=h["weights"], init=h["init_barycenter"], max_iter=4)
        else:
            run = lambda h: fs[what](h["X"], weights=h["weights"], init_barycenter=h["init_barycenter"], max_iter=3)
    elif what == "cdist":
        held["Y"] = order(X[:4] + 1.)
        g = c.choice(["cdist_dtw", "cdist_gak", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_frechet"])
        run = lambda h: (getattr(TM, g)(h["X"], h["Y"]), getattr(TM, g)(h["X"]))
    else:
        held["C"] = order(rng.rand(sz, sz + 1))
        g = c.choice(["dtw_path_from_metric", "frechet_path_from_metric", "lcss_path_from_metric"])
        run = lambda h: getattr(TM, g)(h["C"], metric="precomputed", **c.choice([{}, {"sakoe_chiba_radius": 2}]))
    c.note(what=what, **held)
    h = {k_: _Data(v) for k_, v in held.items()}
    if rng.rand() < .3:                       # inputs may not even be writable
        for v in h.values():
            v.obj.flags.writeable = False
    with zoo.quiet():
        run({k_: v.obj for k_, v in h.items()})
    for k_, v in h.items():
        c.ok(v.intact(), "%s of the caller is left alone" % k_, where=what)
    c.event("side inputs watched", len(h))
    c.cover("side", what, n, sz, d)


WORKLOADS = [W(side_inputs, 120), W(history, 240), W(history_top, 160), W(unfitted, 160), W(shared_params, 120)]
META = dict(
    technique="runtime monitoring: input checksums, parameter and fitted-state snapshots over random call histories with failing calls and injected exceptions; checksums of weights, initial guesses, labels and precomputed matrices",
    rule="one violating step",
    note="every history is compared with fresh estimators fitted on the same data",
    assumptions="estimators are seeded; after an interrupted fit only the parameters, inputs and the next fit are judged",
)
