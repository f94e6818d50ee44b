"""P26: kernel machines and networks equal their reference on the same inputs."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np


def _blobs(c, n, equal, d=None, lo=2, hi=8, k=2, offset=0.):
    d = d or gen.dim(c.rng, 2)
    A = gen.dataset(c.rng, n, lo, hi, d, equal=equal, kind=c.choice(["gauss", "walk", "sine", "ties", "steps"]))
    cent = [offset + 1.5 * c.rng.randn(d) for _ in range(k)]
    lab = np.arange(n) % k
    c.rng.shuffle(lab)
    # noise keeps the quadratic programme of the reference non degenerate
    A = [.7 * x + cent[l] * float(c.rng.rand() < .9) + .05 * c.rng.randn(*x.shape) for x, l in zip(A, lab)]
    return A, lab, d


def _split(c, kern, regression, nclass=None):
    equal = kern != "gak" or c.rng.rand() < .35
    k = nclass or (1 if regression else int(c.choice([2, 2, 3])))
    n = int(c.rng.randint(5 + 3 * k, 20))
    A, lab, d = _blobs(c, n + 5, equal, k=max(k, 2))
    if kern != "gak":
        A = [x[:len(A[0])] for x in A]
    tr, te = A[:n], A[n:]
    lab = lab[:n]
    lab[:k] = np.arange(k)
    if regression:
        y = np.array([x.mean() for x in tr]) + .3 * c.rng.randn(n)
    else:
        lab = lab % k
        names = c.choice([None, np.array(["zeta", "alpha", "mid"]), np.array([7, -1, 3]), np.array([1., 0., 5.])])
        y = lab if names is None else names[lab]
    return tr, te, y, d, k, equal


def _fmt(c, A, equal):
    """Dataset in one of the forms users pass."""
    u = c.rng.rand()
    if u < .4:
        return gen.pad(A)
    if u < .6 and not equal:
        return gen.pad(A, int(c.rng.randint(1, 3)))
    if not equal:
        return gen.pad(A)
    if u < .8:
        return [x.tolist() for x in A]
    return [x.copy() for x in A]


def _K(A, B, gamma):
    s = np.sqrt(gamma / 2.)
    return np.array([[ref.gak(a, b, s) for b in B] for a in A])


def _same(c, got, want, what, rtol=1e-9, atol=1e-10):
    c.close(to_np(got), to_np(want), what, rtol=rtol, atol=atol)


def _weights(c, n):
    """None, uneven weights of any scale, or even ones (which still rescale the penalty)."""
    return c.choice([None, .2 + c.rng.rand(n), np.full(n, float(c.choice([.02, .2, 5.]))), c.rng.randint(1, 4, size=n).astype(float),
                     1e4 * (.2 + c.rng.rand(n)), 1e-4 * (.2 + c.rng.rand(n))])


def svm_gak(c):
    """Every output of the machine equals scikit-learn's on the alignment
    kernel matrix; the matrix itself is judged against the reference recursion."""
    from sklearn.svm import SVC, SVR
    from tslearn.metrics import cdist_gak, gamma_soft_dtw
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    reg = c.rng.rand() < .35
    tr, te, y, d, k, equal = _split(c, "gak", reg)
    auto = c.rng.rand() < .35
    seed = int(c.rng.randint(1000))
    gamma = "auto" if auto else float(c.choice([.5, 2., 10., 40.]))
    kw = dict(C=float(c.choice([.3, 1., 10.])), shrinking=bool(c.rng.rand() < .7), tol=1e-5,
              max_iter=int(c.choice([-1, -1, -1, 40])))
    if reg:
        kw["epsilon"] = float(c.choice([.01, .1, .5]))
    else:
        kw["decision_function_shape"] = c.choice(["ovr", "ovo"])
        kw["probability"] = bool(c.rng.rand() < .4)
        kw["class_weight"] = c.choice([None, "balanced"])
    sw = _weights(c, len(tr))
    n_jobs = c.choice([None, None, 2])
    c.note(train=tr, test=te, y=y, gamma=gamma, params=kw, sample_weight=sw, seed=seed)
    Xtr, Xte = _fmt(c, tr, equal), _fmt(c, te, equal)
    Cls, Ref = (TimeSeriesSVR, SVR) if reg else (TimeSeriesSVC, SVC)
    m = Cls(kernel="gak", gamma=gamma, random_state=seed, n_jobs=n_jobs, **kw).fit(Xtr, y, sample_weight=sw)
    g = gamma_soft_dtw(gen.pad(tr), random_state=seed) if auto else gamma
    _same(c, m.gamma_, g, "gamma_ equals gamma_soft_dtw of the training set, or the parameter")
    s = np.sqrt(g / 2.)
    # the library's matrix (bit equality of the optimiser's input), then ours
    Ktr, Kte = cdist_gak(gen.pad(tr), sigma=s), cdist_gak(gen.pad(te), gen.pad(tr), sigma=s)
    _same(c, Ktr, _K(tr, tr, g), "training kernel matrix equals the reference alignment kernel", 1e-7)
    _same(c, Kte, _K(te, tr, g), "test kernel matrix equals the reference alignment kernel", 1e-7)
    r = Ref(kernel="precomputed", **(dict(kw) if reg else dict(kw, random_state=seed))).fit(Ktr, y, sample_weight=sw)
    _compare(c, m, r, Xtr, Xte, Ktr, Kte, tr, y, reg, kw, d)
    c.cover("svm-gak-%s-%s-%s-%s" % ("svr" if reg else "svc", "auto" if auto else "g", "eq" if equal else "var", k))


def _compare(c, m, r, Xtr, Xte, Ktr, Kte, tr, y, reg, kw, d):
    _same(c, m.predict(Xte), r.predict(Kte), "predictions equal the reference's") if reg else \
        c.equal(list(m.predict(Xte)), list(r.predict(Kte)), "predictions equal the reference's")
    if reg:
        _same(c, m.predict(Xtr), r.predict(Ktr), "training predictions equal the reference's")
    else:
        c.equal(list(m.predict(Xtr)), list(r.predict(Ktr)), "training predictions equal the reference's")
        _same(c, m.decision_function(Xte), r.decision_function(Kte), "decision values equal the reference's")
        c.equal(list(m.classes_), list(r.classes_), "classes")
        if kw["probability"]:
            P = to_np(m.predict_proba(Xte))
            _same(c, P, r.predict_proba(Kte), "probabilities equal the reference's", 1e-7)
            c.ok(np.allclose(P.sum(1), 1.) and (P >= 0).all(), "probabilities are normalised")
            _same(c, m.predict_log_proba(Xte), np.log(P), "log probabilities are logarithms of the probabilities", 1e-7, 1e-7)
    yt = r.predict(Kte)
    if not reg or np.std(yt) > 1e-6:
        _same(c, m.score(Xte, yt), 1., "score on its own predictions is one")
    c.equal(list(m.support_), list(r.support_), "support indices")
    _same(c, m.dual_coef_, r.dual_coef_, "dual coefficients")
    _same(c, m.intercept_, r.intercept_, "intercepts")
    sv = m.support_vectors_
    sv = np.concatenate(list(sv)) if not reg else np.asarray(sv)
    want = gen.pad(tr)[m.support_]
    c.ok(sv.shape[0] == len(want), "as many support vectors as support indices")
    for a, b in zip(sv, want):
        a = a[:ref.real_len(a)]
        b = b[:ref.real_len(b)]
        c.ok(a.shape == b.shape and np.array_equal(a, b), "support vectors are the training series of the support indices")
    if not reg:
        lab = [y[i] for i in m.support_]
        c.equal(lab, [cl for cl, g in zip(m.classes_, m.support_vectors_) for _ in range(len(g))],
                "support vectors are grouped by class")
    c.equal(int(m.n_features_in_), d, "number of features")


def svm_flat(c):
    """Standard kernels: the machine equals scikit-learn's on flattened series."""
    from sklearn.svm import SVC, SVR
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    reg = c.rng.rand() < .35
    kern = c.choice(["linear", "rbf", "poly", "sigmoid"])
    tr, te, y, d, k, equal = _split(c, kern, reg)
    seed = int(c.rng.randint(1000))
    gamma = c.choice(["auto", "auto", "scale", .02, .3])
    kw = dict(C=float(c.choice([.1, 1.])), shrinking=bool(c.rng.rand() < .7), tol=1e-4, degree=int(c.choice([2, 3])),
              coef0=float(c.choice([0., .5])), max_iter=2000)
    if reg:
        kw["epsilon"] = float(c.choice([.01, .1, .5]))
    else:
        kw["decision_function_shape"] = c.choice(["ovr", "ovo"])
        kw["probability"] = bool(c.rng.rand() < .4)
        kw["class_weight"] = c.choice([None, "balanced"])
    sw = _weights(c, len(tr))
    c.note(kernel=kern, train=tr, test=te, y=y, gamma=gamma, params=kw, sample_weight=sw, seed=seed)
    Xtr, Xte = _fmt(c, tr, True), _fmt(c, te, True)
    F = lambda A: np.array([x.reshape(-1) for x in A])
    Cls, Ref = (TimeSeriesSVR, SVR) if reg else (TimeSeriesSVC, SVC)
    m = Cls(kernel=kern, gamma=gamma, random_state=seed, **kw).fit(Xtr, y, sample_weight=sw)
    r = Ref(kernel=kern, gamma=gamma, **(dict(kw) if reg else dict(kw, random_state=seed))).fit(F(tr), y, sample_weight=sw)
    _compare(c, m, r, Xtr, Xte, F(tr), F(te), tr, y, reg, kw, d)
    if kern == "linear":
        _same(c, m.coef_, r.coef_, "linear coefficients")
        if reg:
            _same(c, m.predict(Xte), F(te) @ to_np(m.coef_)[0] + m.intercept_, "linear predictions are affine in the series", 1e-6, 1e-8)
    c.cover("svm-%s-%s-%s" % (kern, "svr" if reg else "svc", gamma))


def svm_callable(c):
    """A callable kernel sees flattened series."""
    from sklearn.svm import SVC
    from tslearn.svm import TimeSeriesSVC
    tr, te, y, d, k, equal = _split(c, "callable", False)
    F = lambda A: np.array([x.reshape(-1) for x in A])
    seen = []

    def kern(a, b):
        seen.append((np.shape(a), np.shape(b)))
        return np.exp(-.2 * np.abs(np.asarray(a)[:, None] - np.asarray(b)[None]).sum(-1))
    m = TimeSeriesSVC(kernel=kern, gamma=1., tol=1e-5).fit(gen.pad(tr), y)
    w = len(tr[0]) * d
    c.ok(seen and all(a[1] == w and b[1] == w for a, b in seen), "the callable kernel receives flattened series")
    r = SVC(kernel="precomputed", tol=1e-5).fit(kern(F(tr), F(tr)), y)
    _same(c, m.decision_function(gen.pad(te)), r.decision_function(kern(F(te), F(tr))), "decision values", 1e-8)
    c.cover("svm-callable")


def svm_sequence(c):
    """One machine refitted, on other data and kernels: always the reference of
    the last fit."""
    from sklearn.svm import SVC
    from tslearn.metrics import cdist_gak, gamma_soft_dtw
    from tslearn.svm import TimeSeriesSVC
    m = TimeSeriesSVC(tol=1e-5, random_state=3)
    for _ in range(int(c.rng.randint(2, 4))):
        kern = c.choice(["gak", "gak", "rbf"])
        tr, te, y, d, k, equal = _split(c, kern, False)
        g = c.choice(["auto", 5.])
        m.set_params(kernel=kern, gamma=g)
        c.note(kernel=kern, gamma=g, train=tr, y=y)
        c.ok(m.fit(gen.pad(tr), y) is m, "fit returns the estimator")
        if kern == "gak":
            gv = gamma_soft_dtw(gen.pad(tr), random_state=3) if g == "auto" else g
            s = np.sqrt(gv / 2)
            r = SVC(kernel="precomputed", tol=1e-5).fit(cdist_gak(gen.pad(tr), sigma=s), y)
            K = cdist_gak(gen.pad(te), gen.pad(tr), sigma=s)
        else:
            r = SVC(kernel=kern, gamma=g, tol=1e-5).fit(gen.pad(tr).reshape(len(tr), -1), y)
            K = gen.pad(te).reshape(len(te), -1)
        for _ in range(2):
            _same(c, m.decision_function(gen.pad(te)), r.decision_function(K), "decision values after a refit")
        c.equal(m.get_params()["gamma"], g, "the gamma parameter is left alone")
    # a batch of one, of the training set, and larger than the training set
    one = m.decision_function(gen.pad(te[:1])) if kern == "gak" or len(te[0]) == len(tr[0]) else None
    if one is not None:
        _same(c, one, r.decision_function(K[:1]), "decision value of a single series", 1e-9)
    bad = gen.pad([np.hstack([x, x]) for x in te])
    c.raises((ValueError,), lambda: m.predict(bad), "a wrong number of features is refused")
    c.cover("svm-sequence")


def svm_refuse(c):
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    from sklearn.exceptions import NotFittedError
    tr, te, y, d, k, equal = _split(c, "gak", False)
    for Cls in (TimeSeriesSVC, TimeSeriesSVR):
        yy = y if Cls is TimeSeriesSVC else np.arange(len(tr)) * .1
        c.raises((NotFittedError,), lambda: Cls().predict(gen.pad(te)), "an unfitted machine is refused")
        for p in ("support_", "dual_coef_", "intercept_"):
            c.raises((NotFittedError, AttributeError), lambda: getattr(Cls(), p), "no %s before fit" % p)
        c.raises((RuntimeError,), lambda: Cls(gamma=0.).fit(gen.pad(tr), yy), "gamma of zero is refused by the alignment kernel")
        const = np.full((6, 4, d), 3.)
        c.raises((RuntimeError,), lambda: Cls(gamma="auto").fit(const, yy[:6]), "an automatic gamma of zero is refused")
    c.cover("svm-refuse")


def mlp(c):
    """Networks equal scikit-learn's on flattened series: weights, losses,
    predictions, probabilities, for fit and partial_fit."""
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from tslearn.neural_network import TimeSeriesMLPClassifier, TimeSeriesMLPRegressor
    reg = c.rng.rand() < .45
    tr, te, y, d, k, equal = _split(c, "flat", reg)
    if reg and c.rng.rand() < .3:
        y = np.stack([y, -y + 1.], 1)
    kw = dict(hidden_layer_sizes=c.choice([(5,), (4, 3)]), solver=c.choice(["adam", "sgd", "lbfgs"]),
              max_iter=int(c.choice([3, 15])), random_state=int(c.rng.randint(100)), activation=c.choice(["relu", "tanh"]),
              alpha=float(c.choice([1e-4, .1])), warm_start=bool(c.rng.rand() < .3))
    if kw["solver"] != "lbfgs":
        kw["early_stopping"] = bool(c.rng.rand() < .3) and len(tr) >= 14
        kw["batch_size"] = c.choice(["auto", 4])
    F = lambda A: np.array([x.reshape(-1) for x in A])
    Cls, Ref = (TimeSeriesMLPRegressor, MLPRegressor) if reg else (TimeSeriesMLPClassifier, MLPClassifier)
    m, r = Cls(**kw), Ref(**kw)
    c.note(train=tr, test=te, y=y, params=kw)
    mode = c.choice(["fit", "fit", "partial", "fit+partial", "refit"])
    if mode in ("partial", "fit+partial") and (kw["solver"] == "lbfgs" or kw.get("early_stopping")):
        mode = "fit"
    steps = {"fit": ["fit"], "partial": ["partial"] * 3, "fit+partial": ["fit", "partial", "partial"],
             "refit": ["fit", "fit"]}[mode]
    for i, st in enumerate(steps):
        Xtr = _fmt(c, tr, True)
        try:
            if st == "fit":
                r.fit(F(tr), y)
            elif not reg and i == 0:
                r.partial_fit(F(tr), y, classes=np.unique(y))
            else:
                r.partial_fit(F(tr), y)
        except ValueError:
            c.skip()      # the reference itself refuses these options
        if st == "fit":
            m.fit(Xtr, y)
        elif not reg and i == 0:
            m.partial_fit(Xtr, y, classes=np.unique(y))
        else:
            m.partial_fit(Xtr, y)
        c.equal(int(m.n_features_in_), d, "number of features after %s" % st)
        for a, b in zip(m.coefs_ + m.intercepts_, r.coefs_ + r.intercepts_):
            _same(c, a, b, "weights after %s equal the reference's" % st)
        if st == "fit":
            _same(c, m.loss_, r.loss_, "training loss")
        Xte = _fmt(c, te, True)
        if reg:
            _same(c, m.predict(Xte), r.predict(F(te)), "predictions equal the reference's")
        else:
            c.equal(list(m.predict(Xte)), list(r.predict(F(te))), "predictions equal the reference's")
            P = m.predict_proba(Xte)
            _same(c, P, r.predict_proba(F(te)), "probabilities equal the reference's")
            c.ok(np.allclose(np.sum(P, 1), 1.), "probabilities are normalised")
            _same(c, m.predict_log_proba(Xte), r.predict_log_proba(F(te)), "log probabilities equal the reference's")
            c.equal(list(m.classes_), list(r.classes_), "classes")
        _same(c, m.score(Xtr, y), r.score(F(tr), y), "score")
        c.equal(int(m.n_features_in_), d, "number of features after predicting")
    c.raises((ValueError,), lambda: m.predict(gen.pad([np.hstack([x, x]) for x in te])), "a wrong number of features is refused")
    c.cover("mlp-%s-%s-%s" % ("r" if reg else "c", mode, kw["solver"]))


def svm_large(c):
    """Hundreds of series, or long ones; spot checks of the kernel matrices."""
    from sklearn.svm import SVC, SVR
    from tslearn.metrics import cdist_gak, gamma_soft_dtw
    from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
    reg = c.rng.rand() < .4
    what = c.choice(["train", "queries", "long", "wide"])
    n, nq, lo, hi, d = 20, 10, 3, 7, None
    if what == "train":
        n, nq = int(c.choice([70, 130, 260])), 40
    elif what == "queries":
        nq = int(c.choice([150, 300, 600]))
    elif what == "long":
        lo, hi = 40, int(c.choice([70, 110]))
    else:
        d = int(c.choice([4, 8, 12]))
    A, lab, d = _blobs(c, n + nq, False, d=d, lo=lo, hi=hi)
    perm = c.rng.permutation(len(A))
    tr, te = [A[i] for i in perm[:n]], [A[i] for i in perm[n:]]
    y = np.array([x.mean() for x in tr]) + .3 * c.rng.randn(n) if reg else lab[perm[:n]]
    if not reg:
        y[:2] = 0, 1
    gamma = c.choice(["auto", 4., 60.])
    seed = int(c.rng.randint(1000))
    kw = dict(C=float(c.choice([.5, 5.])), tol=1e-5)
    if not reg:
        kw["probability"] = bool(c.rng.rand() < .3) and n < 100
    c.note(what=what, n=n, nq=nq, d=d, gamma=gamma, params=kw, first=A[0])
    Xtr, Xte = gen.pad(tr), gen.pad(te, int(c.choice([0, 2])))
    Cls, Ref = (TimeSeriesSVR, SVR) if reg else (TimeSeriesSVC, SVC)
    m = Cls(kernel="gak", gamma=gamma, random_state=seed, **kw).fit(Xtr, y)
    g = gamma_soft_dtw(Xtr, random_state=seed) if gamma == "auto" else gamma
    _same(c, m.gamma_, g, "gamma_ equals gamma_soft_dtw of the training set, or the parameter")
    s = np.sqrt(g / 2.)
    Ktr, Kte = cdist_gak(Xtr, sigma=s), cdist_gak(gen.pad(te), Xtr, sigma=s)
    for _ in range(8):
        i, j, k = c.rng.randint(n), c.rng.randint(n), c.rng.randint(nq)
        _same(c, Ktr[i, j], ref.gak(tr[i], tr[j], s), "training kernel matrix equals the reference alignment kernel", 1e-7)
        _same(c, Kte[k, j], ref.gak(te[k], tr[j], s), "test kernel matrix equals the reference alignment kernel", 1e-7)
    r = Ref(kernel="precomputed", **(dict(kw) if reg else dict(kw, random_state=seed))).fit(Ktr, y)
    _compare(c, m, r, Xtr, Xte, Ktr, Kte, tr, y, reg, dict(kw, probability=kw.get("probability", False)), d)
    c.cover("svm-large-%s-%s" % (what, "svr" if reg else "svc"))


WORKLOADS = [W(svm_large, 16), W(svm_gak, 60), W(svm_flat, 60), W(svm_callable, 4), W(svm_sequence, 12), W(svm_refuse, 4), W(mlp, 60)]

META = dict(
    technique="runtime monitoring: differential monitor of every exposed output against scikit-learn on a kernel matrix judged by an independent alignment-kernel program",
    rule="A machine's decision values, predictions, probabilities, support set, dual coefficients and intercepts equal those of scikit-learn's machine on the "
         "alignment-kernel matrix (itself within 1e-7 of a plain float64 recursion) or on flattened series; network weights, losses and outputs equal scikit-learn's on flattened series.",
    note="The reference optimiser receives bit-identical inputs, so tie-breaking inside libsvm cannot raise an alarm.",
    assumptions="scikit-learn's SVC, SVR, MLPClassifier and MLPRegressor define the reference",
)
