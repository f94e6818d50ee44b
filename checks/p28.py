"""P28: shapelet transforms and locations are true best matches."""
import inspect
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np


def _fast_init():
    """Fewer candidate windows for the initial clustering (speed only)."""
    import tslearn.shapelets.shapelets as S
    f = getattr(S, "_kmeans_init_shapelets", None)
    if f is not None and not getattr(f, "fast", False):
        try:
            if "n_draw" in inspect.signature(f).parameters:
                def g(*a, **k):
                    k.setdefault("n_draw", 120)
                    return f(*a, **k)
                g.fast = True
                S._kmeans_init_shapelets = g
        except (TypeError, ValueError):
            pass


def _series(c, L, d, scale=3.):
    kind = c.choice(["gauss", "walk", "sine", "ties", "steps", "const", "spikes"])
    x = gen.values(c.rng, L, d, kind)
    return np.clip(x, -12, 12)


def _set(c, n, lo, hi, d, equal):
    L = [hi if equal else int(c.rng.randint(lo, hi + 1)) for _ in range(n)]
    if not equal:
        L[0] = hi
    return [_series(c, l, d) for l in L]


def _sizes(c, lo):
    k = int(c.choice([1, 1, 2, 3]))
    szs = c.rng.permutation(np.arange(1, lo + 1))[:k]
    return {int(s): int(c.rng.randint(1, 4)) for s in szs}


def _make(c, fit=True, **over):
    from tslearn.shapelets import LearningShapelets
    _fast_init()
    rng = c.rng
    d = gen.dim(rng, 3)
    lo = int(rng.randint(3, 7))
    hi = lo + int(rng.randint(0, 8))
    equal = rng.rand() < .3
    n = int(rng.randint(6, 12))
    A = _set(c, n, lo, hi, d, equal)
    A = [x + .05 * rng.randn(*x.shape) for x in A]
    k = int(c.choice([2, 2, 3]))
    lab = np.arange(n) % k
    names = c.choice([None, np.array(["p", "a", "n"]), np.array([4, -1, 9])])
    y = lab if names is None else names[lab]
    kw = dict(n_shapelets_per_size=_sizes(c, lo), max_iter=int(c.choice([1, 1, 2])), batch_size=int(c.choice([3, 256])),
              optimizer=c.choice(["sgd", "adam"]), weight_regularizer=float(c.choice([0., .01])),
              scale=bool(rng.rand() < .35), random_state=int(rng.randint(1000)))
    if rng.rand() < .35:
        kw["max_size"] = hi + int(rng.randint(0, 6))
    if rng.rand() < .15:
        kw.pop("n_shapelets_per_size")
        kw.update(total_lengths=int(c.choice([1, 2])), shapelet_length=float(c.choice([.2, .34])))
    kw.update(over)
    c.note(train=A, y=y, params=kw)
    m = LearningShapelets(**kw)
    if fit:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(gen.pad(A), y)
    return m, kw, A, y, lo, hi, d, k


def _scaled(A, kw):
    if not kw["scale"]:
        return A
    out = []
    for x in A:
        mn, mx = x.min(0), x.max(0)
        r = np.where(mx > mn, mx - mn, 1.)
        out.append((x - mn) / r)
    return out


def _dist(x, s):
    """Mean (over the window) squared distance of every window to the shapelet."""
    L = len(s)
    return np.array([((x[j:j + L] - s) ** 2).sum() / L for j in range(len(x) - L + 1)])


def _shapelets(c, m, kw):
    S = [to_np(s).astype(float) for s in m.shapelets_]
    sizes = m.n_shapelets_per_size_
    want = [l for l, k in sizes.items() for _ in range(k)]
    c.equal([len(s) for s in S], want, "as many shapelets of each size as asked for")
    if "n_shapelets_per_size" in kw:
        c.equal(dict(sizes), kw["n_shapelets_per_size"], "sizes of the shapelets")
    T = to_np(m.shapelets_as_time_series_)
    for s, t in zip(S, T):
        c.ok(np.allclose(t[:len(s)], s) and np.isnan(t[len(s):]).all(), "shapelets as time series are padded with missing values")
    return S


def _oracle(c, S, A):
    """Reference transform, and all locations attaining it within float32."""
    n = len(A)
    T = np.zeros((n, len(S)))
    near, tol = [], np.zeros((n, len(S)))
    for i, x in enumerate(A):
        row = []
        for k, s in enumerate(S):
            D = _dist(x, s)
            mag = max((x ** 2).sum(1).max() + (s ** 2).sum(1).max(), 1e-3)
            tol[i, k] = 3e-6 * mag + 1e-6
            T[i, k] = D.min()
            row.append(D)
        near.append(row)
    return T, near, tol


def _judge(c, m, kw, A, X, what="", classes=True):
    S = _shapelets(c, m, kw)
    Z = _scaled(A, kw)
    T, D, tol = _oracle(c, S, Z)
    got = to_np(m.transform(X))
    loc = to_np(m.locate(X))
    c.ok(got.shape == T.shape and loc.shape == T.shape, "one column per shapelet")
    c.ok(bool(np.isfinite(got).all()), "transforms are finite")
    bad = np.abs(got - T) > tol
    c.ok(not bad.any(), "the transform is the smallest mean squared distance to the windows" + what,
         detail=dict(got=got[bad][:3], want=T[bad][:3], where=np.argwhere(bad)[:3]))
    for i in range(len(A)):
        for k, s in enumerate(S):
            j = int(loc[i, k])
            inside = 0 <= j <= len(A[i]) - len(s)
            c.ok(inside, "a location lies inside the series, not in its padded tail" + what, detail=dict(loc=j, n=len(A[i]), L=len(s)))
            if inside:
                c.ok(D[i][k][j] <= T[i, k] + 2 * tol[i, k], "the location is a window attaining the smallest distance" + what,
                     detail=dict(at=D[i][k][j], best=T[i, k], loc=j))
    if classes:
        _classes(c, m, X, got)
    return got, loc


def _classes(c, m, X, T):
    """Probabilities follow from the transform through the exposed weights."""
    w, b = [to_np(v).astype(float) for v in m.get_weights("classification")]
    z = T @ w + b
    if w.shape[1] == 1:
        p = 1 / (1 + np.exp(-z[:, 0]))
        P = np.stack([1 - p, p], 1)
    else:
        e = np.exp(z - z.max(1, keepdims=True))
        P = e / e.sum(1, keepdims=True)
    got = to_np(m.predict_proba(X)).astype(float)
    tol = 1e-4 * (1 + np.abs(T) @ np.abs(w)).max() + 1e-5
    c.ok(got.shape == P.shape, "one probability per class")
    c.close(got, P, "probabilities follow from the transform through the learned weights", rtol=0, atol=min(tol, .05))
    c.close(got.sum(1), np.ones(len(got)), "probabilities are normalised", rtol=0, atol=1e-5)
    srt = np.sort(got, 1)
    pred = m.predict(X)
    for p, q, r in zip(pred, got, srt):
        if r[-1] - r[-2] > 1e-5:
            c.equal(p, m.classes_[int(np.argmax(q))], "the class is the most probable one")


def fitted(c):
    """A fitted model, on its training set and on new series of other lengths."""
    m, kw, A, y, lo, hi, d, k = _make(c)
    c.equal(list(m.classes_), sorted(set(y.tolist())), "classes")
    c.equal(m.n_iter_, kw["max_iter"], "number of epochs")
    _judge(c, m, kw, A, gen.pad(A), " (training set)")
    top = max(len(s) for s in m.shapelets_)
    cap = kw.get("max_size") or hi
    for _ in range(3):
        B = _set(c, int(c.rng.randint(1, 8)), top, cap, d, c.rng.rand() < .3)
        X = gen.pad(B) if c.rng.rand() < .5 else gen.pad(B, int(c.rng.randint(0, cap - max(map(len, B)) + 1)))
        c.note(test=B)
        got, loc = _judge(c, m, kw, B, X)
        _independent(c, m, B, got, loc)
    c.cover("fitted-d%d-%s-%s-sizes%d" % (d, "scale" if kw["scale"] else "raw", "max_size" if "max_size" in kw else "fit", len(m.n_shapelets_per_size_)))


def _independent(c, m, B, got, loc):
    i = int(c.rng.randint(len(B)))
    one, l1 = to_np(m.transform(gen.pad(B[i:i + 1]))), to_np(m.locate(gen.pad(B[i:i + 1])))
    c.close(one[0], got[i], "the transform of a series does not depend on its batch", rtol=1e-4, atol=1e-4)
    p = c.rng.permutation(len(B))
    c.close(to_np(m.transform(gen.pad([B[q] for q in p]))), got[p], "permuting the batch permutes the transform", rtol=1e-4, atol=1e-4)


def weights(c):
    """Chosen weights: planted motifs are found exactly, reloaded weights
    reproduce outputs, and shapelets are unrelated to the training data."""
    m, kw, A, y, lo, hi, d, k = _make(c, scale=False)
    sizes = list(m.n_shapelets_per_size_.items())
    for rep in range(3):
        S = []
        for i, (L, K) in enumerate(sizes):
            w = c.choice([3 * c.rng.randn(K, L, d), c.rng.randint(-3, 4, size=(K, L, d)).astype(float)])
            m.set_weights([w], layer_name="shapelets_%d" % i)
            c.close(to_np(m.get_weights("shapelets_%d" % i)[0]), w, "weights are those that were set", rtol=1e-6, atol=1e-6)
            S += list(w)
        for a, b in zip(m.shapelets_, S):
            c.close(to_np(a), b, "shapelets are the weights that were set", rtol=1e-6, atol=1e-6)
        cap = kw.get("max_size") or hi
        B = _set(c, 5, lo, cap, d, False)
        for x in B:       # plant a motif, exactly or nearly
            s = S[int(c.rng.randint(len(S)))]
            j = int(c.rng.randint(0, len(x) - len(s) + 1))
            x[j:j + len(s)] = s + (0 if c.rng.rand() < .6 else .05 * c.rng.randn(*s.shape))
        c.note(shapelets=S, test=B)
        _judge(c, m, kw, B, gen.pad(B), " (chosen weights)")
        c.event("motifs planted", len(B))
    Wt = [np.array(w) for w in m.get_weights()]
    T, P, L = to_np(m.transform(gen.pad(B))), to_np(m.predict_proba(gen.pad(B))), to_np(m.locate(gen.pad(B)))
    m.set_weights([w + 1. for w in Wt])
    m.set_weights(Wt)
    c.close(to_np(m.transform(gen.pad(B))), T, "reloading the weights reproduces the transform", rtol=0, atol=0)
    c.close(to_np(m.predict_proba(gen.pad(B))), P, "reloading the weights reproduces the probabilities", rtol=0, atol=0)
    c.close(to_np(m.locate(gen.pad(B))), L, "reloading the weights reproduces the locations", rtol=0, atol=0)
    c.cover("weights-d%d-K%s" % (d, max(K for _, K in sizes)))


def levels(c):
    """New series much larger, smaller or farther away than the training ones,
    with padded tails: nothing but true windows is matched."""
    m, kw, A, y, lo, hi, d, k = _make(c, max_iter=1)
    top = max(len(s) for s in m.shapelets_)
    cap = kw.get("max_size") or hi
    for f, o in ((1e-3, 0.), (100., 0.), (1., 300.), (1e4, -1e4)):
        B = [f * x + o for x in _set(c, int(c.rng.randint(2, 6)), top, cap, d, False)]
        X = gen.pad(B, cap - max(map(len, B)))
        c.note(test=B)
        _judge(c, m, kw, B, X, " (other levels)", classes=False)
    c.cover("levels-%s-d%d" % (kw["scale"], d))


def refit(c):
    """A second fit, on data of another length, forgets the first."""
    m, kw, A, y, lo, hi, d, k = _make(c, max_size=None)
    hi2 = hi + int(c.rng.randint(-2, 4))
    hi2 = max(hi2, lo)
    d2 = gen.dim(c.rng, 3)
    n = 8
    B = _set(c, n, lo, hi2, d2, False)
    B = [x + .05 * c.rng.randn(*x.shape) for x in B]
    y2 = np.arange(n) % 2
    c.note(second=B)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(gen.pad(B), y2)
        f = type(m)(**m.get_params()).fit(gen.pad(B), y2)
    for a, b in zip(f.get_weights(), m.get_weights()):
        c.close(to_np(b), to_np(a), "a refitted model has the weights of a fresh one", rtol=1e-4, atol=1e-4)
    _judge(c, m, dict(kw), B, gen.pad(B), " (after a second fit)")
    c.equal(list(m.classes_), [0, 1], "classes of the second fit")
    c.cover("refit")


def reload(c):
    """Saved and reloaded models reproduce every output."""
    import os
    import tempfile
    m, kw, A, y, lo, hi, d, k = _make(c)
    X = gen.pad(A)
    for fmt in ("json", "pickle"):
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "m." + fmt)
            getattr(m, "to_" + fmt)(p)
            r = getattr(type(m), "from_" + fmt)(p)
        for f in ("transform", "predict_proba", "locate"):
            c.close(to_np(getattr(r, f)(X)), to_np(getattr(m, f)(X)), "%s of a model reloaded from %s" % (f, fmt), rtol=1e-5, atol=1e-5)
        c.equal(list(r.predict(X)), list(m.predict(X)), "classes of a model reloaded from %s" % fmt)
        _judge(c, r, kw, A, X, " (reloaded)")
    c.cover("reload")


def refuse(c):
    """Too short and too long series, wrong feature counts and unfitted models
    are refused, and leave the model usable."""
    from sklearn.exceptions import NotFittedError
    m, kw, A, y, lo, hi, d, k = _make(c, fit=False)
    X = gen.pad(A)
    fs = ("predict", "predict_proba", "transform", "locate")
    for f in fs:
        c.raises((NotFittedError,), lambda: getattr(m, f)(X), "an unfitted model is refused by %s" % f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.raises((ValueError,), lambda: m.fit(X, np.zeros(len(A))), "one class only is refused")
        m.fit(X, y)
    T = to_np(m.transform(X))
    top = max(m.n_shapelets_per_size_)
    cap = kw.get("max_size") or hi
    for f in fs:
        if top > 1:
            short = gen.pad([_series(c, top - 1, d), _series(c, cap, d)])
            c.raises((ValueError,), lambda: getattr(m, f)(short), "series shorter than a shapelet are refused by %s" % f)
        long = gen.pad([_series(c, cap + 1, d), _series(c, cap, d)])
        c.raises((ValueError,), lambda: getattr(m, f)(long), "too long series are refused by %s" % f)
        c.raises((ValueError,), lambda: getattr(m, f)(np.concatenate([X, X], 2)), "a wrong number of features is refused by %s" % f)
    c.close(to_np(m.transform(X)), T, "refused calls leave the model alone", rtol=0, atol=0)
    c.cover("refuse-%s" % ("sizes" if "n_shapelets_per_size" in kw else "default"))


def locate_doc(c):
    """Heuristic sizes follow the documented formula."""
    from tslearn.shapelets import grabocka_params_to_shapelet_size_dict as g
    for _ in range(10):
        n, sz, k = int(c.rng.randint(2, 300)), int(c.rng.randint(4, 200)), int(c.rng.randint(2, 6))
        l, r = float(c.choice([.05, .1, .2])), int(c.rng.randint(1, 4))
        got = g(n, sz, k, l, r)
        base = max(int(l * sz), 1)
        want = {base * (i + 1): max(1, int(np.log10(n * (sz - base * (i + 1) + 1) * (k - 1)))) for i in range(min(r, sz))}
        c.equal(dict(got), want, "heuristic sizes and numbers of shapelets")
    c.cover("heuristic")


def large(c):
    """Hundreds of series in one call (several network batches), long series, many shapelets."""
    m, kw, A, y, lo, hi, d, k = _make(c, max_size=int(c.choice([30, 150])), max_iter=1)
    cap = kw["max_size"]
    top = max(len(s) for s in m.shapelets_)
    n = int(c.choice([33, 257, 300]))
    B = [_series(c, int(c.rng.randint(top, cap + 1)), d) for _ in range(n)]
    S = _shapelets(c, m, kw)
    X = gen.pad(B)
    got, loc = to_np(m.transform(X)), to_np(m.locate(X))
    P = to_np(m.predict_proba(X))
    pred = m.predict(X)
    c.ok(len(got) == len(loc) == len(P) == len(pred) == n, "many series: one row each")
    pick = sorted({0, n - 1, *[int(v) for v in c.rng.randint(n, size=40)]})
    Z = _scaled([B[i] for i in pick], kw)
    T, D, tol = _oracle(c, S, Z)
    c.ok((np.abs(got[pick] - T) <= tol).all(), "many series: the transform is the smallest mean squared distance",
         worst=float(np.abs(got[pick] - T).max()))
    for a, i in enumerate(pick):
        for q, s in enumerate(S):
            j = int(loc[i, q])
            c.ok(0 <= j <= len(B[i]) - len(s) and D[a][q][j] <= T[a, q] + 2 * tol[a, q],
                 "many series: the location is a window attaining the smallest distance", series=i, loc=j)
    few = gen.pad([B[i] for i in pick])
    c.close(to_np(m.predict_proba(few)), P[pick], "many series: probabilities do not depend on the batch", rtol=1e-4, atol=1e-4)
    c.event("series transformed at once", n)
    c.cover("large", n, cap, kw["batch_size"], kw["scale"])


WORKLOADS = [W(large, 4), W(fitted, 16), W(weights, 12), W(levels, 6), W(refit, 4), W(reload, 4), W(refuse, 6), W(locate_doc, 4)]

META = dict(
    technique="runtime monitoring: every transform, location and probability is checked online against brute force over all windows with the exposed shapelets and weights",
    rule="Each transform value is within float32 rounding of the smallest mean squared distance over the windows of the observed part, the location is a window inside the series "
         "attaining it, probabilities are the exposed dense layer applied to the transform, and reloaded or refitted models reproduce outputs.",
    note="Shapelets are judged as exposed (the training optimiser is Keras); the initial clustering draws fewer windows to make training cheap.",
    assumptions="Keras layers other than the library's own; float32 rounding of 3e-6 times the squared magnitudes",
    case_timeout=120,
)
