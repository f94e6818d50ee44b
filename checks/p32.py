"""P32: what a series gets does not depend on the batch it comes in."""
import numpy as np

from vmon import gen, zoo
from vmon.core import W

NAMES = [k for k in zoo.ALL if k not in ("dbscan",)]
EXACT = {"dtw", "frechet", "sax", "softdtw", "ctw"}


def _fitted(c, names=NAMES, **kw):
    m = zoo.draw(c, names, **kw)
    e = m.make()
    try:
        m.fit(e)
        o = m.outputs(e)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
        raise
    return m, e, o


def take(v, idx):
    """Rows of an output, whatever its nesting."""
    return [take(x, idx) for x in v] if isinstance(v, list) else v[np.asarray(idx)]


def fill(a, shape):
    a = np.asarray(a)
    if a.shape == shape or a.dtype.kind not in "fiu" or a.ndim != len(shape):
        return a
    r = np.full(shape, np.nan)
    r[tuple(slice(0, s) for s in a.shape)] = a
    return r


def agree(a, b, tol, keeps_time):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y, tol, keeps_time) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if keeps_time and a.ndim == b.ndim and a.shape != b.shape:
        sh = tuple(max(s, t) for s, t in zip(a.shape, b.shape))
        a, b = fill(a, sh), fill(b, sh)
    return zoo.same(a, b, tol, tol)


def tol_of(m):
    if m.flags.get("float32"):
        return 2e-4
    return 1e-9 if m.flags["metric"] in EXACT else 1e-7


def tied(m, o, tol):
    """Discrete outputs standing on a near tie of their continuous ones."""
    f = m.flags["metric"]
    if f in zoo.FLAT_METRICS or f == "ctw":
        # matrix products: distances (and the order of equal ones) up to rounding
        from vmon.core import to_np
        D = None
        if "kneighbors" in o:
            D = to_np(o["kneighbors"][0])
        return D is not None and (np.diff(D, axis=1) < 1e-6).any()
    return False


def _labels_near_tie(m, o):
    for k in ("predict_proba", "decision_function", "transform"):
        v = o.get(k)
        if k == "transform" and m.name != "kmeans":
            continue
        if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] > 1:
            s = np.sort(v, axis=1)
            if m.name == "kmeans":
                if (np.diff(s, axis=1)[:, :1] < 1e-7 * (1 + s[:, 1:2])).any():
                    return True
            elif (s[:, -1] - s[:, -2] < 1e-4).any():
                return True
        elif isinstance(v, np.ndarray) and v.ndim == 1 and k == "decision_function" and (np.abs(v) < 1e-6).any():
            return True
    return False


def _compare(c, m, got, want, what, **info):
    """Continuous outputs within tolerance; discrete ones unless near a tie."""
    tol = tol_of(m)
    near = tied(m, want, tol) or (m.metric_inexact and _labels_near_tie(m, want))
    for k in want:
        if near and k in ("predict", "kneighbors", "predict_proba", "locate"):
            c.event("near_ties_skipped")
            continue
        c.ok(agree(got[k], want[k], tol, m.flags.get("keeps_time")), what, method=k, got=got[k], want=want[k], **info)


def _prep(m):
    m.metric_inexact = m.flags["metric"] not in {"dtw", "frechet", "sax"}
    return m


def alone(c):
    """Each row equals what the series gets alone, reversed, repeated."""
    m, e, o = _fitted(c)
    _prep(m)
    nq = len(m.Q)
    perm = c.rng.permutation(nq)
    _compare(c, m, m.outputs(e, [m.Q[i] for i in perm]), {k: take(v, perm) for k, v in o.items()}, "permuting the batch permutes the results", perm=perm)
    for i in range(nq):
        _compare(c, m, m.outputs(e, [m.Q[i]]), {k: take(v, [i]) for k, v in o.items()}, "a series alone gets what it gets in the batch", row=i)
    rep = c.rng.randint(nq, size=nq + 3)
    _compare(c, m, m.outputs(e, [m.Q[i] for i in rep]), {k: take(v, rep) for k, v in o.items()}, "a repeated series gets the same result every time", rep=rep)
    c.event("models_checked")


def company(c):
    """Other series in the batch (longer, shorter, huge, training ones)."""
    m, e, o = _fitted(c, [k for k in NAMES if k not in ("autovarima",)])
    _prep(m)
    d = m.A[0].shape[1]
    kind = c.choice(["training", "scaled", "shifted", "short", "long", "alike", "alike"])
    if not m.flags["ragged"] and kind in ("short", "long"):
        kind = "training"
    if m.flags["metric"] in ("mlp",) + tuple(zoo.FLAT_METRICS) and kind in ("scaled", "shifted"):
        kind = "training"          # products of matrices: rounding follows the largest entries
    if kind == "training":
        others = [x.copy() for x in m.A]
    elif kind == "scaled":
        others = [30. * x for x in m.A]
    elif kind == "shifted":
        others = [x + 50. for x in m.A]
    elif kind == "alike":            # the same beginning (or end), then something else
        others = []
        for x in [m.Q[i] for i in c.rng.randint(len(m.Q), size=2 * len(m.Q))]:
            k, y = int(c.rng.randint(1, max(2, len(x)))), x.copy()
            z = m.A[c.rng.randint(len(m.A))]
            z = z[np.arange(len(x)) % len(z)]
            if c.rng.rand() < .7:
                y[k:] = z[k:]
            else:
                y[:-k] = z[:-k]
            others.append(y)
    elif kind == "short":
        lo = min(len(x) for x in m.A)
        others = [x[:lo] for x in m.A]
    else:
        ext = int(c.rng.randint(1, 6))
        if m.name == "shapelets":
            ms = m.params.get("max_size") or max(len(x) for x in m.A)
            ext = max(0, ms - max(len(x) for x in m.A))
        others = [np.concatenate([x, x[-1:] + c.rng.randn(ext, d)]) for x in m.A]
    nq, n = len(m.Q), len(others)
    pos = c.rng.permutation(nq + n)
    pool = m.Q + others
    batch = [pool[i] for i in pos]
    where = [int(np.where(pos == i)[0][0]) for i in range(nq)]
    g = m.outputs(e, batch)
    _compare(c, m, {k: take(v, where) for k, v in g.items()}, o, "company in the batch changes nothing", company=kind)
    # half batches put together
    h = nq // 2
    if h:
        a, b = m.outputs(e, m.Q[:h]), m.outputs(e, m.Q[h:])
        for tag, part, sl in (("first", a, range(h)), ("second", b, range(h, nq))):
            _compare(c, m, part, {k: take(v, list(sl)) for k, v in o.items()}, "splitting the batch changes nothing", part=tag)
    c.event("company_" + kind)


def crowd(c):
    """The series among hundreds of others, at random places."""
    slow = ("shapelets", "autovarima", "varima", "kshape", "early")
    m, e, o = _fitted(c, [k for k in NAMES if k not in slow or c.rng.rand() < .3])
    _prep(m)
    if m.flags["metric"] == "ctw":
        c.skip()
    r = c.rng
    n = int(c.choice([70, 140, 270] if m.name in slow or r.rand() < .75 else [600, 1100]))
    nq = len(m.Q)
    pool = m.Q + [x.copy() for x in m.A]
    if m.flags["metric"] not in ("mlp",) + tuple(zoo.FLAT_METRICS):
        pool += [x + .3 * r.randn(*x.shape) for x in m.A]
    pick = np.concatenate([np.arange(nq), r.randint(0, len(pool), size=n - nq)])
    pick = pick[r.permutation(n)]
    g = m.outputs(e, [pool[i] for i in pick])
    for i in range(3):      # several places of each query
        where = [int(r.choice(np.where(pick == q)[0])) for q in range(nq)]
        _compare(c, m, {k: take(v, where) for k, v in g.items()}, o, "a crowd in the batch changes nothing", size=n)
    c.event("series in crowds", n)
    c.cover("crowd", m.name, m.flags["metric"], n)


FAR = ["kmeans", "knn", "knn_clf", "knn_reg", "minmax", "meanvar", "resampler", "imputer", "paa", "matrix_profile"]


def far(c):
    """Integer series far from zero: what is exact for one is exact in a crowd."""
    m = zoo.draw(c, FAR)
    f = m.flags["metric"]
    if f in ("sax", "ctw", "softdtw") or f in zoo.FLAT_METRICS and m.name != "kmeans":
        c.skip()
        return
    off = 2. ** int(c.choice([20, 26, 30]))
    A, Q = ([np.round(4 * x) + off for x in S] for S in (m.A, m.Q))
    c.note(offset=off)
    e = m.make()
    try:
        m.fit(e, A)
        o = m.outputs(e, Q)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
            return
        raise
    _prep(m)
    n, nq = int(c.choice([20, 70, 140])), len(Q)
    pool = Q + A + [x + np.round(2 * c.rng.randn(*x.shape)) for x in A]
    pick = np.concatenate([np.arange(nq), c.rng.randint(0, len(pool), size=n - nq)])[c.rng.permutation(n)]
    g = m.outputs(e, [pool[i] for i in pick])
    where = [int(c.rng.choice(np.where(pick == q)[0])) for q in range(nq)]
    _compare(c, m, {k: take(v, where) for k, v in g.items()}, o, "a crowd in the batch changes nothing", size=n, far=True)
    c.event("far series in crowds", n)
    c.cover("far", m.name, f, n)


PERM = ["knn", "knn_clf", "knn_reg", "dbscan", "minmax", "meanvar", "sax", "sax1d", "varima", "paa"]


def training_order(c):
    """A permuted training set gives correspondingly permuted results."""
    m, e, o = _fitted(c, PERM, ties=False)
    _prep(m)
    if m.name == "varima" and m.params.get("q"):
        c.skip()
    n = len(m.A)
    perm = c.rng.permutation(n)
    e2 = m.make()
    m.fit(e2, [m.A[i] for i in perm], y=None if m.y is None else m.y[perm])
    if m.name == "dbscan":
        l1, l2 = np.asarray(e.labels_), np.asarray(e2.labels_)
        core1, core2 = set(map(int, e.core_ts_indices_)), {int(perm[i]) for i in e2.core_ts_indices_}
        c.ok(core1 == core2, "same core series whatever the order", got=core2, want=core1)
        back = np.empty(n, int)
        back[perm] = l2
        c.ok(np.array_equal(back == -1, l1 == -1), "same noise whatever the order", got=back, want=l1)
        cs = sorted(core1)
        pairs = {(int(l1[i]), int(back[i])) for i in cs}
        c.ok(len(pairs) == len({p[0] for p in pairs}) == len({p[1] for p in pairs}), "same clusters of core series whatever the order", got=back, want=l1)
        c.event("orders_dbscan")
        return
    g = m.outputs(e2)
    tol = 1e-6 if m.name in ("varima", "minmax", "meanvar", "sax", "sax1d") else tol_of(m)
    if m.name in ("sax", "sax1d"):
        # statistics differ in the last bits: symbols on a breakpoint may flip
        bad = np.mean(np.asarray(g["transform"]) != np.asarray(o["transform"]))
        c.ok(bad < .02 or np.asarray(o["transform"]).size < 200 and (np.abs(np.asarray(g["transform"]) - np.asarray(o["transform"])) <= 1).all(), "symbols do not depend on the order of training", got=g, want=o)
        c.event("orders_sax")
        return
    if "kneighbors" in o:
        D, I = o["kneighbors"]
        D2, I2 = g["kneighbors"]
        c.close(D2, D, "neighbour distances do not depend on the order of training", rtol=tol, atol=tol)
        # ties: the k nearest are one set only when the (k+1)-th is farther
        from tslearn.neighbors import KNeighborsTimeSeries
        alld = np.sort(np.asarray(e.kneighbors(gen.pad(m.Q), n_neighbors=n)[0]), axis=1)
        gap = np.diff(alld, axis=1)
        if (gap < 1e-6 * (1 + np.abs(alld[:, 1:]))).any():
            c.event("near_ties_skipped")
            return
        c.equal(perm[np.asarray(I2)], I, "same neighbours whatever the order of training")
    for k in o:
        if k != "kneighbors":
            c.close(g[k], o[k], "results do not depend on the order of training", rtol=tol, atol=tol, method=k) if np.asarray(o[k]).dtype.kind == "f" else \
                c.equal(g[k], o[k], "labels do not depend on the order of training", method=k)
    c.event("orders_checked")


def measures(c):
    """Cross-distances of parts are the parts of the cross-distances."""
    import tslearn.metrics as M
    from vmon.core import to_np
    rng = c.rng
    n1, n2, d = int(rng.randint(1, 7)), int(rng.randint(1, 6)), gen.dim(rng, 2)
    A = gen.dataset(rng, n1, 2, 9, d, False)
    B = gen.dataset(rng, n2, 2, 9, d, False)
    fs = {"cdist_dtw": lambda a, b: M.cdist_dtw(a, b), "cdist_frechet": lambda a, b: M.cdist_frechet(a, b),
          "cdist_soft_dtw": lambda a, b: M.cdist_soft_dtw(a, b, gamma=.7), "cdist_gak": lambda a, b: M.cdist_gak(a, b, sigma=2.),
          "cdist_dtw_band": lambda a, b: M.cdist_dtw(a, b, global_constraint="sakoe_chiba", sakoe_chiba_radius=2)}
    name = c.choice(sorted(fs))
    f = fs[name]
    c.note(A=A, B=B, measure=name)
    c.cover(name, n1, n2, d)
    full = to_np(f(gen.pad(A), gen.pad(B)))
    p, q = rng.permutation(n1), rng.permutation(n2)
    tol = dict(rtol=1e-9, atol=1e-9)
    c.close(f(gen.pad([A[i] for i in p]), gen.pad([B[j] for j in q])), full[np.ix_(p, q)], "permuting the sets permutes the matrix", **tol)
    i, j = int(rng.randint(n1)), int(rng.randint(n2))
    c.close(f(gen.pad([A[i]]), gen.pad([B[j]])), full[i:i + 1, j:j + 1], "an entry depends on its two series only", **tol)
    k = int(rng.randint(1, n1 + 1))
    c.close(f(gen.pad(A[:k]), gen.pad(B)), full[:k], "rows of a part are rows of the whole", **tol)
    S = to_np(f(gen.pad(A), None) if name != "cdist_soft_dtw" else f(gen.pad(A), gen.pad(A)))
    c.close((f(gen.pad([A[i] for i in p]), None) if name != "cdist_soft_dtw" else f(gen.pad([A[i] for i in p]), gen.pad([A[i] for i in p]))), S[np.ix_(p, p)], "permuting one set permutes its matrix", **tol)
    c.event("matrices")


WORKLOADS = [W(crowd, 80), W(alone, 170), W(company, 190), W(far, 60), W(training_order, 170), W(measures, 160)]

META = dict(
    technique="metamorphic runtime monitoring of fitted estimators: permuted, split, repeated, extended and single-series batches of the real predict/transform calls compared row by row; permuted training sets",
    rule="a random estimator configuration (23 families) with random data is fitted; the same query series are then presented in other batches and the rows compared",
    note="continuous outputs within 1e-9 (1e-7 where matrix products or iterative fits are involved, 2e-4 for single-precision networks); labels only when no near tie decides",
    assumptions=["metrics computed through matrix products (euclidean...) may round differently in other batches",
                 "stochastic and order-dependent fits (k-means, networks, SVM with gamma auto) are excluded from training permutations"],
)
