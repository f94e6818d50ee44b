"""P13: trailing padding never changes a result."""
import numpy as np

from vmon import gen, zoo
from vmon.core import W, to_np

NAMES = [k for k in zoo.ALL if k not in ("kshape", "mlp_clf", "mlp_reg", "early")]


def amount(rng, lo, hi):
    """A number of missing steps: usually few, sometimes much more than the data."""
    return int(rng.randint(lo, hi)) if rng.rand() > .07 else int([17, 40, 130, 300][rng.randint(4)])


def tail(rng, x, k=None):
    """x followed by k missing steps."""
    k = amount(rng, 1, 7) if k is None else k
    return np.concatenate([x, np.full((k, x.shape[1]), np.nan)])


def unpad(v, extra):
    return v


def _strip(a, keep):
    """Cut the time axis; what is cut must be missing."""
    a = np.asarray(a, float)
    return a[:, :keep], bool(np.isnan(a[:, keep:]).all())


def _same(c, m, got, want, what, keep=None, **info):
    tol = 2e-4 if m.flags.get("float32") else 1e-8
    for k in want:
        g, w = got[k], want[k]
        if keep and isinstance(g, np.ndarray) and g.ndim >= 2:
            w2, _ = _strip(w, keep)
            g, blank = _strip(g, w2.shape[1])
            c.ok(blank, "outputs are missing where the input is padded", method=k, got=got[k], **info)
            w = w2
        c.ok(zoo.same(g, w, tol, tol), what, method=k, got=g, want=w, **info)


def models(c):
    """Fit on padded training data, query with padded queries."""
    m = zoo.draw(c, NAMES, ties=False)
    if not m.flags["ragged"]:
        c.skip()
    try:
        e = m.make()
        m.fit(e)
        o, s = m.outputs(e), m.fitted(e)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
        raise
    k1, k2 = amount(c.rng, 0, 6), amount(c.rng, 0, 6)
    if not k1 + k2:
        k1 = 3
    c.note(train_padding=k1, query_padding=k2)
    keep = max(len(x) for x in m.Q) if m.flags.get("keeps_time") else None
    _same(c, m, m.outputs(e, extra=k2), o, "padding the queries changes nothing", keep, pad=k2)
    e2 = m.make()
    m.fit(e2, extra=k1)
    _same(c, m, m.outputs(e2), o, "padding the training data changes nothing", keep, pad=k1)
    _same(c, m, m.outputs(e2, extra=k2), o, "padding both changes nothing", keep, pad=(k1, k2))
    f = m.fitted(e2)
    tol = 2e-4 if m.flags.get("float32") else 1e-8
    for k in s:
        g, w = f[k], s[k]
        if k == "cluster_centers_":
            n = min(g.shape[1], w.shape[1])
            c.ok(np.isnan(g[:, n:]).all() and np.isnan(w[:, n:]).all(), "centers have no observed padding")
            g, w = g[:, :n], w[:, :n]
        c.ok(zoo.same(g, w, tol, tol), "padding the training data changes no fitted result", name=k, got=g, want=w)
    c.event("models_compared")


def pairs(c):
    """Two-series measures: padded, as lists, unpadded."""
    import tslearn.metrics as M
    rng = c.rng
    a, b = gen.pair(rng, 1, 20, gen.dim(rng, 3))
    n, m_ = len(a), len(b)
    be = c.choice([None, "numpy", "torch"])
    r = abs(n - m_) + 2
    fs = {
        "dtw": lambda x, y: M.dtw(x, y, be=be), "dtw_band": lambda x, y: M.dtw(x, y, sakoe_chiba_radius=r, be=be),
        "dtw_itakura": lambda x, y: M.dtw(x, y, global_constraint="itakura", itakura_max_slope=3., be=be) if .4 < n / m_ < 2.5 and min(n, m_) > 4 else 0.,
        "dtw_path": lambda x, y: M.dtw_path(x, y, be=be), "dtw_path_band": lambda x, y: M.dtw_path(x, y, global_constraint="sakoe_chiba", sakoe_chiba_radius=1, be=be),
        "dtw_path_metric": lambda x, y: M.dtw_path_from_metric(x, y, metric="sqeuclidean" if be == "torch" else "cityblock", be=be),
        "frechet": lambda x, y: M.frechet(x, y, be=be), "frechet_path": lambda x, y: M.frechet_path(x, y, be=be),
        "soft_dtw": lambda x, y: M.soft_dtw(x, y, gamma=.6, be=be), "soft_dtw_align": lambda x, y: M.soft_dtw_alignment(x, y, gamma=.6, be=be),
        "soft_dtw_normalized": lambda x, y: M.soft_dtw_normalized(x, y, gamma=.6, be=be),
        "gak": lambda x, y: M.gak(x, y, sigma=2., be=be), "ugak": lambda x, y: M.unnormalized_gak(x, y, sigma=2., be=be),
        "lcss": lambda x, y: M.lcss(x, y, eps=.7, be=be), "lcss_path": lambda x, y: M.lcss_path(x, y, eps=.7, be=be),
        "lcss_metric": lambda x, y: M.lcss_path_from_metric(x, y, eps=.7, metric="sqeuclidean" if be == "torch" else "cityblock", be=be),
        "subsequence": lambda x, y: M.dtw_subsequence_path(x if n <= m_ else y, y if n <= m_ else x, be=be),
        "limited": lambda x, y: M.dtw_limited_warping_length(x, y, max(n, m_) + 1, be=be),
        "limited_path": lambda x, y: M.dtw_path_limited_warping_length(x, y, max(n, m_) + 1, be=be),
    }
    name = c.choice(sorted(fs))
    f = fs[name]
    c.note(s1=a, s2=b, measure=name, be=be)
    want = zoo.as_np(f(a, b))
    tol = dict(rtol=1e-10, atol=1e-10)
    for what, x, y in (("first", tail(rng, a), b), ("second", a, tail(rng, b)), ("both", tail(rng, a), tail(rng, b)), ("both lists", tail(rng, a).tolist(), tail(rng, b).tolist())):
        if what == "both lists" and be == "torch":
            continue            # lists of floats are single precision there
        got = zoo.as_np(f(x, y))
        c.ok(zoo.same(got, want, **tol), "padding a series changes no measure", which=what, got=got, want=want)
    c.cover(name, n, m_, a.shape[1], be)


def ctw(c):
    import tslearn.metrics as M
    rng = c.rng
    d1, d2 = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    a, b = gen.values(rng, int(rng.randint(6, 14)), d1, "walk"), gen.values(rng, int(rng.randint(6, 14)), d2, "walk")
    kw = dict(max_iter=int(rng.randint(1, 4)))
    c.note(s1=a, s2=b, kw=kw)
    want = float(M.ctw(a, b, **kw))
    c.close(float(M.ctw(tail(rng, a), tail(rng, b), **kw)), want, "padding changes no canonical time warping", rtol=1e-9)
    c.close(float(M.ctw(a, tail(rng, b), **kw)), want, "padding changes no canonical time warping", rtol=1e-9)
    p = M.ctw_path(a, b, **kw)
    q = M.ctw_path(tail(rng, a), tail(rng, b), **kw)
    c.ok(zoo.same(zoo.as_np(list(map(list, p[0]))), zoo.as_np(list(map(list, q[0])))), "padding changes no alignment", got=q[0], want=p[0])
    c.cover(len(a), len(b), d1, d2)


def cross(c):
    """Datasets: lists, minimal padding, more padding."""
    import tslearn.metrics as M
    from tslearn.clustering import silhouette_score
    rng = c.rng
    n1, n2, d = int(rng.randint(2, 7)), int(rng.randint(1, 5)), gen.dim(rng, 2)
    A = gen.dataset(rng, n1, 2, 10, d, False)
    B = gen.dataset(rng, n2, 2, 10, d, False)
    be = c.choice([None, None, "torch"])
    lab = np.arange(n1) % 2
    fs = {
        "cdist_dtw": lambda x, y: M.cdist_dtw(x, y, be=be), "cdist_dtw_self": lambda x, y: M.cdist_dtw(x, be=be),
        "cdist_dtw_band": lambda x, y: M.cdist_dtw(x, y, sakoe_chiba_radius=10, be=be),
        "cdist_dtw_sakoe": lambda x, y: M.cdist_dtw(x, global_constraint="sakoe_chiba", sakoe_chiba_radius=1, be=be),
        "cdist_frechet": lambda x, y: M.cdist_frechet(x, y, be=be), "cdist_frechet_self": lambda x, y: M.cdist_frechet(x, be=be),
        "cdist_soft": lambda x, y: M.cdist_soft_dtw(x, y, gamma=.8, be=be), "cdist_soft_n": lambda x, y: M.cdist_soft_dtw_normalized(x, y, gamma=.8, be=be),
        "cdist_gak": lambda x, y: M.cdist_gak(x, y, sigma=3., be=be), "cdist_gak_self": lambda x, y: M.cdist_gak(x, sigma=3., be=be),
        "silhouette": lambda x, y: silhouette_score(x, lab, metric="dtw") if n1 > 2 else 0.,
        "silhouette_soft": lambda x, y: silhouette_score(x, lab, metric="softdtw", metric_params={"gamma": .5}) if n1 > 2 else 0.,
    }
    name = c.choice(sorted(fs))
    f = fs[name]
    c.note(A=A, B=B, measure=name, be=be)
    want = zoo.as_np(f(gen.pad(A), gen.pad(B)))
    tol = dict(rtol=1e-9, atol=1e-9)
    k1, k2 = amount(rng, 1, 8), amount(rng, 0, 8)
    got = zoo.as_np(f(gen.pad(A, k1), gen.pad(B, k2)))
    c.ok(zoo.same(got, want, **tol), "padding datasets changes no measure", got=got, want=want, pad=(k1, k2))
    if be is None:
        got = zoo.as_np(f([x.copy() for x in A], [x.tolist() for x in B]))
        c.ok(zoo.same(got, want, **tol), "lists of series and padded arrays give the same", got=got, want=want)
        L = [tail(rng, x, int(rng.randint(0, 4))) for x in A]
        got = zoo.as_np(f(L, gen.pad(B)))
        c.ok(zoo.same(got, want, **tol), "padded series in a list give the same", got=got, want=want)
    c.cover(name, n1, n2, d, be)


def bandwidths(c):
    import tslearn.metrics as M
    rng = c.rng
    A = gen.dataset(rng, int(rng.randint(2, 7)), 2, 10, gen.dim(rng, 2), False)
    c.note(A=A)
    seed = int(rng.randint(1000))
    ns = int(rng.randint(3, 40))
    for name, f in (("sigma_gak", lambda x: M.sigma_gak(x, n_samples=ns, random_state=seed)), ("gamma_soft_dtw", lambda x: M.gamma_soft_dtw(x, n_samples=ns, random_state=seed))):
        want = float(f(gen.pad(A)))
        for k in (1, amount(rng, 2, 9)):
            c.close(float(f(gen.pad(A, k))), want, "padding changes no bandwidth", rtol=1e-9, which=name, pad=k)
        c.close(float(f([x.copy() for x in A])), want, "a list of series gives the same bandwidth", rtol=1e-9, which=name)
    c.cover(len(A), ns)


def barycenters(c):
    import tslearn.barycenters as B
    rng = c.rng
    n, d = int(rng.randint(1, 6)), gen.dim(rng, 2)
    equal = rng.rand() < .3
    A = gen.dataset(rng, n, 2, 9, d, equal, kind=c.choice(["gauss", "walk", "sine"]))
    L = max(len(x) for x in A)
    size = c.choice([None, L, max(2, L - 2)])
    init = c.choice([None, None, "given"])
    w = None if rng.rand() < .5 else .1 + rng.rand(n)
    ini = gen.values(rng, size or L, d, "gauss") if init else None
    seed = int(rng.randint(1000))
    it = int(rng.randint(1, 6))
    fs = {
        "dba": lambda x, i: B.dtw_barycenter_averaging(x, barycenter_size=size, init_barycenter=i, max_iter=it, weights=w),
        "dba_band": lambda x, i: B.dtw_barycenter_averaging(x, barycenter_size=size, init_barycenter=i, max_iter=it, weights=w, metric_params={"sakoe_chiba_radius": 9}),
        "petitjean": lambda x, i: B.dtw_barycenter_averaging_petitjean(x, barycenter_size=size, init_barycenter=i, max_iter=it, weights=w),
        "subgradient": lambda x, i: B.dtw_barycenter_averaging_subgradient(x, barycenter_size=size, init_barycenter=i, max_iter=it, random_state=seed, weights=w),
        "soft": lambda x, i: B.softdtw_barycenter(x, gamma=.9, weights=w, max_iter=it, init=i if i is not None else (None if equal or True else None)),
    }
    if equal:
        fs["euclidean"] = lambda x, i: B.euclidean_barycenter(x, weights=w)
    name = c.choice(sorted(fs))
    f = fs[name]
    if name == "soft" and init is None and not equal:
        ini = gen.values(rng, L, d, "gauss")
    c.note(A=A, measure=name, size=size, weights=w, init=ini, seed=seed, max_iter=it)
    np.random.seed(seed)
    with zoo.quiet():
        want = to_np(f(gen.pad(A), ini))
    k = amount(rng, 1, 8)
    np.random.seed(seed)
    with zoo.quiet():
        got = to_np(f(gen.pad(A, k), ini))
    c.close(got, want, "padding changes no barycenter", rtol=1e-7, atol=1e-8, pad=k, which=name)
    np.random.seed(seed)
    with zoo.quiet():
        got = to_np(f([x.copy() for x in A], ini))
    c.close(got, want, "a list of series has the same barycenter", rtol=1e-7, atol=1e-8, which=name)
    if ini is not None and name in ("dba", "petitjean", "subgradient", "dba_band"):
        np.random.seed(seed)
        with zoo.quiet():
            got = to_np(f(gen.pad(A), tail(rng, ini)))
        c.close(got, want, "padding the initial barycenter changes nothing", rtol=1e-7, atol=1e-8, which=name)
    c.ok(np.isfinite(want).all(), "barycenters are fully observed", got=want)
    c.cover(name, n, d, equal, w is None, size is None, ini is None)


def time_axis(c):
    """Transforms that keep the time axis: missing exactly on the padding."""
    m = zoo.draw(c, ["minmax", "meanvar", "imputer", "synchronizer", "matrix_profile"])
    k = amount(c.rng, 0, 5)
    e = m.make()
    m.fit(e)
    out = np.asarray(m.outputs(e, extra=k)["transform"], float)
    cut = m.params["subsequence_length"] - 1 if m.name == "matrix_profile" else 0
    c.ok(len(out) == len(m.Q), "one output per series")
    for i, x in enumerate(m.Q):
        n = len(x) - cut
        c.ok(np.isnan(out[i, n:]).all() and not np.isnan(out[i, :n]).any(), "outputs are missing exactly on the padding", row=i, got=out[i], observed=n, pad=k)
    c.event("time_axes")


def gaps(c):
    """Series with fully missing observations inside: padding is what comes
    after the last observation, however long, and not a gap."""
    from tslearn.preprocessing import TimeSeriesImputer, TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax
    from tslearn.utils import check_equal_size, to_time_series, to_time_series_dataset, ts_size
    rng = c.rng
    d = gen.dim(rng, 3)
    L = [int(rng.randint(2, c.choice([8, 60]))) for _ in range(int(rng.randint(1, 4)))]
    ts = []
    for n in L:
        x = rng.randn(n, d)
        x[rng.rand(n) < .3] = np.nan                # whole observations
        x[rng.rand(n, d) < .1] = np.nan             # single values
        x[0], x[-1, 0] = rng.randn(d), 1.
        ts.append(x)
    k = amount(rng, 1, 7)
    c.note(series=ts, padding=k)
    X, Z = gen.pad(ts), gen.pad(ts, k)
    for x in ts:
        z = tail(rng, x, k)
        for form, v in (("array", z), ("list", z.tolist())):
            c.equal(int(ts_size(v)), len(x), "the size of a padded series with gaps", form=form)
            c.close(to_time_series(v, remove_nans=True), x, "a padded series with gaps is cut after its last observation", form=form)
    c.close(to_time_series_dataset(Z), X, "formatting a padded dataset with gaps")
    c.close(to_time_series_dataset([tail(rng, x) for x in ts]), X, "formatting padded series with gaps")
    c.equal(bool(check_equal_size(Z)), len(set(L)) == 1, "equal sizes of padded series with gaps")
    for name, e in [("imputer " + q, TimeSeriesImputer(q, keep_trailing_nans=True)) for q in ("mean", "median", "ffill", "bfill", "linear")] + \
            [("min-max", TimeSeriesScalerMinMax()), ("mean-variance", TimeSeriesScalerMeanVariance())]:
        want, got = to_np(e.fit_transform(X)), to_np(e.fit_transform(Z))
        got, blank = _strip(got, X.shape[1])
        c.ok(blank and got.shape == want.shape, name + ": padding stays missing")
        c.close(got, want, name + ": padding does not change series with gaps", rtol=1e-9, atol=1e-12)
    c.cover(L, k, d)


def crowd(c):
    """Many series of very different lengths, one much longer than the rest."""
    import tslearn.metrics as M
    from tslearn.preprocessing import TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax
    from tslearn.neighbors import KNeighborsTimeSeries
    rng = c.rng
    n, d = int(c.choice([40, 130, 400])), gen.dim(rng, 3)
    A = [rng.randn(int(rng.randint(1, 7)), d) for _ in range(n)]
    far = int(c.choice([60, 200, 500]))
    A[int(rng.randint(n))] = np.cumsum(rng.randn(far, d), 0)
    k = int(c.choice([1, 3, 60]))
    B = [A[i] for i in rng.permutation(n)[:25]]
    name = c.choice(["dtw", "frechet", "gak", "soft", "knn", "minmax", "meanvar"])
    f = {"dtw": lambda x, y: M.cdist_dtw(y, x), "frechet": lambda x, y: M.cdist_frechet(y, x),
         "gak": lambda x, y: M.cdist_gak(y[:, :7], x[:, :7], sigma=2.), "soft": lambda x, y: M.cdist_soft_dtw(y, x, gamma=.7),
         "knn": lambda x, y: KNeighborsTimeSeries(n_neighbors=6, metric="dtw").fit(x).kneighbors(y),
         "minmax": lambda x, y: TimeSeriesScalerMinMax(per_timeseries=False).fit(x).transform(y)[:, :far],
         "meanvar": lambda x, y: TimeSeriesScalerMeanVariance(per_timeseries=False).fit(x).transform(y)[:, :far]}[name]
    XA, XB = gen.pad(A), gen.pad(B)
    c.note(n=n, d=d, far=far, extra=k, measure=name)
    want = f(XA, XB)
    for x, y in ((gen.pad(A, k), XB), (XA, gen.pad(B, k)), (gen.pad(A, k), gen.pad(B, k + 1))):
        got = f(x, y)
        for g, w in zip(got, want) if isinstance(want, tuple) else ((got, want),):
            g, w = np.asarray(g, float), np.asarray(w, float)
            if name in ("minmax", "meanvar"):
                t = min(g.shape[1], w.shape[1])
                c.ok(np.isnan(g[:, t:]).all() and np.isnan(w[:, t:]).all(), "outputs are missing where the input is padded")
                g, w = g[:, :t], w[:, :t]
            c.ok(zoo.same(g, w, 1e-9, 1e-9), "padding a large ragged dataset changes nothing", measure=name)
    c.cover("crowd", name, n, far, d, k)


WORKLOADS = [W(crowd, 20), W(gaps, 80), W(models, 210), W(pairs, 240), W(ctw, 25), W(cross, 170), W(bandwidths, 80), W(barycenters, 150), W(time_axis, 120)]

META = dict(
    technique="metamorphic runtime monitoring: every public measure, barycenter and estimator re-run with other amounts of trailing missing values and as lists, results compared",
    rule="random variable-length data; the same call with 0-8 (sometimes up to 300) extra missing steps on each argument, as lists and with minimal padding",
    note="equality within 1e-8 (2e-4 single-precision networks)",
    assumptions=["PAA, SAX and 1d-SAX cut each observed series as its own length says", "lb_envelope is not part: its output is per input step"],
)
