"""P21: barycenters average, and iterative ones never get worse."""
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W

warnings.simplefilter("ignore")

DBA = ["dtw_barycenter_averaging", "dtw_barycenter_averaging_petitjean"]


def _constraint(c, sizes, B):
    """A constraint admissible between the barycenter and every series."""
    for _ in range(12):
        kw, (kind, p) = gen.constraint(c.rng, B, max(sizes), .4)
        good = True
        for L in set(sizes):
            for a, b in ((L, B), (B, L)):
                i, _ = ref.masks(kind, p, a, b)
                good &= kind == "none" or bool(ref.feasible(i) and i.any(0).all() and i.any(1).all())
        if good:
            return kw, kind
    return {}, "none"


def _cost(ts, w, b, kw):
    """Weighted mean squared constrained DTW, both argument orders."""
    from tslearn.metrics import dtw
    return sum(wi * dtw(b, x, **kw) ** 2 for wi, x in zip(w, ts)) / sum(w)


def _draw(c, equal=None, kind=None):
    d = gen.dim(c.rng, 3)
    ts = gen.dataset(c.rng, int(c.rng.randint(1, 6)), 2, 14, d, equal, kind=kind)
    u = c.rng.rand()
    n = len(ts)
    if u < .4:
        w = None
    elif u < .7:
        w = c.rng.rand(n) + .05
    elif u < .85:
        w = c.rng.randint(1, 5, size=n).astype(float)
    else:
        w = c.rng.randint(0, 3, size=n).astype(float)
        w[c.rng.randint(n)] = 1.5
    return ts, d, w


def _fn(name):
    import tslearn.barycenters as B
    return getattr(B, name)


def _keep(c, X, w, mp):
    return (X.copy() if isinstance(X, np.ndarray) else [x.copy() for x in X], None if w is None else w.copy(), dict(mp))


def _same(c, before, X, w, mp, what):
    a = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before[0], X))
    c.ok(a, "%s leaves the series alone" % what)
    c.ok(w is None or np.array_equal(before[1], w), "%s leaves the weights alone" % what)
    c.ok(before[2] == mp, "%s leaves the metric parameters alone" % what)


def euclidean(c):
    from tslearn.barycenters import euclidean_barycenter
    ts, d, w = _draw(c, equal=True)
    X = c.choice([gen.pad(ts), np.asfortranarray(gen.pad(ts)), ts])
    c.note(ts=ts, w=w)
    k = _keep(c, X, w, {})
    b = euclidean_barycenter(X, weights=w)
    _same(c, k, X, w, {}, "Euclidean barycenter")
    u = np.ones(len(ts)) if w is None else w
    want = sum(ui * x for ui, x in zip(u, ts)) / u.sum()
    s = max(1., max(np.abs(x).max() for x in ts))
    c.close(b, want, "Euclidean barycenter is the weighted mean", rtol=1e-9, atol=1e-10 * s)
    c.close(euclidean_barycenter(X, weights=u * 8), b, "Euclidean barycenter: scale of the weights", rtol=1e-12, atol=1e-12 * s)
    c.close(euclidean_barycenter([ts[0]] * 3), ts[0], "Euclidean barycenter of copies", rtol=1e-12, atol=1e-12 * s)
    c.cover("euc", len(ts), d, len(ts[0]), w is None)


def dba(c):
    """Size, cost against the initialisation, inputs, scale of the weights, reported inertia."""
    ts, d, w = _draw(c)
    name = c.choice(DBA)
    f = _fn(name)
    m = max(map(len, ts))
    size = None if c.rng.rand() < .4 else int(c.choice([1, 2, m, m + 3, max(2, m // 2)]))
    init = None if c.rng.rand() < .5 else gen.values(c.rng, size or gen.length(c.rng, 1, 12), d)
    B = len(init) if init is not None else (size or m)
    mp, kind = _constraint(c, [len(x) for x in ts], B)
    it = int(c.choice([1, 2, 5, 30]))
    X = gen.pad(ts) if c.rng.rand() < .7 else [x.copy() for x in ts]
    c.note(ts=ts, w=w, name=name, size=size, init=init, metric_params=mp, max_iter=it)
    kw = dict(barycenter_size=size, init_barycenter=init, max_iter=it, metric_params=mp if mp or c.rng.rand() < .5 else None)
    i0 = None if init is None else init.copy()
    k = _keep(c, X, w, mp)
    b = f(X, weights=w, **kw)
    _same(c, k, X, w, mp, name)
    if init is not None:
        form, how = gen.reform(c.rng, init)
        c.equal(f(X, weights=w, **dict(kw, init_barycenter=form)), b, "%s: any form of the initial barycenter" % name, form=how)
    c.ok(init is None or np.array_equal(init, i0), "%s leaves the initial barycenter alone" % name)
    if not c.ok(b is not None and b.shape == (B, d) and np.isfinite(b).all(), "%s: requested size, observed values" % name,
                got=b, want=(B, d)):
        c.stop()
    u = np.ones(len(ts)) if w is None else w
    start = init
    if start is None:
        start = f(X, **dict(kw, max_iter=0))
        if not c.ok(start is not None and np.shape(start) == (B, d), "%s: no iteration, the initial barycenter" % name, got=start):
            c.stop()
        P = np.nanmean(gen.pad(ts), axis=0)
        want = P if B == m else np.array([[np.interp(t, np.linspace(0, 1, m), P[:, j]) for j in range(d)]
                                          for t in np.linspace(0, 1, B)])
        c.close(start, want, "%s: initialised with the mean" % name, rtol=1e-8, atol=1e-8 * max(1., np.abs(want).max()))
    c0, c1 = _cost(ts, u, start, mp), _cost(ts, u, b, mp)
    s2 = max(1., max(np.abs(x).max() for x in ts)) ** 2
    c.ok(c1 <= c0 + 1e-7 * s2 + 1e-6 * c0, "%s: does not cost more than its initialisation" % name, got=c1, start=c0)
    c.event("improved" if c1 < c0 - 1e-9 * s2 else "already optimal")
    c.equal(f(X, weights=u * 4., **kw), b, "%s: scale of the weights" % name)
    if c.rng.rand() < (.6 if mp else .2):
        c.equal(f(X, weights=w, n_jobs=2, **kw), b, "%s: number of jobs" % name)
    if name == DBA[0]:
        from tslearn.barycenters.dba import dtw_barycenter_averaging_one_init
        b2, cost = dtw_barycenter_averaging_one_init(X, weights=w, **kw)
        c.equal(b2, b, "one initialisation is the barycenter")
        c.close(cost, c1, "reported inertia is that of the returned barycenter", rtol=1e-6, atol=1e-7 * s2)
        if c.rng.rand() < .3:
            c.equal(f(X, weights=w, n_init=3, **kw), b, "more initialisations do not worsen it")
    c.cover("dba", name, kind, B - m, d, it, w is None, init is None)


def one_step(c):
    """One update: the weighted mean of the elements aligned by the optimal path."""
    from tslearn.metrics import dtw_path
    d = gen.dim(c.rng, 3)
    ts = gen.dataset(c.rng, int(c.rng.randint(1, 6)), 2, 12, d, kind="gauss")
    n = len(ts)
    ts = [x + 1e-3 * c.rng.randn(*x.shape) for x in ts]
    w = c.rng.rand(n) + .1 if c.rng.rand() < .6 else None
    B = gen.length(c.rng, 2, 12)
    init = c.rng.randn(B, d)
    mp, kind = _constraint(c, [len(x) for x in ts], B)
    c.note(ts=ts, w=w, init=init, metric_params=mp)
    u = np.ones(n) if w is None else w
    for name in DBA:
        num, den = np.zeros((B, d)), np.zeros(B)
        for x, ui in zip(ts, u):
            # the optimal path is unique almost surely; both argument orders
            # must agree for the constraint's region to be the same
            p, v = dtw_path(init, x, **mp) if name == DBA[0] else dtw_path(x, init, **mp)
            for i, j in p:
                i, j = (i, j) if name == DBA[0] else (j, i)
                num[i] += ui * x[j]
                den[i] += ui
        got = _fn(name)(gen.pad(ts, int(c.rng.randint(0, 3))), init_barycenter=init, max_iter=1, weights=w, metric_params=mp,
                        n_jobs=c.choice([None, None, 2]))
        c.close(got, num / den[:, None], "%s: one update averages what is aligned" % name, rtol=1e-8, atol=1e-8)
    # weights are multiplicities, zero weights remove
    k = c.rng.randint(0, 4, size=n)
    k[c.rng.randint(n)] = 2
    rep = [x for x, ki in zip(ts, k) for _ in range(ki)]
    for name in DBA:
        it = int(c.rng.randint(1, 4))
        a = _fn(name)(ts, init_barycenter=init, max_iter=it, weights=k.astype(float), metric_params=mp, tol=0)
        b = _fn(name)(rep, init_barycenter=init, max_iter=it, metric_params=mp, tol=0)
        c.close(a, b, "%s: weights are multiplicities" % name, rtol=1e-7, atol=1e-7, k=k)
    c.cover("step", kind, n, B, d)


def copies(c):
    """Barycenter of copies of a series; single series."""
    from tslearn.barycenters import dtw_barycenter_averaging_subgradient as sub
    x = gen.series(c.rng, 2, 15)
    n = int(c.rng.randint(1, 5))
    L = len(x)
    kw, (kind, p) = gen.constraint(c.rng, L, L)
    w = c.rng.rand(n) + .1 if c.rng.rand() < .5 else None
    c.note(x=x, n=n, metric_params=kw, w=w)
    s = max(1., np.abs(x).max())
    for name in DBA:
        c.close(_fn(name)([x] * n, weights=w, metric_params=kw), x, "%s of copies is the series" % name, rtol=1e-9, atol=1e-9 * s)
        c.close(_fn(name)([x] * n, weights=w, metric_params=kw, init_barycenter=x), x, "%s of copies, started there" % name,
                rtol=1e-9, atol=1e-9 * s)
    c.close(sub([x] * n, weights=w, metric_params=kw, random_state=int(c.rng.randint(99))), x,
            "subgradient barycenter of copies is the series", rtol=1e-9, atol=1e-9 * s)
    c.cover("copies", n, kind, x.shape)


def subgradient(c):
    """Stochastic subgradient descent: size, inputs, seeds, weights."""
    from tslearn.barycenters import dtw_barycenter_averaging_subgradient as sub
    ts, d, w = _draw(c)
    n = len(ts)
    m = max(map(len, ts))
    init = None if c.rng.rand() < .4 else gen.values(c.rng, gen.length(c.rng, 2, 12), d)
    size = None if init is not None or c.rng.rand() < .5 else int(c.choice([2, m, m + 2]))
    B = len(init) if init is not None else (size or m)
    mp, kind = _constraint(c, [len(x) for x in ts], B)
    seed = int(c.rng.randint(1000))
    X = gen.pad(ts)
    c.note(ts=ts, w=w, init=init, size=size, metric_params=mp, seed=seed)
    kw = dict(init_barycenter=init, barycenter_size=size, metric_params=mp, random_state=seed, max_iter=int(c.choice([1, 3, 10])))
    k = _keep(c, X, w, mp)
    i0 = None if init is None else init.copy()
    np.random.seed(5)
    g0 = np.random.get_state()[1].copy()
    b = sub(X, weights=w, **kw)
    c.ok(np.array_equal(g0, np.random.get_state()[1]), "subgradient: global random state untouched")
    _same(c, k, X, w, mp, "subgradient")
    c.ok(init is None or np.array_equal(init, i0), "subgradient leaves the initial barycenter alone")
    if not c.ok(b.shape == (B, d) and np.isfinite(b).all(), "subgradient: requested size, observed values", got=b):
        c.stop()
    c.equal(sub(X, weights=w, **kw), b, "subgradient: same seed, same result")
    u = np.ones(n) if w is None else w
    c.equal(sub(X, weights=u * 4., **kw), b, "subgradient: scale of the weights")
    # only one series counts, and we start on it
    j = int(c.rng.randint(n))
    one = np.zeros(n)
    one[j] = 3.
    st = ts[j]
    mp2, _ = _constraint(c, [len(x) for x in ts], len(st))
    got = sub(X, weights=one, init_barycenter=st, random_state=seed, metric_params=mp2, max_iter=2)
    s = max(1., max(np.abs(x).max() for x in ts))
    c.close(got, st, "subgradient: series of weight zero do not count", rtol=1e-9, atol=1e-9 * s, j=j)
    c.cover("sub", kind, n, B - m, d, w is None)


def soft(c):
    """soft-DTW barycenter: objective, size, inputs, stationarity."""
    from tslearn.barycenters import softdtw_barycenter
    from tslearn.metrics import soft_dtw
    ts, d, w = _draw(c, kind=c.choice([None, "gauss", "sine", "walk"]))
    m = max(map(len, ts))
    init = None if c.rng.rand() < .5 else gen.values(c.rng, gen.length(c.rng, 2, 12), d, "gauss")
    B = m if init is None else len(init)
    mp, kind = _constraint(c, [len(x) for x in ts], B)
    g = float(c.choice([.01, .1, 1., 10.]))
    it = int(c.choice([1, 5, 50]))
    X = gen.pad(ts)
    c.note(ts=ts, w=w, init=init, gamma=g, metric_params=mp, max_iter=it)
    k = _keep(c, X, w, mp)
    i0 = None if init is None else init.copy()
    b = softdtw_barycenter(X, gamma=g, weights=w, init=init, max_iter=it, **mp)
    _same(c, k, X, w, mp, "soft-DTW barycenter")
    c.ok(init is None or np.array_equal(init, i0), "soft-DTW barycenter leaves the initial one alone")
    if not c.ok(b.shape == (B, d) and np.isfinite(b).all(), "soft-DTW barycenter: requested size, observed values", got=b):
        c.stop()
    u = np.ones(len(ts)) if w is None else w
    def obj(z):
        return sum(ui * soft_dtw(z, x, gamma=g, **mp) for ui, x in zip(u, ts))
    start = softdtw_barycenter(X, gamma=g, weights=w, init=init, max_iter=0, **mp)
    if init is not None:
        c.equal(start, init, "soft-DTW barycenter: no iteration, the initial one")
    elif len({len(x) for x in ts}) == 1:
        c.close(start, sum(ui * x for ui, x in zip(u, ts)) / u.sum(), "soft-DTW barycenter: initialised with the weighted mean",
                rtol=1e-9, atol=1e-9)
    s2 = max(1., max(np.abs(x).max() for x in ts)) ** 2
    o0, o1 = obj(start), obj(b)
    c.ok(o1 <= o0 + 1e-8 * s2 * len(ts) * m + 1e-7 * abs(o0), "soft-DTW barycenter: does not cost more than its initialisation",
         got=o1, start=o0)
    c.event("improved" if o1 < o0 - 1e-9 * s2 else "not improved")
    if c.rng.rand() < .2:
        b2 = softdtw_barycenter(X, gamma=g, weights=w, init=init, max_iter=1, n_jobs=2, **mp)
        c.close(b2, softdtw_barycenter(X, gamma=g, weights=w, init=init, max_iter=1, **mp), "soft-DTW barycenter: number of jobs",
                rtol=1e-5, atol=1e-5 * s2)
    c.cover("soft", kind, len(ts), B - m, d, g, it)


def stationary(c):
    """At convergence the gradient of the objective (from an independent
    alignment) vanishes; a wrong gradient or constraint cannot do that."""
    from tslearn.barycenters import softdtw_barycenter
    d = gen.dim(c.rng, 2)
    ts = [c.rng.randn(int(c.rng.randint(3, 8)), d) for _ in range(int(c.rng.randint(1, 4)))]
    B = int(c.rng.randint(3, 8))
    init = c.rng.randn(B, d)
    mp, kind = _constraint(c, [len(x) for x in ts], B)
    g = float(c.choice([1., 3.]))
    w = c.rng.rand(len(ts)) + .3 if c.rng.rand() < .6 else np.ones(len(ts))
    c.note(ts=ts, init=init, gamma=g, metric_params=mp, w=w)
    b = softdtw_barycenter(ts, gamma=g, weights=w, init=init, max_iter=2000, tol=1e-13, **mp)
    kindp = _kind(mp)
    G = np.zeros_like(b)
    G0 = np.zeros_like(b)
    for x, ui in zip(ts, w):
        inner, _ = ref.masks(*kindp, B, len(x))
        for z, out in ((b, G), (init, G0)):
            E = ref.soft_alignment(ref.sqdist(z, x), g, inner)
            out += ui * 2 * (E.sum(1)[:, None] * z - E @ x)
    c.ok(np.abs(G).max() <= 2e-3 * max(1., np.abs(G0).max()), "soft-DTW barycenter: stationary at convergence",
         gradient=np.abs(G).max(), initial=np.abs(G0).max())
    c.cover("stationary", kind, len(ts), B, d)


def _kind(mp):
    gc = mp.get("global_constraint")
    if gc == "sakoe_chiba" or (gc is None and "sakoe_chiba_radius" in mp):
        return "sakoe_chiba", mp.get("sakoe_chiba_radius", 1)
    if gc == "itakura" or (gc is None and "itakura_max_slope" in mp):
        return "itakura", mp.get("itakura_max_slope", 2.)
    return "none", None



def large(c):
    """Many or long series: one update is still the weighted mean of what is aligned, whatever the jobs."""
    from tslearn.metrics import dtw_path
    r = c.rng
    d = gen.dim(r, 2)
    if r.rand() < .5:
        n, L = int(r.choice([40, 90, 150])), 14
    else:
        n, L = int(r.randint(3, 7)), int(r.choice([150, 300]))
    ts = [r.randn(int(r.randint(max(2, L // 4), L + 1)) if r.rand() < .8 else L, d) for _ in range(n)]
    w = r.rand(n) + .1 if r.rand() < .6 else None
    B = int(r.randint(max(2, L // 2), L + 5))
    init = r.randn(B, d)
    c.note(ts=ts, w=w, init=init)
    u = np.ones(n) if w is None else w
    for name in DBA:
        num, den, cost = np.zeros((B, d)), np.zeros(B), 0.
        for x, ui in zip(ts, u):
            p, v = dtw_path(init, x)
            p = np.array(p)
            np.add.at(num, p[:, 0], ui * x[p[:, 1]])
            np.add.at(den, p[:, 0], ui)
            cost += ui * v ** 2 / u.sum()
        jobs = c.choice([None, 2, 4, -1])
        kw = dict(init_barycenter=init, weights=w, n_jobs=jobs)
        got = _fn(name)(gen.pad(ts), max_iter=1, **kw)
        c.close(got, num / den[:, None], "%s: one update of many or long series averages what is aligned" % name, rtol=1e-8, atol=1e-8, n_jobs=jobs)
        end = _fn(name)(gen.pad(ts), max_iter=4, **kw)
        c.ok(_cost(ts, u, end, {}) <= cost * (1 + 1e-9), "%s: many or long series, does not cost more than its initialisation" % name)
    c.event("series in large averages", n)
    c.cover("large", n, L, d, w is None)


WORKLOADS = [W(large, 10), W(euclidean, 120), W(dba, 350), W(one_step, 200), W(copies, 120), W(subgradient, 160), W(soft, 200), W(stationary, 60)]
META = dict(
    technique="runtime monitoring: cost, update, stationarity and argument monitors on every barycenter computed",
    rule="datasets, weights, sizes, initialisations, constraints, iterations and jobs drawn per case",
    note="Costs are recomputed with the public measures (decided by P01 and P06); one update is rebuilt from the optimal "
         "paths; gradients from the reference soft alignment.",
    assumptions=["constraints leave an admissible alignment", "Euclidean barycenters are taken of equal lengths"])
