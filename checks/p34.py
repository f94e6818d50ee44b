"""P34: seeded runs are reproducible; threads do not disturb each other.

The schedule monitor traces every line of tslearn in every thread and yields or sleeps at
random lines, so that concurrent calls interleave inside library code; it records which
thread moved when.
"""
import random
import sys
import threading
import time

import numpy as np

from vmon import gen, zoo
from vmon.core import W

SEEDED = ["kmeans", "kmeans", "kernel_kmeans", "kshape", "svc", "svr", "early", "mlp_clf", "mlp_reg"]
THREADED = [k for k in zoo.ALL if k not in ("shapelets", "autovarima")]


class Schedule:
    """Random yields at lines of tslearn, in all threads started inside."""

    def __init__(self, seed, p=.03, pause=2e-4):
        self.rnd = random.Random(seed)
        self.p, self.pause = p, pause
        self.trace, self.lines = [], 0

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.rnd.random() < self.p:
                t = threading.get_ident()
                if len(self.trace) < 4000 and (not self.trace or self.trace[-1] != t):
                    self.trace.append(t)
                time.sleep(self.pause if self.rnd.random() < .5 else 0)
        return self._local

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "/tslearn/" in f and "site-packages/numba" not in f:
            return self._local
        return None

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.settrace(self._global)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        sys.setswitchinterval(self.interval)

    def signature(self):
        names = {}
        return tuple(names.setdefault(t, len(names)) for t in self.trace[:200])


def concurrently(c, jobs, seed, **schedule):
    """Runs the jobs in threads; results (or exceptions) in order."""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def run(i):
        try:
            gate.wait(30)
            with np.errstate(all="ignore"):
                out[i] = ("value", zoo.as_np(jobs[i]()))
        except Exception as e:
            out[i] = ("raised", "%s: %s" % (type(e).__name__, e))

    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(jobs))]
    with Schedule(seed, **schedule) as s:
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    c.event("lines of the library traced", s.lines)
    c.event("thread switches forced", len(s.trace))
    c.cover("interleaving", hash(s.signature()))
    if any(t.is_alive() for t in ts):
        c.violate("concurrent calls end")
        c.stop()
    return out


def _alone(job):
    try:
        return ("value", zoo.as_np(job()))
    except Exception as e:
        return ("raised", "%s: %s" % (type(e).__name__, e))


def _same(c, got, want, what, exact=True, **info):
    ok = got[0] == want[0] and (zoo.same(got[1], want[1], *((0., 0.) if exact else (1e-7, 1e-9))) if got[0] == "value" else True)
    return c.ok(ok, what, got=got, want=want, **info)


def _global_state():
    import torch
    return np.random.get_state()[1].tobytes() + bytes(str(np.random.get_state()[2]), "ascii"), random.getstate(), torch.random.get_rng_state().numpy().tobytes()


def _disturb(rng):
    import torch
    np.random.seed(int(rng.randint(1000)))
    random.seed(int(rng.randint(1000)))
    torch.manual_seed(int(rng.randint(1000)))


def _run(m, **params):
    e = m.make()
    if params:
        e.set_params(**params)
    m.fit(e)
    return zoo.as_np([m.fitted(e), m.outputs(e)])


def estimators(c):
    """One seed: same model whatever came before, whichever thread."""
    import numba
    m = zoo.draw(c, SEEDED)
    first = _alone(lambda: _run(m))
    if first[0] == "raised":
        if m.flags.get("may_fail"):
            c.skip()
        c.violate("seeded fit of %s works" % m.name, error=first[1])
        return
    seed = m.params["random_state"]
    c.cover(m.name, m.flags.get("metric"), m.params.get("n_init"))
    _disturb(c.rng)
    before = _global_state()
    _same(c, _alone(lambda: _run(m)), first, "same seed, same %s" % m.name)
    if m.name != "svr":  # scikit-learn's SVR draws an unused seed from the global generator
        c.ok(_global_state() == before, "seeded %s leaves the global random state alone" % m.name)
    if m.name != "early":
        _same(c, _alone(lambda: _run(m, random_state=np.random.RandomState(seed))), first,
              "a generator equals its seed for %s" % m.name)
    np.random.seed(seed)
    if m.name in ("kmeans", "kernel_kmeans", "kshape", "mlp_clf", "mlp_reg"):
        _same(c, _alone(lambda: _run(m, random_state=None)), first, "without seed, %s uses the global generator" % m.name)
    n = numba.get_num_threads()
    try:
        numba.set_num_threads(1)
        _same(c, _alone(lambda: _run(m)), first, "number of compiled-code threads does not change %s" % m.name, exact=False)
    finally:
        numba.set_num_threads(n)
    if "n_jobs" in m.make().get_params(deep=False):
        for j in (1, 2, -1):
            _same(c, _alone(lambda: _run(m, n_jobs=j)), first, "number of jobs does not change %s" % m.name, exact=False, n_jobs=j)
    perm = _alone(lambda: _run(m, random_state=seed + 1))
    c.event("another seed changes the model" if not zoo.same(perm[1], first[1]) else "another seed gives the same model")
    outs = concurrently(c, [lambda: _run(m)] * 3, c.seed)
    for o in outs:
        _same(c, o, first, "fits in parallel threads give the seeded %s" % m.name, exact=False)


def _finite(e):
    """The fit had a successful run."""
    v = getattr(e, "inertia_", None)
    return v is not None and bool(np.isfinite(v)) and getattr(e, "n_iter_", 1) != 0


def restarts(c):
    """n_init restarts are consecutive runs on one stream, the best is kept."""
    m = zoo.draw(c, ["kmeans", "kernel_kmeans", "kshape"])
    if hasattr(m.params.get("init"), "shape"):
        c.skip()
    m.params["n_clusters"] = min(m.params["n_clusters"] + (m.params["n_clusters"] == 1), len(m.A))
    k = int(c.rng.randint(2, 5))
    seed = m.params["random_state"]
    if m.name == "kernel_kmeans" and (m.params.get("kernel_params") or {}).get("sigma") == "auto":
        m.params.pop("kernel_params")
    many = m.make().set_params(n_init=k)
    m.fit(many)
    if not _finite(many):
        c.skip()
    stream = np.random.RandomState(seed)
    best, runs = [], []
    for _ in range(k):
        before = _position(stream)
        e = m.make().set_params(n_init=1, random_state=stream)
        m.fit(e)
        c.ok(_position(stream) != before, "%s draws from the generator it was given" % m.name)
        if not _finite(e):
            break
        runs.append(float(e.inertia_))
        best.append(min(runs))
    distinct = len(set(np.round(runs, 9)))
    c.cover(m.name, m.flags.get("metric"), m.params.get("init"), k, distinct)
    c.event("restarts with %s outcomes" % ("different" if distinct > 1 else "equal"))
    # runs that end with an empty cluster are retried, at most ten times in all: with many
    # clusters fewer than k runs may have succeeded
    allowed = best[-1:] if m.params["n_clusters"] == 2 and len(runs) == k else best
    c.ok(len(allowed) == 0 or any(abs(many.inertia_ - v) <= 1e-6 * (1e-3 + abs(v)) for v in allowed),
         "%s keeps the best of consecutive runs of one random stream" % m.name, inertia=many.inertia_, runs=runs)


def _position(rs):
    s = rs.get_state()
    return s[1].tobytes(), s[2], s[3]


def functions(c):
    """Random functions: seed, generator object, global generator, thread."""
    import tslearn.metrics as M
    from tslearn.barycenters import dtw_barycenter_averaging_subgradient
    from tslearn.clustering import silhouette_score
    from tslearn.generators import random_walk_blobs, random_walks
    d = gen.dim(c.rng, 2)
    n = int(c.rng.randint(4, 9))
    X = gen.pad([gen.values(c.rng, int(c.rng.randint(2, 8)), d, kind="walk") for _ in range(n)])
    lab = np.arange(n) % 2
    seed = int(c.rng.randint(2 ** 31 - 1))
    ns = int(c.choice([1, 5, 100]))
    t = {
        "random_walks": lambda r: random_walks(n_ts=3, sz=5, d=d, random_state=r),
        "random_walk_blobs": lambda r: random_walk_blobs(n_ts_per_blob=2, sz=5, d=d, n_blobs=2, random_state=r),
        "sigma_gak": lambda r: M.sigma_gak(X, n_samples=ns, random_state=r),
        "gamma_soft_dtw": lambda r: M.gamma_soft_dtw(X, n_samples=ns, random_state=r),
        "subgradient barycenter": lambda r: dtw_barycenter_averaging_subgradient(X, max_iter=4, random_state=r),
        "silhouette_score": lambda r: silhouette_score(X, lab, metric="dtw", sample_size=n, random_state=r),
    }
    c.note(X=X, seed=seed, n_samples=ns)
    for name in sorted(t):
        f = t[name]
        c.cover(name, ns, d)
        _disturb(c.rng)
        g = _global_state()
        a = _alone(lambda: f(seed))
        if a[0] == "raised":
            c.violate("%s works" % name, error=a[1])
            continue
        _same(c, _alone(lambda: f(seed)), a, "same seed, same %s" % name)
        c.ok(_global_state() == g, "seeded %s leaves the global random state alone" % name)
        rs = np.random.RandomState(seed)
        s0 = _position(rs)
        _same(c, _alone(lambda: f(rs)), a, "a generator equals its seed for %s" % name)
        c.ok(_position(rs) != s0, "%s advances the generator it was given" % name)
        np.random.seed(seed % 2 ** 32)
        _same(c, _alone(lambda: f(None)), a, "without seed, %s uses the global generator" % name)
    for name, o in zip(sorted(t), concurrently(c, [lambda f=t[k]: f(seed) for k in sorted(t)], c.seed)):
        _same(c, o, _alone(lambda: t[name](seed)), "%s in a busy thread gives what it gives alone" % name)
    a, b = random_walks(n_ts=4, sz=6, random_state=rs), random_walks(n_ts=4, sz=6, random_state=rs)
    c.ok(not np.array_equal(a, b), "successive draws of one generator differ")


def shared_estimator(c):
    """Concurrent read-only calls on one fitted estimator."""
    m = zoo.draw(c, THREADED)
    e = m.make()
    try:
        m.fit(e)
        m.outputs(e)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
        raise
    Xs = [gen.pad([np.array(q) for q in m.Q])]
    if len(m.Q) > 1:
        Xs += [gen.pad([np.array(q) for q in m.Q[:1]]), gen.pad([np.array(q) for q in m.Q[::-1]])]
    # jobs share the query arrays: a call that writes into them disturbs the others
    # SAX distances tie, up to the order of a parallel sum: only distances are compared
    calls = {k: (lambda e, X: e.kneighbors(X)[0]) if m.flags.get("metric") == "sax" else f for k, f in m.calls.items()
             if m.flags.get("metric") != "sax" or k == "kneighbors"}
    plan = []
    for _ in range(4):
        for name in sorted(calls):
            plan.append((name, Xs[c.rng.randint(len(Xs))]))
    plan = [plan[i] for i in c.rng.permutation(len(plan))[:6]]
    if not plan:
        plan = [("fitted", None)] * 3
    job = lambda p: (lambda: calls[p[0]](e, p[1])) if p[1] is not None else (lambda: m.fitted(e))
    want = [_alone(job(p)) for p in plan]
    params = repr(sorted(e.get_params().items(), key=str))
    got = concurrently(c, [job(p) for p in plan], c.seed)
    loose = m.flags.get("float32") or m.name in ("mlp_clf", "mlp_reg")
    for p, g, w in zip(plan, got, want):
        c.cover(m.name, m.flags.get("metric"), p[0])
        c.event("concurrent calls compared")
        _same(c, g, w, "concurrent %s.%s equals the sequential call" % (m.name, p[0]), exact=not loose)
    c.ok(repr(sorted(e.get_params().items(), key=str)) == params, "concurrent calls leave the parameters of %s alone" % m.name)
    for p, w in zip(plan, want):
        _same(c, _alone(job(p)), w, "%s still works after concurrent calls" % m.name, exact=not loose)


def shared_data(c):
    """Different library functions and fits at work on the same arrays."""
    import tslearn.barycenters as B
    import tslearn.metrics as M
    from tslearn import preprocessing as P
    from tslearn.utils import to_time_series_dataset
    d = gen.dim(c.rng, 2)
    n = int(c.rng.randint(3, 6))
    X = gen.pad([gen.values(c.rng, int(c.rng.randint(3, 9)), d, kind="walk") for _ in range(n)])
    a, b = [x[~np.isnan(x[:, 0])] for x in X[:2]]
    c.note(X=X)
    j = c.choice([None, 1, 2, 3])
    kw = c.choice([{}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}, {"sakoe_chiba_radius": 5}])
    km, kn = zoo.draw(c, ["kmeans"]), zoo.draw(c, ["knn_clf"])
    while kn.flags["metric"] in ("sax", "ctw"):
        kn = zoo.draw(c, ["knn_clf"])
    kp = {"metric_params": {"gamma": .7}}
    ta, tb = _torch(a), _torch(b)
    jobs = {
        "cdist_dtw": lambda: M.cdist_dtw(X, n_jobs=j, **kw),
        "cdist_dtw(two)": lambda: M.cdist_dtw(X, X[:2], n_jobs=j, **kw),
        "cdist_soft_dtw": lambda: M.cdist_soft_dtw(X, gamma=.5),
        "cdist_frechet": lambda: M.cdist_frechet(X, n_jobs=j),
        "cdist_gak": lambda: M.cdist_gak(X, sigma=2., n_jobs=j),
        "dtw_path": lambda: M.dtw_path(a, b, **kw),
        "lcss_path": lambda: M.lcss_path(a, b, eps=.5),
        "soft_dtw_alignment": lambda: M.soft_dtw_alignment(a, b, gamma=1.),
        "torch dtw": lambda: M.dtw(ta, tb, be="pytorch"),
        "torch soft_dtw": lambda: M.soft_dtw(ta, tb, gamma=.5, be="pytorch"),
        "dba": lambda: B.dtw_barycenter_averaging(X, max_iter=3),
        "softdtw_barycenter": lambda: B.softdtw_barycenter(X, gamma=1., max_iter=3),
        "scaler": lambda: P.TimeSeriesScalerMeanVariance().fit_transform(X),
        "resampler": lambda: P.TimeSeriesResampler(5).fit_transform(X),
        "imputer": lambda: P.TimeSeriesImputer("ffill").fit_transform(X),
        "dataset": lambda: to_time_series_dataset(X),
        "kmeans fit": lambda: _run(km),
        "knn fit": lambda: _run(kn),
    }
    names = [str(k) for k in c.rng.permutation(sorted(jobs))[:6]]
    names += [names[0]]
    want = [_alone(jobs[k]) for k in names]
    before = X.copy()
    got = concurrently(c, [jobs[k] for k in names], c.seed)
    for k, g, w in zip(names, got, want):
        c.cover(k, d, j)
        c.event("concurrent calls compared")
        _same(c, g, w, "%s among other threads gives what it gives alone" % k)
    c.equal(X, before, "shared data left alone")


def _torch(x):
    import torch
    return torch.tensor(np.asarray(x, dtype=float))


def workers(c):
    """With several workers, work of uneven size is put together the same way
    on every run, bit for bit."""
    import tslearn.barycenters as B
    import tslearn.metrics as M
    from tslearn.clustering import TimeSeriesKMeans
    r = c.rng
    d, n, j = gen.dim(r, 2), int(r.randint(10, 25)), int(c.choice([2, 3, 4, -1]))
    X = gen.pad([r.randn(int(r.choice([r.randint(5, 20), r.randint(100, 200)])), d) * 10. ** r.randint(-2, 3) for _ in range(n)])
    w = None if r.rand() < .5 else r.rand(n) + .1
    init = .3 * r.randn(int(r.randint(5, 25)), d)
    c.note(X=X, n_jobs=j, weights=w, init=init)
    jobs = {
        "softdtw_barycenter": lambda: B.softdtw_barycenter(X, gamma=1., max_iter=10, init=init, weights=w, n_jobs=j),
        "dba": lambda: B.dtw_barycenter_averaging(X, max_iter=4, init_barycenter=init, weights=w, n_jobs=j),
        "dba petitjean": lambda: B.dtw_barycenter_averaging_petitjean(X, max_iter=4, init_barycenter=init, weights=w, n_jobs=j),
        "cdist_dtw": lambda: M.cdist_dtw(X, n_jobs=j),
        "cdist_frechet": lambda: M.cdist_frechet(X, X[:3], n_jobs=j),
        "cdist_gak": lambda: M.cdist_gak(X, sigma=50., n_jobs=j),
    }
    names = ["softdtw_barycenter"] + [c.choice(sorted(jobs)[1:])]
    if r.rand() < .3:
        jobs["kmeans"] = lambda: (lambda e: [e.cluster_centers_, e.inertia_, e.labels_])(
            TimeSeriesKMeans(2, metric="softdtw", max_iter=2, max_iter_barycenter=4, n_jobs=j, random_state=3).fit(X[:10, :30]))
        names.append("kmeans")
    for k in names:
        first = _alone(jobs[k])
        if k == "softdtw_barycenter":
            c.ok(first[0] != "raised", "%s works with several workers" % k, got=first)
        for _ in range(3):
            _same(c, _alone(jobs[k]), first, "%s gives the same with the same workers" % k, n_jobs=j)
            c.event("runs with workers compared")
        c.cover("workers", k, j)


def kernels(c):
    """Compiled kernels that share their work among threads give, at sizes
    where they really do, what they give on one thread (up to the order of sums)."""
    import numba
    from tslearn.metrics import (SquaredEuclidean, cycc, cysax, lb_envelope)
    r = c.rng
    n, sz, d, m = int(r.randint(30, 90)), int(r.choice([64, 65, 120])), int(r.randint(1, 4)), int(r.randint(3, 30))
    A, B = r.randn(n, sz, d), r.randn(m, sz, d)
    nA, nB = np.linalg.norm(A, axis=(1, 2)), np.linalg.norm(B, axis=(1, 2))
    long_ = r.randn(4000, d)
    E = r.rand(sz, 4000)
    words = r.randint(0, 6, (n, 16, d))
    words2 = r.randint(0, 6, (n, 16, 2 * d))
    bp, mid = np.sort(r.randn(5)), np.sort(r.randn(6))

    jobs = {
        "jacobian": lambda: SquaredEuclidean(A[0].copy(), long_.copy()).jacobian_product(E),
        "cdist_cc": lambda: cycc.cdist_normalized_cc(A, B, nA.copy(), nB.copy(), False),
        "cdist_cc_norms": lambda: cycc.cdist_normalized_cc(A, B, -np.ones(n), -np.ones(m), False),
        "cdist_cc_self": lambda: cycc.cdist_normalized_cc(A, A, nA.copy(), nA.copy(), True),
        "shift": lambda: cycc.y_shifted_sbd_vec(B[0], A, -1., nA.copy()),
        "shift_norms": lambda: cycc.y_shifted_sbd_vec(B[0], A, nB[0], -np.ones(n)),
        "inv_paa": lambda: cysax.inv_transform_paa(A, sz * 3),
        "inv_sax": lambda: cysax.inv_transform_sax(words, mid, 50),
        "inv_1d_sax": lambda: cysax.inv_transform_1d_sax(words2, mid, mid, 50),
        "sax_distance": lambda: np.array([cysax.cydist_sax(words[0], w, bp, 50) for w in words]),
        "1d_sax_distance": lambda: np.array([cysax.cydist_1d_sax(words2[0], w, mid, mid, 50) for w in words2]),
        "slopes": lambda: cysax.cyslopes(A, 3),
        "envelope": lambda: np.stack(lb_envelope(long_, radius=7)),
    }
    k = numba.get_num_threads()
    for name in [c.choice(sorted(jobs)) for _ in range(5)]:
        try:
            numba.set_num_threads(1)
            want = jobs[name]()
        finally:
            numba.set_num_threads(k)
        for rep in range(3):
            got = jobs[name]()
            c.close(got, want, "%s on several threads gives what it gives on one" % name, rtol=1e-9, atol=1e-9)
            c.event("parallel kernel runs compared")
        c.cover("kernel", name, d)


def known(c):
    """LearningShapelets seeds the global generators."""
    m = zoo.draw(c, ["shapelets"])
    m.params["random_state"] = 7
    _disturb(c.rng)
    g = np.random.get_state()[1].tobytes()
    m.fit(m.make())
    c.finding("shapelets-seed-global-generators", np.random.get_state()[1].tobytes() == g,
              "LearningShapelets(random_state=7).fit reseeds the global NumPy, Python and torch generators")


def shapelets(c):
    """Seeded LearningShapelets give the same model on every run."""
    m = zoo.draw(c, ["shapelets"])
    c.note(model=m.name, params=m.params)
    a = _alone(lambda: _run(m))
    _disturb(c.rng)
    b = _alone(lambda: _run(m))
    c.cover("shapelets", m.params["optimizer"])
    _same(c, b, a, "same seed, same shapelets", exact=False)
    c.ok(a[0] == "value", "seeded fit of shapelets works", error=a[1] if a[0] == "raised" else None)


STATELESS = ["minmax", "meanvar", "resampler", "imputer", "synchronizer", "paa", "sax", "sax1d", "matrix_profile"]


def transformers(c):
    """Many threads transform batches of one shape and different scale with one fitted transformer."""
    m = zoo.draw(c, STATELESS)
    e = m.make()
    m.fit(e)
    X = gen.pad([np.array(q) for q in m.Q])
    # several scales, so that anything remembered of another batch shows
    Xs = [X * s + o for s, o in ((1., 0.), (7., 3.), (.2, -40.), (90., 5.))]
    names = [k for k in sorted(m.calls) for _ in range(8 // len(m.calls))]
    plan = [(k, Xs[i % 4]) for i, k in enumerate(names)]
    job = lambda p: (lambda: m.calls[p[0]](e, p[1]))
    want = [_alone(job(p)) for p in plan]
    for k in range(4):
        got = concurrently(c, [job(p) for p in plan], c.seed + k, p=.25)
        for p, g, w in zip(plan, got, want):
            c.event("concurrent calls compared")
            _same(c, g, w, "concurrent %s.%s equals the sequential call, whatever other threads transform" % (m.name, p[0]))
    c.cover("transformers", m.name)


WORKLOADS = [W(transformers, 40), W(kernels, 24), W(workers, 14), W(estimators, 60), W(restarts, 100), W(functions, 30), W(shared_estimator, 110), W(shared_data, 70), W(shapelets, 4), W(known, 1, 1)]
META = dict(
    technique="runtime monitoring: schedule perturbation by line tracing, differential oracle against sequential runs, random-state monitors",
    rule="one run whose result depends on the run, the thread, the number of workers or what other threads do; one change of a global random state",
    note="threads are made to yield and sleep at random lines of the library; the evidence counts forced switches and distinct interleavings",
    assumptions="compiled kernels release or keep the interpreter lock as numba decides; they are not preempted at chosen points",
)
