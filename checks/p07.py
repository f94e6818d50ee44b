"""P07: the global alignment kernel is a normalised p.s.d. kernel."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_far, scale_of, views


def _sigma(c, *xs):
    s = scale_of(*xs)
    return float(s * c.choice([.1, .3, 1., 3., 20.]))


def value(c):
    from tslearn.metrics import gak, unnormalized_gak
    a, b = gen.pair(c.rng, 1, 40)
    sg = _sigma(c, a, b)
    A, _ = gen.reform(c.rng, a)
    B, _ = gen.reform(c.rng, b)
    c.note(s1=a, s2=b, sigma=sg)
    be = c.choice([None, None, "numpy"])
    v = float(gak(A, B, sigma=sg, be=be))
    c.close(v, ref.gak(a, b, sg), "gak is the normalised sum over alignments", rtol=1e-7, atol=1e-12)
    c.ok(-1e-12 <= v <= 1 + 1e-9, "gak in [0, 1]", got=v)
    c.close(float(gak(B, A, sigma=sg)), v, "gak symmetric", rtol=1e-9, atol=1e-12)
    c.close(float(gak(A, A, sigma=sg)), 1., "gak(x, x) = 1", rtol=1e-9)
    u = float(unnormalized_gak(A, B, sigma=sg, be=be))
    c.close(u, np.exp(ref.gak_log(a, b, sg)), "unnormalized_gak is the sum over alignments", rtol=1e-7, atol=1e-300)
    c.cover(len(a), len(b), a.shape[1], round(np.log10(sg / scale_of(a, b)), 1))


def enumerated(c):
    from tslearn.metrics import unnormalized_gak
    n, m = int(c.rng.randint(1, 5)), int(c.rng.randint(1, 5))
    a, b = gen.values(c.rng, n, 2), gen.values(c.rng, m, 2)
    sg = _sigma(c, a, b)
    c.note(s1=a, s2=b, sigma=sg)
    k = np.exp(-ref.sqdist(a, b) / (2 * sg ** 2))
    k = k / (2 - k)
    tot = 0.
    for p in ref.all_paths(n, m):
        c.event("alignments enumerated")
        tot += np.prod([k[i, j] for i, j in p])
    c.close(float(unnormalized_gak(a, b, sigma=sg)), tot, "kernel is the sum over all alignments of the product of local kernels", rtol=1e-9, atol=1e-300)
    c.cover(n, m)


def matrix(c):
    from tslearn.metrics import cdist_gak, gak
    ts = gen.dataset(c.rng, n=int(c.rng.randint(2, 9)), lo=1, hi=20)
    sg = _sigma(c, *ts)
    jobs = c.choice([None, None, 2])
    c.note(dataset=ts, sigma=sg, n_jobs=jobs)
    X = gen.pad(ts, int(c.rng.randint(0, 3)))
    K = to_np(cdist_gak(X, sigma=sg, n_jobs=jobs))
    c.ok(K.shape == (len(ts), len(ts)) and np.isfinite(K).all(), "similarity matrix finite")
    c.close(K, K.T, "similarity matrix symmetric", rtol=1e-10, atol=1e-12)
    c.close(np.diag(K), np.ones(len(ts)), "similarity matrix has unit diagonal", rtol=1e-9)
    ev = np.linalg.eigvalsh((K + K.T) / 2)
    c.ok(ev.min() >= -1e-8 * len(ts), "similarity matrix is positive semi-definite", smallest=ev.min())
    want = np.array([[ref.gak(x, y, sg) for y in ts] for x in ts])
    c.close(K, want, "similarity matrix equals the pairwise kernel", rtol=1e-7, atol=1e-11)
    k = int(c.rng.randint(1, len(ts) + 1))
    K2 = to_np(cdist_gak(gen.pad(ts[:k]), gen.pad(ts), sigma=sg, n_jobs=jobs))
    c.close(K2, want[:k], "cross-similarity matrix equals the pairwise kernel", rtol=1e-7, atol=1e-11)
    c.close(float(gak(ts[0], ts[-1], sigma=sg)), K[0, -1], "gak agrees with cdist_gak", rtol=1e-8, atol=1e-12)
    c.cover(len(ts), [len(t) for t in ts], jobs)


def bandwidth(c):
    from tslearn.metrics import gamma_soft_dtw, sigma_gak
    ts = gen.dataset(c.rng, n=int(c.rng.randint(2, 7)), lo=2, hi=20, kind=c.choice(["gauss", "walk", "sine", "offset"]))
    X = gen.pad(ts)
    n = int(c.choice([2, 5, 30, 100]))
    seed = int(c.rng.randint(1000))
    c.note(dataset=ts, n_samples=n, seed=seed)
    state = np.random.get_state()[1].copy()
    s = float(sigma_gak(X, n_samples=n, random_state=seed))
    c.equal(np.random.get_state()[1], state, "bandwidth with a seed leaves the global random state alone")
    pts = np.vstack(ts)
    if n >= 30:
        c.ok(np.isfinite(s) and s > 0, "bandwidth positive on non-degenerate data", got=s)
    L = max(len(t) for t in ts)
    D = np.sqrt(ref.sqdist(pts, pts))
    near = np.abs(D[..., None].ravel() * np.sqrt(L) - s).min() if n == 2 else 0.
    c.ok(s <= D.max() * np.sqrt(L) * (1 + 1e-9) and near <= 1e-8 * (1 + s), "bandwidth is a typical distance times sqrt(length)", got=s)
    c.close(float(sigma_gak(X, n_samples=n, random_state=seed)), s, "bandwidth reproducible from its seed", rtol=0, atol=0)
    c.close(float(sigma_gak(gen.pad(ts, 3), n_samples=n, random_state=seed)), s, "bandwidth independent of padding", rtol=1e-12)
    c.close(float(sigma_gak(3 * X, n_samples=n, random_state=seed)), 3 * s, "bandwidth scales with the data", rtol=1e-8, atol=1e-9)
    c.close(float(gamma_soft_dtw(X, n_samples=n, random_state=seed)), 2 * s * s, "gamma_soft_dtw = 2 sigma^2", rtol=1e-10)
    full = float(sigma_gak(X, n_samples=len(pts), random_state=seed))
    iu = np.triu_indices(len(pts), 1)
    c.close(full, np.median(D[iu]) * np.sqrt(L), "all points sampled: median distance times sqrt(length)", rtol=1e-9, atol=1e-9)
    c.cover(len(ts), L, n)


def large(c):
    """Long series and large datasets."""
    from tslearn.metrics import cdist_gak, gak, sigma_gak
    r = c.rng
    n, m, d = int(r.randint(60, 180)), int(r.randint(60, 180)), int(c.choice([1, 2, 9]))
    a, b = gen.values(r, n, d), gen.values(r, m, d)
    s = float(np.sqrt(ref.sqdist(a, b).mean()) * np.sqrt(.5 * (n + m)) * c.choice([.5, 1., 3.]) + .1)
    c.note(s1=a, s2=b, sigma=s)
    lg = lambda x, y: ref.gak_log(x, y, s)
    la, lb, lab = lg(a, a), lg(b, b), lg(a, b)
    if max(la, lb, lab) < 650 and min(la, lb, lab) > -650:
        c.close(float(gak(a, b, sigma=s)), np.exp(lab - .5 * (la + lb)), "long series: normalised kernel", rtol=1e-6, atol=1e-12)
        c.event("long kernels compared")
    k = int(r.randint(20, 40))
    ts = [gen.values(r, int(r.randint(2, 12)), d, "gauss") for _ in range(k)]
    X = gen.pad(ts)
    nj = c.choice([None, 4, -1])
    K = to_np(cdist_gak(X, sigma=2., n_jobs=nj))
    c.close(K, K.T, "large kernel matrix is symmetric", rtol=1e-12)
    c.close(np.diag(K), np.ones(k), "large kernel matrix has a unit diagonal", rtol=1e-9)
    c.ok(np.linalg.eigvalsh(K).min() > -1e-8 * k, "large kernel matrix is positive semi-definite", got=float(np.linalg.eigvalsh(K).min()))
    for _ in range(10):
        i, j = int(r.randint(k)), int(r.randint(k))
        c.close(K[i, j], ref.gak(ts[i], ts[j], 2.), "large kernel matrix: entry (i, j)", rtol=1e-7, atol=1e-12)
    Y = gen.pad([x for x in ts[::-1]][:k // 2])
    c.close(to_np(cdist_gak(X, Y, sigma=2., n_jobs=nj)), K[:, ::-1][:, :k // 2], "large two-dataset kernel matrix", rtol=1e-9, atol=1e-12)
    # the bandwidth of a large dataset: a median over a sample lies near that over all points
    big = gen.pad([r.randn(int(r.randint(20, 40)), 1) for _ in range(int(r.randint(100, 250)))])
    v = np.array([float(sigma_gak(big, n_samples=400, random_state=q)) for q in range(3)])
    want = np.sqrt(2) * .6744897501960817 * np.sqrt(max(len(x[~np.isnan(x[:, 0])]) for x in big))
    c.ok((np.abs(v / want - 1) < .25).all(), "large dataset: the bandwidth is near the median distance times sqrt(length)", got=v, want=want)
    c.cover("large", n // 20, m // 20, d, nj)


def refused(c):
    from tslearn.metrics import cdist_gak, gak, unnormalized_gak
    a = gen.values(c.rng, 4, 1)
    for f in (lambda: gak(a, a, sigma=0.), lambda: unnormalized_gak(a, a, sigma=0), lambda: cdist_gak([a], sigma=0.)):
        c.raises(ZeroDivisionError, f, "zero bandwidth refused")
    c.cover("sigma 0")


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    s = float(c.choice([.5, 2., 9.])) * max(.5, np.sqrt(np.median(ref.sqdist(a, b))))
    c.note(sigma=s)
    for name, f in (("gak", lambda x, y: M.gak(x, y, sigma=s)), ("cdist_gak", lambda x, y: M.cdist_gak(x[None], y[None], sigma=s)[0, 0])):
        w = float(f(a, b))
        c.close(float(f(u, v)), w, name + " of series moved far away", rtol=1e-9, atol=1e-300)
        c.close(w, ref.gak(a, b, s), name + " is its definition", rtol=1e-7, atol=1e-12)
    seed = int(c.rng.randint(99))
    for name, f in (("sigma_gak", M.sigma_gak), ("gamma_soft_dtw", M.gamma_soft_dtw)):
        c.close(float(f(gen.pad([u, v]), n_samples=30, random_state=seed)), float(f(gen.pad([a, b]), n_samples=30, random_state=seed)),
                name + " of series moved far away", rtol=1e-9, atol=1e-12)


WORKLOADS = [W(views(("gak", {"sigma": 2.}), ("unnormalized_gak", {"sigma": 2.})), 30), W(far, 30), W(large, 16), W(value, 300), W(enumerated, 80), W(matrix, 120), W(bandwidth, 80), W(refused, 1, 2)]

META = dict(
    technique="runtime monitor: log-domain kernel oracle, enumeration, and eigenvalue monitor on similarity matrices",
    rule="seeded pairs and datasets (lengths 1-40, 1-4 features, padding, 1 or 2 workers), bandwidths from a tenth "
         "to 20 times the data scale; distinct by lengths, features, relative bandwidth",
    note="Held on the executions driven: every kernel value against an independent log-domain recursion (and "
         "full enumeration for small sizes); smallest eigenvalue of every similarity matrix.",
    assumptions=["lengths up to 40: beyond a few hundred steps the unnormalised kernel overflows, by construction"])
