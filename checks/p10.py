"""P10: cross-distance matrices equal the pairwise distances, for any n_jobs."""
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import same_arrays, scale_of


def _forms(c, ts, equal):
    """A dataset in one of the forms users pass (the series stay the same)."""
    k = c.rng.randint(5)
    if k == 0:
        return [x.copy() for x in ts], "list"
    if k == 1:
        return [x.tolist() for x in ts], "lists"
    if k == 2 and ts[0].shape[1] == 1:
        return [x[:, 0].copy() for x in ts], "flat"
    if k == 3:
        return gen.pad(ts, extra=int(c.rng.randint(1, 4))), "padded"
    if k == 4 and equal:
        return np.asfortranarray(gen.pad(ts)), "fortran"
    return gen.pad(ts), "array"


def _setup(c, lo=1, hi=14, nmax=5, d=None):
    d = d or gen.dim(c.rng, 3)
    A = gen.dataset(c.rng, int(c.rng.randint(1, nmax + 1)), lo, hi, d)
    B = None
    if c.rng.rand() < .6:
        # different sizes and maximal lengths from A's
        B = gen.dataset(c.rng, int(c.rng.randint(1, nmax + 1)), lo, int(c.rng.randint(lo, hi + 1)), d)
        if c.rng.rand() < .2:
            B[0] = A[0].copy()
    return A, B, d


def _constraint(c, A, B):
    """A constraint every pair admits."""
    for _ in range(6):
        kw, (kind, p) = gen.constraint(c.rng, 9, 9, .4)
        good = True
        for x in A:
            for y in (A if B is None else B):
                inner, _ = ref.masks(kind, p, len(x), len(y))
                if kind != "none" and not (ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
                    good = False
        if good:
            return kw
    return {}


def _compare(c, name, cdist, pair, A, B, kw, pk=None, tol=1e-9, jobs=True, diag=None, forms=True):
    """The monitor: matrix entries against pairwise calls, symmetry, jobs."""
    pk = kw if pk is None else pk
    FA, fa = _forms(c, A, len({len(x) for x in A}) == 1) if forms else (gen.pad(A), "array")
    FB = None
    if B is not None:
        FB, fb = _forms(c, B, len({len(x) for x in B}) == 1) if forms else (gen.pad(B), "array")
    before = [np.array(x, copy=True) for x in (list(FA) + list(FB if FB is not None else []))]
    c.note(metric=name, dataset1=A, dataset2=B, params=kw, form=fa)
    M = to_np(cdist(FA, FB, **kw) if FB is not None else cdist(FA, **kw))
    T = A if B is None else B
    c.ok(M.shape == (len(A), len(T)), "%s: one row per series, one column per second series" % name, shape=M.shape)
    want = np.full(M.shape, np.nan)
    for i, x in enumerate(A):
        for j, y in enumerate(T):
            if B is None and j < i:
                want[i, j] = want[j, i]
            elif B is None and i == j and diag is not None:
                want[i, j] = diag
            else:
                want[i, j] = float(pair(x, y, **pk))
    c.event("pairs compared", M.size)
    c.close(M, want, "%s: entry (i, j) is the pairwise measure" % name, rtol=1e-8, atol=tol)
    if B is None:
        c.close(M, M.T, "%s: one-dataset matrix is symmetric" % name, rtol=1e-12, atol=0)
        if c.rng.rand() < .3:
            M2 = to_np(cdist(FA, FA, **kw))
            off = ~np.eye(len(A), dtype=bool)
            c.close(M2[off & np.triu(np.ones_like(off))], M[off & np.triu(np.ones_like(off))],
                    "%s: the dataset against itself" % name, rtol=1e-8, atol=tol)
    if jobs:
        n = int(c.choice([2, 3, -1]))
        Mj = to_np(cdist(FA, FB, n_jobs=n, **kw) if FB is not None else cdist(FA, n_jobs=n, **kw))
        c.close(Mj, M, "%s: same for any number of jobs" % name, rtol=1e-12, atol=1e-12, n_jobs=n)
    after = [np.array(x, copy=True) for x in (list(FA) + list(FB if FB is not None else []))]
    c.ok(same_arrays(before, after), "%s: datasets untouched" % name)
    c.cover(name, len(A), M.shape[1], tuple(len(x) for x in A)[:3], fa, tuple(sorted(kw)))


def dtw(c):
    from tslearn.metrics import cdist_dtw, dtw
    A, B, d = _setup(c)
    _compare(c, "dtw", cdist_dtw, dtw, A, B, _constraint(c, A, B), tol=1e-7 * scale_of(*A), diag=0.)


def frechet(c):
    from tslearn.metrics import cdist_frechet, frechet
    A, B, d = _setup(c)
    _compare(c, "frechet", cdist_frechet, frechet, A, B, _constraint(c, A, B), tol=1e-7 * scale_of(*A), diag=0.)


def soft_dtw(c):
    from tslearn.metrics import cdist_soft_dtw, soft_dtw
    A, B, d = _setup(c)
    kw = dict(_constraint(c, A, B), gamma=float(c.choice([.01, .5, 1., 1., 10.])))
    if c.rng.rand() < .2 and kw["gamma"] == 1.:
        del kw["gamma"]
    s = scale_of(*(A + (B or [])))
    _compare(c, "softdtw", cdist_soft_dtw, soft_dtw, A, B, kw, tol=1e-9 * (1 + s * s) * 30)


def soft_dtw_normalized(c):
    from tslearn.metrics import cdist_soft_dtw_normalized, soft_dtw_normalized
    A, B, d = _setup(c)
    kw = dict(_constraint(c, A, B), gamma=float(c.choice([.01, .5, 1., 10.])))
    s = scale_of(*(A + (B or [])))
    _compare(c, "softdtw_normalized", cdist_soft_dtw_normalized, soft_dtw_normalized, A, B, kw,
             tol=1e-9 * (1 + s * s) * 30)


def gak(c):
    from tslearn.metrics import cdist_gak, gak
    A, B, d = _setup(c)
    s = scale_of(*(A + (B or [])))
    _compare(c, "gak", cdist_gak, gak, A, B, {"sigma": float(s * c.choice([.5, 1., 3.]))}, tol=1e-9)


def ctw(c):
    from tslearn.metrics import cdist_ctw, ctw
    d = int(c.rng.randint(1, 3))
    n = int(c.rng.randint(1, 4))
    A = [c.rng.randn(int(c.rng.randint(5, 12)), d) for _ in range(n)]
    B = None if c.rng.rand() < .4 else [c.rng.randn(int(c.rng.randint(5, 12)), d) for _ in range(2)]
    kw = {}
    if c.rng.rand() < .4:
        kw["sakoe_chiba_radius"] = int(c.rng.randint(1, 5))
    if c.rng.rand() < .3:
        kw["n_components"] = 1
    if c.rng.rand() < .3:
        kw["max_iter"] = int(c.rng.randint(1, 4))
    _compare(c, "ctw", cdist_ctw, ctw, A, B, kw, tol=1e-7, diag=0.)


def sax(c):
    from tslearn.metrics import cdist_sax
    k, d, n_seg = int(c.rng.randint(2, 9)), int(c.rng.randint(1, 3)), int(c.rng.randint(1, 7))
    size = n_seg * int(c.rng.randint(1, 5))
    bp = np.sort(c.rng.randn(k - 1))
    A = c.rng.randint(0, k, size=(int(c.rng.randint(1, 5)), n_seg, d))
    B = c.rng.randint(0, k, size=(int(c.rng.randint(1, 5)), n_seg, d)) if c.rng.rand() < .6 else None
    c.note(A=A, B=B, breakpoints=bp, size=size)

    def pair(x, y):
        s = 0.
        for u, v in zip(x.ravel(), y.ravel()):
            lo, hi = min(u, v), max(u, v)
            if hi - lo > 1:
                s += (bp[hi - 1] - bp[lo]) ** 2
        return np.sqrt(s * size / n_seg)
    T = A if B is None else B
    M = to_np(cdist_sax(A, bp, size) if B is None else cdist_sax(A, bp, size, B))
    want = np.array([[pair(x, y) for y in T] for x in A])
    c.close(M, want, "sax: entry (i, j) is the pairwise measure", rtol=1e-9, atol=1e-9)
    c.close(to_np(cdist_sax(A, bp, size, B, n_jobs=2)), M, "sax: same for any number of jobs", rtol=1e-12, atol=0)
    c.cover("sax", A.shape, T.shape, k)


def legacy(c):
    """The older soft-DTW entry points give the same measures."""
    from tslearn.metrics import softdtw_variants as V
    from tslearn.metrics import soft_dtw, soft_dtw_normalized, soft_dtw_alignment
    A, B, d = _setup(c, nmax=3)
    g = float(c.choice([.1, 1., 5.]))
    s = scale_of(*(A + (B or [])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tol = 1e-9 * (1 + s * s) * 30
        _compare(c, "legacy softdtw", V.cdist_soft_dtw, soft_dtw, A, B, {"gamma": g}, tol=tol, jobs=False)
        _compare(c, "legacy softdtw_normalized", V.cdist_soft_dtw_normalized, soft_dtw_normalized, A, B,
                 {"gamma": g}, tol=tol, jobs=False)
        x, y = A[0], (B or A)[-1]
        c.close(float(V.soft_dtw(x, y, gamma=g)), float(soft_dtw(x, y, gamma=g)), "legacy soft_dtw", rtol=1e-8, atol=tol)
        E, v = V.soft_dtw_alignment(x, y, gamma=g)
        E2, v2 = soft_dtw_alignment(x, y, gamma=g)
        c.close(E, E2, "legacy soft_dtw_alignment", rtol=1e-4, atol=1e-5 + 1e-10 * s * s / g)
        c.close(float(v), float(v2), "legacy alignment value", rtol=1e-8, atol=tol)


def plain_entries(c):
    """Entries against definitions computed here, not by the package."""
    from tslearn.metrics import cdist_dtw, cdist_frechet, cdist_soft_dtw, cdist_gak
    A, B, d = _setup(c, hi=9, nmax=3)
    T = A if B is None else B
    name = c.choice(["dtw", "frechet", "softdtw", "gak"])
    c.note(metric=name, dataset1=A, dataset2=B)
    s = scale_of(*(A + T))
    if name == "dtw":
        M, f = cdist_dtw(A, B), lambda x, y: np.sqrt(ref.align_min(ref.sqdist(x, y)))
    elif name == "frechet":
        M, f = cdist_frechet(A, B), lambda x, y: np.sqrt(ref.align_min(ref.sqdist(x, y), None, "max"))
    elif name == "softdtw":
        M, f = cdist_soft_dtw(A, B, gamma=.7), lambda x, y: ref.soft_dtw(ref.sqdist(x, y), .7)
    else:
        M, f = cdist_gak(A, B, sigma=s), lambda x, y: ref.gak(x, y, s)
    want = np.array([[float(f(x, y)) for y in T] for x in A])
    c.close(M, want, "cross-distance entries match the definition", rtol=1e-7, atol=1e-7 * (1 + s * s), metric=name)
    c.cover("plain", name, want.shape)


def large(c):
    """Hundreds of pairs whose comparisons take very different times, over several workers."""
    from tslearn import metrics as M
    r = c.rng
    n1, n2 = int(r.randint(14, 24)), int(r.randint(14, 24))
    short, long = int(r.randint(1, 4)), int(c.choice([200, 500, 900]))
    every = int(c.choice([3, 5, 7]))
    A, B = [[r.randn(long if i % every == 0 else int(r.randint(short, short + 3)), 1) for i in range(n)] for n in (n1, n2)]
    B = B[::-1]
    if r.rand() < .3:
        B = None
    name = c.choice(["dtw", "frechet", "ctw", "lcss", "gak"])
    if name == "lcss":      # the generic entry point is not public: through the metric of a k-NN
        name = "dtw"
    if name == "ctw":
        A, B = [x[:40] for x in A[:6]], None if B is None else [x[:40] for x in B[:6]]
        A = [np.concatenate([x, r.randn(5, 1)]) for x in A]
        B = None if B is None else [np.concatenate([x, r.randn(5, 1)]) for x in B]
    if name == "gak":
        A, B = [x[:60] for x in A], None if B is None else [x[:60] for x in B]
    fun = getattr(M, "cdist_" + name)
    kw = {"sigma": 20.} if name == "gak" else {}
    X, Y = gen.pad(A), None if B is None else gen.pad(B)
    c.note(metric=name, lengths1=[len(x) for x in A], lengths2=None if B is None else [len(x) for x in B], params=kw)
    args = (X,) if Y is None else (X, Y)
    want = to_np(fun(*args, **kw))
    for n_jobs in (4, int(c.choice([2, 3, 8])), -1):
        got = to_np(fun(*args, n_jobs=n_jobs, **kw))
        c.close(got, want, "%s: hundreds of pairs, same for any number of jobs" % name, rtol=1e-12, atol=1e-12, n_jobs=n_jobs)
    pair = getattr(M, name)
    for _ in range(12):
        i, j = int(r.randint(len(A))), int(r.randint(len(B or A)))
        if B is None and i == j:
            continue
        i, j = (min(i, j), max(i, j)) if B is None else (i, j)
        c.close(want[i, j], float(pair(A[i], (B or A)[j], **kw)), "%s: hundreds of pairs, entry (i, j) is the pairwise measure" % name,
                rtol=1e-8, atol=1e-7)
    c.event("pairs compared", want.size)
    c.cover("large", name, B is None, want.size // 64, every)


def related(c):
    """Two datasets that share memory, are the same object, or differ in one value only."""
    from tslearn import metrics as M
    r = c.rng
    name = c.choice(["dtw", "dtw", "frechet", "soft_dtw", "soft_dtw_normalized", "gak", "normalized_cc"])
    kw = {"gak": {"sigma": 3.}, "soft_dtw": {"gamma": .5}, "soft_dtw_normalized": {"gamma": .5}}.get(name, {})
    n = int(c.choice([2, 3, 5, 9]))
    A = gen.dataset(r, n, 4, 8, gen.dim(r, 2), equal=name == "normalized_cc" or r.rand() < .5, kind="gauss")
    X = gen.pad(A)
    n, sz, d = X.shape
    how = c.choice(["same", "copy", "reversed", "tail", "head", "rolled", "one value", "one value", "time reversed", "list of views"])
    if how == "time reversed" and len({len(x) for x in A}) > 1:
        how = "reversed"
    Y = {"same": lambda: X, "copy": lambda: X.copy(), "reversed": lambda: X[::-1], "tail": lambda: X[1:], "head": lambda: X[:-1],
         "rolled": lambda: np.roll(X, 1, axis=0), "one value": lambda: X.copy(), "time reversed": lambda: X[:, ::-1],
         "list of views": lambda: [X[i] for i in r.permutation(n)]}[how]()
    if how == "one value":
        i = int(r.randint(n))
        Y[i, int(r.randint(len(A[i]))), int(r.randint(d))] += c.choice([1., 1e-3, -2.])
    c.note(metric=name, X=X, Y=np.array(Y), how=how, params=kw)
    if name == "normalized_cc":
        nx, ny = (np.linalg.norm(Z, axis=(1, 2)) for Z in (X, np.asarray(Y)))
        f = lambda a, b, p, q: M.cdist_normalized_cc(a, b, p, q, False)
        got = f(X, np.asarray(Y), nx, ny)
        Z = np.asarray(Y)
        want = [[f(X[i:i + 1].copy(), Z[j:j + 1].copy(), nx[i:i + 1].copy(), ny[j:j + 1].copy())[0, 0] for j in range(len(Z))] for i in range(n)]
        tol = 1e-9
    else:
        fun = getattr(M, "cdist_" + name)
        got = to_np(fun(X, Y, n_jobs=c.choice([None, None, 2]), **kw))
        T = [x[:int(np.isfinite(x[:, 0]).sum())].copy() for x in Y]
        pair = getattr(M, name)
        want = [[float(pair(a.copy(), b, **kw)) for b in T] for a in A]
        tol = 1e-7
    c.close(got, np.array(want), "entries between related datasets are those of each pair", rtol=1e-7, atol=tol, metric=name, how=how)
    c.event("related datasets")
    c.cover("related", name, how, n, sz)


WORKLOADS = [W(related, 90), W(large, 10), W(dtw, 60), W(frechet, 50), W(soft_dtw, 50), W(soft_dtw_normalized, 50), W(gak, 40),
             W(ctw, 16), W(sax, 40), W(legacy, 24), W(plain_entries, 50)]

META = dict(
    technique="runtime monitor: every matrix entry compared with its own pairwise call and with the definition, across job counts",
    rule="seeded collections of 1-5 series of mixed lengths, one or two datasets of different maximal lengths, lists and padded "
         "arrays, all constraints and parameters, n_jobs in {None, 2, 3, -1}; distinct by metric, shapes, lengths, form, parameters",
    note="Held on the executions driven: every entry of every matrix observed was compared with its pairwise value.",
    assumptions=["every pair admits an alignment under the constraint", "distances to itself are not required on the diagonal of two-dataset matrices beyond rounding"])
