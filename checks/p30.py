"""P30: matrix profiles equal brute force for every implementation."""
import warnings

import numpy as np

from vmon import gen
from vmon.core import W, to_np


def _norm(S):
    sd = S.std(1, keepdims=True)
    sd = np.where(sd == 0, 1., sd)
    return (S - S.mean(1, keepdims=True)) / sd


def brute(x, m, scale):
    """Distance of every window to its nearest neighbour outside the zone."""
    n = len(x) - m + 1
    if n <= 0:
        return np.zeros(0)
    S = np.array([x[i:i + m] for i in range(n)])
    if scale:
        S = _norm(S)
    zone = -(-m // 4)
    out = np.full(n, np.inf)
    for i in range(n):
        for j in range(n):
            if abs(i - j) > zone:
                out[i] = min(out[i], np.sqrt(((S[i] - S[j]) ** 2).sum()))
    return out


def _values(c, L):
    """Series without windows that are almost, yet not quite, constant."""
    r = c.rng
    kind = c.choice(["gauss", "walk", "ints", "motif", "flat_parts", "offset", "sine"])
    if kind == "gauss":
        x = r.randn(L)
    elif kind == "walk":
        x = np.cumsum(r.choice([-1., -.5, .5, 1.], size=L))
    elif kind == "ints":
        x = r.randint(0, 4, size=L).astype(float)
    elif kind == "motif":
        p = r.randn(max(L // 3, 1))
        x = np.resize(p, L) + .1 * r.randn(L)
    elif kind == "flat_parts":
        x = np.repeat(r.randint(-3, 4, size=L), r.randint(1, 6))[:L].astype(float)
    elif kind == "offset":
        x = r.randn(L) * 2 + 50
    else:
        x = np.sin(np.arange(L) / (1 + 3 * r.rand())) * 4
    return x


def _profile(m, X, **kw):
    from tslearn.matrix_profile import MatrixProfile
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return to_np(MatrixProfile(subsequence_length=m, **kw).fit_transform(X))


def _draw(c, lo_m=1):
    r = c.rng
    m = int(c.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16]))
    m = max(m, lo_m)
    n = int(r.randint(1, 5))
    top = m + int(r.randint(0, 30))
    equal = r.rand() < .4
    L = [top if equal else int(r.randint(1, top + 1)) for _ in range(n)]
    L[int(r.randint(n))] = top
    return m, [_values(c, l) for l in L], top


def _judge(c, T, A, m, scale, top, tol, who):
    c.equal(T.shape, (len(A), top - m + 1, 1), "shape of the profiles")
    for i, x in enumerate(A):
        B = brute(x, m, scale)
        k = len(B)
        c.ok(np.isnan(T[i, k:]).all(), "windows that overlap padding have no profile", detail=dict(who=who, i=i, got=T[i]))
        g = T[i, :k, 0]
        c.ok(np.array_equal(np.isinf(g), np.isinf(B)) and not np.isnan(g).any(),
             "windows without a neighbour outside the zone are infinitely far", detail=dict(who=who, i=i, got=g, want=B))
        f = np.isfinite(B) & np.isfinite(g)
        s = 1. if scale else max(np.abs(x).max(), 1.)
        c.ok((np.abs(g[f] - B[f]) <= tol * s * np.sqrt(m)).all(), "profile is the distance to the nearest neighbour outside the zone",
             detail=dict(who=who, i=i, got=g, want=B))
        c.event("windows", k)
        c.event("windows_inf", int(np.isinf(B).sum()))
        c.cover("n_windows", min(k, 20))
    c.cover("m", m)


def numpy_profile(c):
    m, A, top = _draw(c)
    scale = bool(c.rng.rand() < .5)
    X = gen.pad([x[:, None] for x in A])
    c.note(m=m, A=A, scale=scale)
    X0 = X.copy()
    T = _profile(m, X, implementation="numpy", scale=scale)
    c.ok(np.array_equal(X, X0, equal_nan=True), "input untouched")
    # numpy's norm of differences is exact up to rounding; normalisation of
    # offset series loses some digits
    _judge(c, T, A, m, scale, top, 1e-7, "numpy")
    c.event("numpy_profiles")


def stump_profile(c):
    m, A, top = _draw(c, 3)
    scale = bool(c.rng.rand() < .5)
    X = gen.pad([x[:, None] for x in A])
    c.note(m=m, A=A, scale=scale)
    T = _profile(m, X, implementation="stump", scale=scale)
    _judge(c, T, A, m, scale, top, 3e-6, "stump")
    U = _profile(m, X, implementation="numpy", scale=scale)
    f = np.isfinite(U) & np.isfinite(T)
    c.ok(np.array_equal(np.isfinite(U), np.isfinite(T)), "implementations agree on missing windows")
    s = 1. if scale else max(np.nanmax(np.abs(X)), 1.)
    c.ok((np.abs(U - T)[f] <= 3e-6 * s * np.sqrt(m)).all(), "implementations agree", detail=dict(stump=T, numpy=U))
    c.event("implementation_pairs")


def forms_and_batches(c):
    """Layouts, types, lists, repeats and orders give the same profiles."""
    r = c.rng
    m, A, top = _draw(c)
    scale = bool(r.rand() < .5)
    impl = "stump" if m >= 3 and r.rand() < .3 else "numpy"
    kw = dict(implementation=impl, scale=scale)
    X = gen.pad([x[:, None] for x in A])
    c.note(m=m, A=A, params=kw)
    T = _profile(m, X, **kw)
    n = len(A)
    how = c.choice(["fortran", "strided", "list", "perm", "single", "twice", "model", "split", "extra"])
    same = lambda U, V, what: c.ok(U.shape == V.shape and np.allclose(np.nan_to_num(U, nan=-9., posinf=1e9), np.nan_to_num(V, nan=-9., posinf=1e9), rtol=1e-9, atol=1e-9),
                                   what, detail=dict(how=how, got=U, want=V))
    if how == "fortran":
        same(_profile(m, np.asfortranarray(X), **kw), T, "memory layout does not matter")
    elif how == "strided":
        same(_profile(m, np.repeat(X, 2, 1)[:, ::2], **kw), T, "strides do not matter")
    elif how == "list":
        if all(len(x) == top for x in A):
            same(_profile(m, X.tolist(), **kw), T, "lists give the same profile")
        else:
            same(_profile(m, X[:, :, 0], **kw), T, "two-dimensional datasets give the same profile")
    elif how == "perm":
        p = r.permutation(n)
        same(_profile(m, X[p], **kw), T[p], "order of the series does not matter")
    elif how == "single":
        i = int(r.randint(n))
        if len(A[i]) >= m:
            same(_profile(m, A[i][None, :, None], **kw)[0], T[i, :len(A[i]) - m + 1], "alone as in the batch")
    elif how == "twice":
        same(_profile(m, np.concatenate([X, X]), **kw), np.concatenate([T, T]), "repeated series")
    elif how == "extra":
        k = int(r.randint(1, 5))
        U = _profile(m, np.concatenate([X, np.full((n, k, 1), np.nan)], 1), **kw)
        same(U[:, :T.shape[1]], T, "more padding does not matter")
        c.ok(np.isnan(U[:, T.shape[1]:]).all(), "more padding is missing in the profile")
    else:
        from tslearn.matrix_profile import MatrixProfile
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            M = MatrixProfile(subsequence_length=m, **kw)
            M.fit(gen.pad([_values(c, top)[:, None]]))
            same(to_np(M.transform(X)), T, "profile does not depend on what was fitted")
            if how == "split" and n > 1:
                k = int(r.randint(1, n))
                P = [X[:k], X[k:]]
                same(np.concatenate([to_np(M.transform(p)) for p in P]), T, "batches")
    c.event("form_" + how)


def refused(c):
    from tslearn.matrix_profile import MatrixProfile
    from sklearn.exceptions import NotFittedError
    r = c.rng
    d = int(r.randint(2, 4))
    m = int(r.randint(3, 6))
    impl = c.choice(["numpy", "stump"])
    X = r.randn(3, 14, d)
    c.note(X=X, m=m, impl=impl)
    c.raises(NotImplementedError, lambda: MatrixProfile(m, implementation=impl).fit_transform(X), "several features are refused")
    c.raises(ValueError, lambda: MatrixProfile(m, implementation="other").fit_transform(X[:, :, :1]), "unknown implementation refused")
    c.raises(NotFittedError, lambda: MatrixProfile(m, implementation=impl).transform(X[:, :, :1]), "unfitted model refused")
    M = MatrixProfile(m, implementation=impl).fit(X[:, :, :1])
    c.raises(ValueError, lambda: M.transform(X), "other feature count refused")
    c.event("refusals", 4)


def long_series(c):
    """Hundreds of windows per series, against a vectorised brute force."""
    r = c.rng
    m = int(c.choice([3, 8, 16, 25, 40]))
    n = int(r.randint(1, 3))
    L = [int(r.randint(m + 200, m + 900)) for _ in range(n)]
    A = []
    for l in L:
        kind = c.choice(["gauss", "walk", "motif", "sine"])
        x = r.randn(l)
        if kind == "walk":
            x = np.cumsum(r.choice([-1., -.5, .5, 1.], size=l))
        elif kind == "motif":
            x = np.resize(r.randn(int(r.randint(m + 3, 3 * m + 6))), l) + .1 * r.randn(l)
        elif kind == "sine":
            x = np.sin(np.arange(l) * .31) * 4 + .2 * r.randn(l)
        A.append(x)
    scale = bool(r.rand() < .5)
    impl = c.choice(["numpy", "numpy", "stump"])
    c.note(m=m, lengths=L, scale=scale, implementation=impl, A=A)
    T = _profile(m, gen.pad([x[:, None] for x in A]), implementation=impl, scale=scale)
    zone = -(-m // 4)
    for i, x in enumerate(A):
        S = np.lib.stride_tricks.sliding_window_view(x, m)
        S = _norm(S) if scale else S
        k = len(S)
        B = np.full(k, np.inf)
        for j in range(k):      # row by row
            v = np.sqrt(((S - S[j]) ** 2).sum(1))
            v[max(j - zone, 0):j + zone + 1] = np.inf
            B[j] = v.min()
        g = T[i, :k, 0]
        tol = (1e-6 if impl == "numpy" else 1e-4) * np.sqrt(m) * (1. if scale else max(1., np.abs(x).max()))
        c.ok((np.abs(g - B) <= tol).all(), "long series: profile is the distance to the nearest neighbour outside the zone",
             at=int(np.argmax(np.abs(g - B))), worst=float(np.abs(g - B).max()))
        c.ok(np.isnan(T[i, k:]).all(), "long series: windows that overlap padding have no profile")
        c.event("windows of long series", k)
    c.cover("long", m, impl, scale)


def far(c):
    """Integer series far from zero: differences of windows are exact."""
    m, A, _ = _draw(c)
    r = c.rng
    A = [np.resize(x, len(x) + int(r.randint(0, 90))) for x in A]
    off = 2. ** int(c.choice([20, 26, 30])) * (1 if r.rand() < .5 else -1)
    A = [np.round(3 * x + r.randint(0, 3, size=len(x))) for x in A]
    top = max(len(x) for x in A)
    scale = bool(r.rand() < .3)
    if scale:
        off = np.sign(off) * 2. ** 16
    c.note(m=m, A=A, offset=off, scale=scale)
    T = _profile(m, gen.pad([x[:, None] + off for x in A]), implementation="numpy", scale=scale)
    for i, x in enumerate(A):
        B = brute(x, m, scale)
        g = T[i, :len(B), 0]
        f = np.isfinite(B)
        c.ok(np.array_equal(np.isfinite(g), f) and (np.abs(g[f] - B[f]) <= (1e-6 if scale else 1e-9) * (1 + B[f])).all(),
             "the profile of a shifted series is that of the series", got=g, want=B)
        c.event("windows far from zero", len(B))
    c.cover("far", m, scale, off)


WORKLOADS = [W(long_series, 24), W(far, 60), W(numpy_profile, 500), W(stump_profile, 120), W(forms_and_batches, 300), W(refused, 10)]

META = dict(
    technique="runtime monitoring: brute-force nearest-neighbour oracle on every returned window, agreement of implementations and batch monitors",
    rule="every value returned by the real code is compared with the minimum over all windows outside the exclusion zone, computed independently per series; padding, infinities, layouts, batches and implementations are judged",
    note="gpu_stump cannot run (no GPU); stumpy itself is a trusted dependency except for how it is called",
    assumptions=["series up to 45 points, sub-sequences up to 16", "windows that are almost constant relative to a large offset are not drawn (precision)", "stump for sub-sequences of at least 3 points (its own minimum)"],
)
