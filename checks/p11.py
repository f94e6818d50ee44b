"""P11: both numerical backends compute the same measures, without side effects."""
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_pair_with_constraint, scale_of


def _t(x):
    import torch
    return torch.from_numpy(np.ascontiguousarray(x, dtype=x.dtype).copy())


class Pair:
    """One call made on both backends, watched."""

    def __init__(self, c):
        import torch
        self.c, self.torch = c, torch

    def __call__(self, name, f, arrays, kw=None, rtol=1e-9, atol=1e-9, kind="value", mode=None):
        """f(*arrays, **kw) on numpy arrays and on torch tensors; ``kind`` says
        how to compare: value (arrays or scalars), path+value, bool."""
        c, torch = self.c, self.torch
        kw = kw or {}
        mode = mode or c.choice(["tensors", "tensors", "be-name", "be-tensors"])
        N = [x.copy() for x in arrays]
        rn = f(*N, **kw)
        c.ok(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(N, arrays)),
             "%s: NumPy backend leaves the caller's arrays alone" % name)
        if mode == "be-name":        # numpy arrays handed to the torch backend
            T = [x.copy() for x in arrays]
            rt = f(*T, be=c.choice(["torch", "pytorch"]), **kw)
            same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(T, arrays))
        else:
            T = [_t(x) for x in arrays]
            rt = f(*T, be="torch", **kw) if mode == "be-tensors" else f(*T, **kw)
            same = all(np.array_equal(x.numpy(), y, equal_nan=True) for x, y in zip(T, arrays))
        c.ok(same, "%s: PyTorch backend leaves the caller's data alone" % name, mode=mode)
        rn = rn if isinstance(rn, tuple) else (rn,)
        rt = rt if isinstance(rt, tuple) else (rt,)
        for k, (x, y) in enumerate(zip(rn, rt)):
            if isinstance(x, list):
                px = [(int(i), int(j)) for i, j in x]
                py = [(int(i), int(j)) for i, j in y]
                yield_path = (px, py)
                if kind == "path-exact":
                    c.ok(px == py, "%s: same path" % name, numpy=px, torch=py)
                else:
                    self.paths = yield_path
            else:
                if not np.isscalar(x) or isinstance(x, np.generic):
                    c.ok(isinstance(y, torch.Tensor) or np.isscalar(y), "%s: returns the backend's type" % name,
                         got=str(type(y)))
                    if isinstance(x, np.ndarray) and x.ndim:
                        c.ok(isinstance(y, torch.Tensor), "%s: returns tensors" % name, got=str(type(y)))
                gx, gy = to_np(x), to_np(y)
                if gx.dtype == bool:
                    c.equal(gy, gx, "%s: backends agree" % name, mode=mode)
                else:
                    c.close(gy.astype(float), gx.astype(float), "%s: backends agree" % name, rtol=rtol, atol=atol, mode=mode)
        c.event("cross-backend calls")
        return rn, rt


def _cost(p, C, how="sum"):
    return ref.path_cost(p, C, how)


def elastic(c):
    """dtw, Frechet, soft-DTW: values, paths, accumulated matrices."""
    import tslearn.metrics as M
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=20)
    P = Pair(c)
    s = scale_of(a, b)
    C = ref.sqdist(a, b)
    tol = 1e-7 * (1 + s)
    P("dtw", M.dtw, (a, b), kw, 1e-7, tol)
    for name, f, how in (("dtw_path", M.dtw_path, "sum"), ("frechet_path", M.frechet_path, "max")):
        rn, rt = P(name, f, (a, b), kw, 1e-7, tol)
        px, py = P.paths
        prob = ref.path_problem(py, len(a), len(b), outer)
        if c.ok(prob is None, "%s: PyTorch path is admissible" % name, problem=prob):
            c.close(_cost(py, C, how), _cost(px, C, how), "%s: paths cost the same" % name, rtol=1e-6, atol=tol * (1 + s))
    P("frechet", M.frechet, (a, b), kw, 1e-7, tol)
    g = float(c.choice([.01, .5, 1., 10.]))
    c.note(gamma=g)
    P("soft_dtw", M.soft_dtw, (a, b), dict(kw, gamma=g), 1e-7, 1e-8 * (1 + s * s) * 30)
    P("soft_dtw gamma 0", M.soft_dtw, (a, b), dict(kw, gamma=0.), 1e-7, 1e-8 * (1 + s * s) * 30)
    P("soft_dtw_normalized", M.soft_dtw_normalized, (a, b), dict(kw, gamma=g), 1e-7, 1e-8 * (1 + s * s) * 30)
    slack = 1e-6 + 1e-13 * float(C.max()) * sum(C.shape) / g
    P("soft_dtw_alignment", M.soft_dtw_alignment, (a, b), dict(kw, gamma=g), 1e-5 + slack, slack)
    if inner is not None and c.rng.rand() < .5:
        mask = np.array(inner, dtype=bool)
        for name, f in (("dtw_accumulated_matrix", M.dtw_accumulated_matrix), ("frechet_accumulated_matrix", M.frechet_accumulated_matrix)):
            x, y = np.asarray(f(a, b, mask)), to_np(f(_t(a), _t(b), mask))
            c.ok(np.array_equal(np.isinf(x), np.isinf(y)), name + ": same cells reached", numpy=x, torch=y)
            k = np.isfinite(x) & np.isfinite(y)
            c.close(y[k], x[k], name + ": backends agree", rtol=1e-7, atol=tol * (1 + s))
    c.cover("elastic", kind, len(a), len(b), a.shape[1])


def from_metric(c):
    import tslearn.metrics as M
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=14)
    P = Pair(c)
    s = scale_of(a, b)
    tol = 1e-6 * (1 + s)
    metric = c.choice(["euclidean", "sqeuclidean", "precomputed", "precomputed", "callable"])
    c.note(metric=metric)
    if metric == "precomputed":
        args, k2 = (c.rng.rand(len(a), len(b)) * 5,), dict(kw, metric="precomputed")
        if c.rng.rand() < .3:
            args = (np.round(args[0]),)
        C = args[0]
    elif metric == "callable":
        args, k2 = (a, b), dict(kw, metric=lambda x, y: abs(x - y).sum())
        C = np.abs(a[:, None] - b[None]).sum(-1)
    else:
        args, k2 = (a, b), dict(kw, metric=metric)
        C = ref.sqdist(a, b) if metric == "sqeuclidean" else np.sqrt(ref.sqdist(a, b))
    for name, f, how in (("dtw_path_from_metric", M.dtw_path_from_metric, "sum"),
                         ("frechet_path_from_metric", M.frechet_path_from_metric, "max")):
        P(name, f, args, k2, 1e-6, tol * (1 + s))
        px, py = P.paths
        prob = ref.path_problem(py, len(a), len(b), outer)
        if c.ok(prob is None, "%s: PyTorch path is admissible" % name, problem=prob):
            c.close(_cost(py, C, how), _cost(px, C, how), "%s: paths cost the same" % name, rtol=1e-6, atol=tol * (1 + s))
    eps = float(np.quantile(C, c.rng.rand())) + 1e-3 * (1 + s) if C.size else 1.
    if (np.abs(C - eps) > 1e-5 * (1 + s)).all():     # clear of ties
        P("lcss_path_from_metric", M.lcss_path_from_metric, args, dict(k2, eps=eps))
    c.cover("metric", metric, kind, len(a), len(b))


def others(c):
    """LCSS, envelopes, sub-sequence, limited warping, kernels, CTW."""
    import tslearn.metrics as M
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=14)
    P = Pair(c)
    s = scale_of(a, b)
    tol = 1e-7 * (1 + s)
    D = np.sqrt(ref.sqdist(a, b))
    eps = float(np.quantile(D, c.rng.rand())) + 1e-4 * (1 + s)
    if (np.abs(D - eps) > 1e-6 * (1 + s)).all():
        c.note(eps=eps)
        P("lcss", M.lcss, (a, b), dict(kw, eps=eps))
        P("lcss_path", M.lcss_path, (a, b), dict(kw, eps=eps))
        px, py = P.paths
        c.ok(len(px) == len(py), "lcss_path: as many matches", numpy=px, torch=py)
    r = int(c.rng.randint(0, 6))
    P("lb_envelope", M.lb_envelope, (a,), dict(radius=r), 1e-12, 0)
    P("subsequence_cost_matrix", M.subsequence_cost_matrix, (a, b), {}, 1e-9, 1e-9 * (1 + s * s))
    P("dtw_subsequence_path", M.dtw_subsequence_path, (a, b), {}, 1e-8, tol)
    if len(a) <= 8 and len(b) <= 8:
        L = max(len(a), len(b)) + int(c.rng.randint(0, 4))
        P("dtw_limited_warping_length", M.dtw_limited_warping_length, (a, b), dict(max_length=L), 1e-8, tol)
        P("dtw_path_limited_warping_length", M.dtw_path_limited_warping_length, (a, b), dict(max_length=L), 1e-8, tol)
    sg = s * float(c.choice([.5, 1., 3.]))
    P("gak", M.gak, (a, b), dict(sigma=sg), 1e-6, 1e-9)
    P("unnormalized_gak", M.unnormalized_gak, (a, b), dict(sigma=sg), 1e-6, 1e-9)
    c.cover("others", kind, len(a), len(b), r)


def cross(c):
    """Cross-distance matrices, bandwidths, with padding and several jobs."""
    import tslearn.metrics as M
    d = gen.dim(c.rng, 2)
    A = gen.pad(gen.dataset(c.rng, int(c.rng.randint(1, 4)), 1, 9, d), int(c.rng.randint(0, 2)))
    B = gen.pad(gen.dataset(c.rng, int(c.rng.randint(1, 4)), 1, 7, d))
    P = Pair(c)
    args = (A, B) if c.rng.rand() < .6 else (A,)
    s = scale_of(*args)
    c.note(datasets=args)
    kw = {"n_jobs": 2} if c.rng.rand() < .3 else {}
    P("cdist_dtw", M.cdist_dtw, args, kw, 1e-7, 1e-7 * (1 + s))
    P("cdist_frechet", M.cdist_frechet, args, kw, 1e-7, 1e-7 * (1 + s))
    t2 = 1e-8 * (1 + s * s) * 30
    P("cdist_soft_dtw", M.cdist_soft_dtw, args, dict(kw, gamma=.5), 1e-7, t2)
    P("cdist_soft_dtw_normalized", M.cdist_soft_dtw_normalized, args, dict(kw, gamma=.5), 1e-7, t2)
    P("cdist_gak", M.cdist_gak, args, dict(kw, sigma=s), 1e-6, 1e-9)
    k = int((~np.isnan(A).any(-1)).sum())
    n = int(c.rng.randint(2, 9))
    seed = int(c.rng.randint(99))
    if k >= 2:
        P("sigma_gak", M.sigma_gak, (A,), dict(n_samples=n, random_state=seed), 1e-6, 1e-6 * (1 + s))
        P("gamma_soft_dtw", M.gamma_soft_dtw, (A,), dict(n_samples=n, random_state=seed), 1e-6, 1e-6 * (1 + s * s))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from tslearn.metrics import softdtw_variants as V
        fl = c.rng.rand() < .5
        P("legacy cdist_soft_dtw", V.cdist_soft_dtw, args, dict(gamma=.5, compute_with_backend=fl), 1e-7, t2)
        P("legacy cdist_soft_dtw_normalized", V.cdist_soft_dtw_normalized, args,
          dict(gamma=.5, compute_with_backend=fl), 1e-7, t2)
    c.cover("cross", A.shape, len(args), tuple(kw))


def masks(c):
    import tslearn.metrics as M
    import torch
    n, m = int(c.rng.randint(1, 25)), int(c.rng.randint(1, 25))
    kw, (kind, p) = gen.constraint(c.rng, n, m, .1)
    inner, _ = ref.masks(kind, p, n, m)
    c.note(n=n, m=m, kw=kw)
    if not (inner.any(0).all() and inner.any(1).all() and ref.feasible(inner)):
        c.skip()
    x, y = M.compute_mask(n, m, **kw), M.compute_mask(n, m, be="torch", **kw)
    c.ok(isinstance(y, torch.Tensor), "compute_mask: tensor", got=str(type(y)))
    c.equal(to_np(y), x, "compute_mask: backends agree")
    if kind == "sakoe_chiba":
        x, y = M.sakoe_chiba_mask(n, m, p), M.sakoe_chiba_mask(n, m, p, be="torch")
    elif kind == "itakura":
        x, y = M.itakura_mask(n, m, p), M.itakura_mask(n, m, p, be="torch")
    c.equal(to_np(y), x, "mask functions: backends agree")
    c.cover(kind, n, m, p)


def ctw(c):
    import tslearn.metrics as M
    a, b = c.rng.randn(int(c.rng.randint(5, 12)), 2), c.rng.randn(int(c.rng.randint(5, 12)), 2)
    P = Pair(c)
    c.note(s1=a, s2=b)
    kw = dict(max_iter=1) if c.rng.rand() < .5 else {}
    P("ctw", M.ctw, (a, b), kw, 1e-6, 1e-6)
    x, y = M.ctw_path(a, b, **kw), M.ctw_path(_t(a), _t(b), **kw)
    c.close(float(y[2]), float(x[2]), "ctw_path: backends agree", rtol=1e-6, atol=1e-6)
    c.ok([tuple(map(int, p)) for p in x[0]] == [tuple(map(int, p)) for p in y[0]], "ctw_path: same path")
    c.cover("ctw", len(a), len(b), tuple(kw))


def classes(c):
    """SoftDTW and SquaredEuclidean objects."""
    import torch
    from tslearn.metrics import SoftDTW, SquaredEuclidean
    a, b = gen.pair(c.rng, 1, 12)
    g = float(c.choice([.1, 1., 5.]))
    fl = bool(c.rng.rand() < .5)
    c.note(s1=a, s2=b, gamma=g, compute_with_backend=fl)
    s = scale_of(a, b)
    res = []
    for X, Y, be in ((a.copy(), b.copy(), None), (_t(a), _t(b), "torch")):
        q = SquaredEuclidean(X, Y, be=be, compute_with_backend=fl)
        D = q.compute()
        m = SoftDTW(q, gamma=g, be=be, compute_with_backend=fl)
        v = m.compute()
        E = m.grad()
        G = q.jacobian_product(E)
        res.append([to_np(z).astype(float) for z in (D, v, E, G)])
        c.ok(np.array_equal(to_np(X), a) and np.array_equal(to_np(Y), b), "SoftDTW: inputs untouched")
        if be:
            c.ok(all(isinstance(z, torch.Tensor) for z in (D, E, G)), "SoftDTW: tensors")
    big = 1e-9 * (1 + s * s)
    slack = 1e-6 + 1e-12 * s * s * (len(a) + len(b)) / g
    for name, x, y, rt, at in zip(("distances", "value", "gradient", "jacobian product"), *res,
                                  (1e-7, 1e-7, 1e-5, 1e-5), (big, big * 30, slack, slack * (1 + s) * 20)):
        c.close(y, x, "SoftDTW %s: backends agree" % name, rtol=rt, atol=at)
    c.close(res[0][0], ref.sqdist(a, b), "SquaredEuclidean is the squared distance", rtol=1e-8, atol=big)
    want = np.array([[2 * sum(res[0][2][i, j] * (a[i, k] - b[j, k]) for j in range(len(b)))
                      for k in range(a.shape[1])] for i in range(len(a))])
    c.close(res[0][3], want, "jacobian product is the chain rule", rtol=1e-7, atol=1e-7 * (1 + s))
    c.cover("classes", a.shape, b.shape, fl)


def lower_precision(c):
    """float32 tensors: results at that precision, inputs untouched."""
    import torch
    import tslearn.metrics as M
    a, b = gen.pair(c.rng, 1, 12)
    a, b = (a / scale_of(a, b)).astype(np.float32), (b / scale_of(a, b)).astype(np.float32)
    c.note(s1=a, s2=b)
    X, Y = torch.from_numpy(a.copy()), torch.from_numpy(b.copy())
    for f, kw in ((M.dtw, {}), (M.frechet, {}), (M.soft_dtw, {"gamma": .5}), (M.gak, {}),
                  (M.cdist_dtw, {}), (M.dtw_limited_warping_length, {"max_length": len(a) + len(b)})):
        x, y = (a, b) if f is not M.cdist_dtw else (a[None], b[None])
        u, v = (X, Y) if f is not M.cdist_dtw else (X[None], Y[None])
        c.close(np.ravel(to_np(f(u, v, **kw))), np.ravel(f(x.astype(float), y.astype(float), **kw)),
                "float32 tensors: within single precision", rtol=2e-4, atol=2e-3, fn=f.__name__)
    c.ok(np.array_equal(X.numpy(), a) and np.array_equal(Y.numpy(), b), "float32 tensors untouched")
    c.cover("f32", a.shape, b.shape)


def utilities(c):
    import torch
    from tslearn.utils import to_time_series, to_time_series_dataset, ts_size, check_equal_size
    ts = gen.dataset(c.rng, int(c.rng.randint(1, 5)), 1, 9)
    X = gen.pad(ts, int(c.rng.randint(0, 3)))
    if c.rng.rand() < .3:
        i, t = c.rng.randint(len(ts)), 0
        if len(ts[i]) > 1:
            X[i, t, 0] = np.nan
    c.note(X=X)
    T = _t(X)
    dn, dt = to_time_series_dataset(X), to_time_series_dataset(T)
    c.ok(isinstance(dt, torch.Tensor), "to_time_series_dataset: tensor")
    c.equal(to_np(dt), dn, "to_time_series_dataset: backends agree")
    c.equal(to_np(to_time_series_dataset([_t(x) for x in ts], be="torch")), to_time_series_dataset(ts),
            "to_time_series_dataset of a list of tensors")
    c.equal(to_np(to_time_series_dataset([x for x in ts], be="torch")), to_time_series_dataset(ts),
            "to_time_series_dataset of a list of arrays")
    for i in range(len(ts)):
        c.ok(int(ts_size(T[i])) == int(ts_size(X[i])) == len(ts[i]), "ts_size: backends agree")
        for rm in (False, True):
            v = to_time_series(T[i], remove_nans=rm)
            c.ok(isinstance(v, torch.Tensor), "to_time_series: tensor")
            c.equal(to_np(v), to_time_series(X[i], remove_nans=rm), "to_time_series: backends agree")
    c.ok(bool(check_equal_size(T)) == bool(check_equal_size(X)), "check_equal_size: backends agree")
    c.ok(np.array_equal(T.numpy(), X, equal_nan=True), "utilities leave tensors untouched")
    c.cover("utils", X.shape, tuple(len(x) for x in ts))


def large(c):
    """Longer and wider series, and more of them, on both backends."""
    import tslearn.metrics as M
    what = c.choice(["long", "wide", "many"])
    P = Pair(c)
    if what == "many":
        n1, n2, d = int(c.rng.randint(5, 12)), int(c.rng.randint(1, 6)), 2
        A, B = gen.pad(gen.dataset(c.rng, n1, 1, 9, d, kind="gauss")), gen.pad(gen.dataset(c.rng, n2, 1, 9, d, kind="gauss"), 3)
        c.note(A=A, B=B)
        kw = dict(n_jobs=2) if c.rng.rand() < .4 else {}
        P("cdist_dtw", M.cdist_dtw, (A, B), kw, 1e-7, 1e-7)
        P("cdist_dtw", M.cdist_dtw, (A,), kw, 1e-7, 1e-7)
        P("cdist_soft_dtw", M.cdist_soft_dtw, (A,), dict(kw, gamma=1.), 1e-7, 1e-6)
        P("cdist_frechet", M.cdist_frechet, (A, B), kw, 1e-7, 1e-7)
        P("cdist_gak", M.cdist_gak, (A, B), dict(kw, sigma=2.), 1e-6, 1e-9)
        P("sigma_gak", M.sigma_gak, (A,), dict(n_samples=90, random_state=3), 1e-6, 1e-6)
        c.cover("large-many", n1, n2)
        return
    d = int(c.choice([5, 13, 40])) if what == "wide" else 2
    lo, hi = (3, 12) if what == "wide" else (30, 60)
    a, b = c.rng.randn(int(c.rng.randint(lo, hi)), d), c.rng.randn(int(c.rng.randint(lo, hi)), d) + c.choice([0., 3.])
    if len(a) > len(b):
        a, b = b, a
    n, m = len(a), len(b)
    kw, (kind, p) = gen.constraint(c.rng, n, m, .4)
    inner, outer = ref.masks(kind, p, n, m)
    if not (ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
        kw = {}
    c.note(s1=a, s2=b, kw=kw)
    s = scale_of(a, b)
    P("dtw", M.dtw, (a, b), kw, 1e-7, 1e-7)
    P("dtw_path", M.dtw_path, (a, b), kw, 1e-7, 1e-7, kind="path-exact")
    P("frechet", M.frechet, (a, b), kw, 1e-7, 1e-7)
    P("soft_dtw", M.soft_dtw, (a, b), dict(kw, gamma=1.), 1e-7, 1e-6 * d)
    P("gak", M.gak, (a, b), dict(sigma=2. * np.sqrt(d)), 1e-6, 1e-12)
    P("lb_envelope", M.lb_envelope, (b,), dict(radius=int(c.rng.randint(1, 20))), 1e-12, 0)
    P("dtw_subsequence_path", M.dtw_subsequence_path, (a, b), {}, 1e-8, 1e-7)
    D = np.sqrt(ref.sqdist(a, b))
    eps = float(np.quantile(D, .3)) + 1e-6
    if (np.abs(D - eps) > 1e-7).all():
        P("lcss", M.lcss, (a, b), dict(kw, eps=eps))
    c.cover("large", what, n, m, d, kind)


WORKLOADS = [W(large, 8), W(elastic, 50), W(from_metric, 50), W(others, 40), W(cross, 16), W(masks, 40), W(ctw, 10),
             W(classes, 25), W(lower_precision, 10), W(utilities, 30)]

META = dict(
    technique="runtime monitor: every public measure run on both backends, results, types and input checksums compared",
    rule="seeded pairs and collections passed as tensors, as arrays with a backend name, and with both; all constraints, metrics "
         "and parameters; distinct by entry point, constraint, lengths and mode",
    note="Held on the executions driven: NumPy and PyTorch results compared for each call, and inputs compared bitwise with copies.",
    assumptions=["values clear of rounding ties where a threshold decides", "float64 tensors unless stated"])
